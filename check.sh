#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
#        check.sh setup                       build the engine and warm the build cache
#        check.sh replay FILE                 run a reported counterexample against the real code
#        check.sh run|selftest|list ...       engine commands for development
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOCACHE=$PWD/bin/gocache
[ -d /root/go/pkg/mod ] && export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
engine() {
  mkdir -p bin
  if [ ! -x bin/symgo ] || [ -n "$(find symgo -newer bin/symgo -name '*.go' | head -1)" ]; then
    (cd symgo && go build -o ../bin/symgo.new . && mv ../bin/symgo.new ../bin/symgo) || exit 2
  fi
}
engine
case "$1" in
setup)
  (cd harness && go build -o ../bin/warm ./replay && CGO_ENABLED=1 go build -race -o ../bin/warm ./replay)
  rm -f "$PWD/bin/warm"
  bin/symgo list >/dev/null ;;
replay|run|selftest|list) exec bin/symgo "$@" ;;
*) exec bin/symgo check -property "$1" ${2:+-tier "$2"} ;;
esac
