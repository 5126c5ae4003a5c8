// Package shim holds Go stand-ins for standard-library functions that are
// assembly, system calls or reflection. The engine redirects the functions named
// in //shim:for lines here. It is never linked into native replays.
package shim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strconv"
	"testing"
	"time"
)

// RTError stands for runtime.Error values.
type RTError string

func (e RTError) Error() string { return string(e) }
func (e RTError) RuntimeError() {}

func RandIntn(n int) int      { return 0 }
func swapAny(x any, i, j int) {}
func lenAny(x any) int        { return 0 }

//shim:for math/rand.Shuffle
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		j := RandIntn(i + 1)
		swap(i, j)
	}
}

//shim:for math/rand.Perm
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

//shim:for sort.Slice sort.SliceStable
func SortSlice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

//shim:for sort.SliceIsSorted
func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := lenAny(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// scanBytes and scanString find a byte, or return -2 when symbolic bytes are met.
func scanBytes(s []byte, c byte) int  { panic("intrinsic") }
func scanString(s string, c byte) int { panic("intrinsic") }

//shim:for internal/bytealg.IndexByteString
func IndexByteString(s string, c byte) int {
	if i := scanString(s, c); i != -2 {
		return i
	}
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//shim:for internal/bytealg.IndexByte
func IndexByte(s []byte, c byte) int {
	if i := scanBytes(s, c); i != -2 {
		return i
	}
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//shim:for internal/bytealg.LastIndexByteString
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//shim:for internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//shim:for internal/bytealg.Count
func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//shim:for internal/bytealg.Equal bytes.Equal
func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

//shim:for internal/bytealg.Compare internal/bytealg.CompareString strings.Compare
func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

//shim:for internal/bytealg.IndexString strings.Index internal/stringslite.Index
func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

//shim:for bytes.Index internal/bytealg.Index
func IndexBytes(s, sub []byte) int { return IndexString(string(s), string(sub)) }

//shim:for math.Max
func Max(x, y float64) float64 {
	switch {
	case x-x != 0 && x > 0 || y-y != 0 && y > 0:
		return posInf()
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && x == y:
		if 1/x < 0 {
			return y
		}
		return x
	}
	if x > y {
		return x
	}
	return y
}

func posInf() float64 {
	z := 0.0
	return 1 / z
}

//shim:for math.Min
func Min(x, y float64) float64 {
	switch {
	case x-x != 0 && x < 0 || y-y != 0 && y < 0:
		return -posInf()
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && x == y:
		if 1/x < 0 {
			return x
		}
		return y
	}
	if x < y {
		return x
	}
	return y
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

//shim:for fmt.Errorf
func Errorf(format string, a ...any) error {
	for _, x := range a {
		if e, ok := x.(error); ok {
			return &wrapError{format, e}
		}
	}
	return errors.New(format)
}

func unsup() {}

// text is the %v format of x; the engine formats what is not symbolic itself.
func text(x any) string {
	switch v := x.(type) {
	case string:
		return v
	case bool:
		return strconv.FormatBool(v)
	case int:
		return strconv.Itoa(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case int32:
		return strconv.FormatInt(int64(v), 10)
	case uint8:
		return strconv.FormatUint(uint64(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	unsup()
	return ""
}

// sprint is fmt.Sprint of symbolic values.
func sprint(a ...any) string {
	r := ""
	wasString := true
	for i, x := range a {
		_, isString := x.(string)
		if i > 0 && !isString && !wasString {
			r += " "
		}
		wasString = isString
		r += text(x)
	}
	return r
}

// sprintf is fmt.Sprintf of symbolic values, plain verbs only.
func sprintf(format string, a ...any) string {
	r, k := "", 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			r += format[i : i+1]
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			r += "%"
			continue
		}
		if i == len(format) || k == len(a) {
			unsup()
		}
		x := a[k]
		k++
		switch format[i] {
		case 'v':
			r += text(x)
		case 's':
			if _, ok := x.(string); !ok {
				unsup()
			}
			r += text(x)
		case 'd':
			switch x.(type) {
			case string, bool, float64:
				unsup()
			}
			r += text(x)
		case 't':
			if _, ok := x.(bool); !ok {
				unsup()
			}
			r += text(x)
		default:
			unsup()
		}
	}
	if k != len(a) {
		unsup()
	}
	return r
}

// fprint writes formatted text; os.Stdout is the only nil *os.File.
func fprint(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok && f == nil {
		return fmt.Print(s)
	}
	return w.Write([]byte(s))
}

//shim:for fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return fprint(w, fmt.Sprintf(format, a...))
}

//shim:for fmt.Fprintln
func Fprintln(w io.Writer, a ...any) (int, error) {
	return fprint(w, fmt.Sprint(append(space(a), "\n")...))
}

// space is what Println prints before the end of the line.
func space(a []any) []any {
	var r []any
	for i, x := range a {
		if i > 0 {
			r = append(r, " ")
		}
		r = append(r, fmt.Sprint(x))
	}
	return r
}

//shim:for fmt.Fprint
func Fprint(w io.Writer, a ...any) (int, error) { return fprint(w, fmt.Sprint(a...)) }

//shim:for errors.Is
func Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// ---- in-memory file system ----

// FSNode is a file or directory.
type FSNode struct {
	Data []byte
	Dir  bool
	Link string // a symbolic link to this absolute path
}

var Files = map[string]*FSNode{}
var Order []string
var ndirs int

// File stands for os.File.
type File struct {
	n      *FSNode
	name   string
	off    int
	closed bool
	write  bool
	wonly  bool
	app    bool
	full   bool
}

func parent(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}

func add(p string, n *FSNode) {
	if _, ok := Files[p]; !ok {
		Order = append(Order, p)
	}
	Files[p] = n
}

//shim:for verifharness/sym.TempDir
func TempDir() string {
	ndirs++
	p := "/tmp/sym" + string(rune('0'+ndirs))
	add(p, &FSNode{Dir: true})
	return p
}

//shim:for verifharness/sym.Cleanup
func Cleanup() {}

func clean(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	out := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '/' && i+1 < len(p) && p[i+1] == '/' {
			continue
		}
		out += p[i : i+1]
	}
	return out
}

// follow resolves symbolic links.
func follow(p string) string {
	for i := 0; i < 8; i++ {
		n := Files[p]
		if n == nil || n.Link == "" {
			break
		}
		p = clean(n.Link)
	}
	return p
}

//shim:for os.Symlink
func Symlink(target, p string) error {
	add(clean(p), &FSNode{Link: target})
	return nil
}

func notExist(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: fs.ErrNotExist} }

//shim:for os.Create
func Create(p string) (*File, error) { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }

//shim:for os.Open
func Open(p string) (*File, error) { return OpenFile(p, os.O_RDONLY, 0) }

//shim:for os.OpenFile
func OpenFile(p string, flag int, m os.FileMode) (*File, error) {
	p = clean(p)
	f := &File{name: p, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, wonly: flag&os.O_WRONLY != 0, app: flag&os.O_APPEND != 0}
	if p == "/dev/full" {
		f.n, f.full = &FSNode{}, true
		return f, nil
	}
	p = follow(p)
	n := Files[p]
	if n == nil {
		d := Files[parent(p)]
		if flag&os.O_CREATE == 0 || d == nil || !d.Dir {
			return nil, notExist("open", p)
		}
		n = &FSNode{}
		add(p, n)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrExist}
	} else if n.Dir && f.write {
		return nil, &fs.PathError{Op: "open", Path: p, Err: errors.New("is a directory")}
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
	}
	f.n = n
	return f, nil
}

var ntemp int

//shim:for os.CreateTemp io/ioutil.TempFile
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	ntemp++
	id := "tmp" + string(rune('0'+ntemp%10)) + string(rune('0'+ntemp/10))
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return OpenFile(dir+"/"+pattern[:i]+id+pattern[i+1:], os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		}
	}
	return OpenFile(dir+"/"+pattern+id, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//shim:for os.Rename
func Rename(from, to string) error {
	from, to = clean(from), clean(to)
	n := Files[from]
	if n == nil {
		return notExist("rename", from)
	}
	Remove(from)
	add(to, n)
	return nil
}

//shim:for os.Truncate
func Truncate(p string, size int64) error {
	n := Files[clean(p)]
	if n == nil {
		return notExist("truncate", p)
	}
	return FileTruncate(&File{n: n, write: true}, size)
}

//shim:for (*os.File).Truncate
func FileTruncate(f *File, size int64) error {
	for int64(len(f.n.Data)) < size {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:size]
	return nil
}

//shim:for (*os.File).Seek
func FileSeek(f *File, off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(f.off)
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: errors.New("invalid argument")}
	}
	f.off = int(off)
	return off, nil
}

//shim:for os.ReadFile io/ioutil.ReadFile
func ReadFile(p string) ([]byte, error) {
	p = clean(p)
	n := Files[p]
	if n == nil || n.Dir {
		return nil, notExist("open", p)
	}
	return append([]byte{}, n.Data...), nil
}

//shim:for os.WriteFile io/ioutil.WriteFile
func WriteFile(p string, b []byte, m os.FileMode) error {
	f, err := Create(p)
	if err != nil {
		return err
	}
	f.n.Data = append([]byte{}, b...)
	return nil
}

//shim:for os.Mkdir os.MkdirAll
func Mkdir(p string, m os.FileMode) error {
	add(clean(p), &FSNode{Dir: true})
	return nil
}

//shim:for os.Remove os.RemoveAll
func Remove(p string) error {
	p = clean(p)
	delete(Files, p)
	for i, q := range Order {
		if q == p {
			Order = append(Order[:i:i], Order[i+1:]...)
			break
		}
	}
	return nil
}

//shim:for (*os.File).Write
func FileWrite(f *File, b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrClosed}
	}
	if !f.write {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: errors.New("bad file descriptor")}
	}
	if f.full && len(b) > 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: errors.New("no space left on device")}
	}
	if f.app {
		f.off = len(f.n.Data)
	}
	for len(f.n.Data) < f.off {
		f.n.Data = append(f.n.Data, 0)
	}
	k := copy(f.n.Data[f.off:], b)
	f.n.Data = append(f.n.Data, b[k:]...)
	f.off += len(b)
	return len(b), nil
}

//shim:for (*os.File).WriteString
func FileWriteString(f *File, s string) (int, error) { return FileWrite(f, []byte(s)) }

//shim:for (*os.File).Read
func FileRead(f *File, b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrClosed}
	}
	if f.wonly {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: errors.New("bad file descriptor")}
	}
	if f.n.Dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: errors.New("is a directory")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.n.Data) {
		return 0, io.EOF
	}
	k := copy(b, f.n.Data[f.off:])
	f.off += k
	return k, nil
}

//shim:for (*os.File).Close
func FileClose(f *File) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	f.closed = true
	return nil
}

//shim:for (*os.File).Name
func FileName(f *File) string { return f.name }

//shim:for (*os.File).Sync
func FileSync(f *File) error { return nil }

// FileInfo implements os.FileInfo.
type FileInfo struct {
	name string
	n    *FSNode
}

func (i FileInfo) Name() string {
	return i.name[len(parent(i.name))+1:]
}
func (i FileInfo) Size() int64 { return int64(len(i.n.Data)) }
func (i FileInfo) Mode() fs.FileMode {
	if i.n.Link != "" {
		return fs.ModeSymlink | 0777
	}
	if i.n.Dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i FileInfo) ModTime() time.Time { return time.Time{} }
func (i FileInfo) IsDir() bool        { return i.n.Dir }
func (i FileInfo) Sys() any           { return nil }

//shim:for os.Stat
func Stat(p string) (os.FileInfo, error) {
	p = clean(p)
	n := Files[follow(p)]
	if n == nil {
		return nil, notExist("stat", p)
	}
	return FileInfo{p, n}, nil
}

//shim:for os.Lstat
func Lstat(p string) (os.FileInfo, error) {
	p = clean(p)
	n := Files[p]
	if n == nil {
		return nil, notExist("lstat", p)
	}
	return FileInfo{p, n}, nil
}

//shim:for (*os.File).Stat
func FileStat(f *File) (os.FileInfo, error) { return FileInfo{f.name, f.n}, nil }

// Glob supports a pattern whose only wildcards are stars in the last element.
//
//shim:for path/filepath.Glob
func Glob(pat string) ([]string, error) {
	pat = clean(pat)
	dir := parent(pat)
	var out []string
	for _, p := range Order {
		if parent(p) == dir && star(pat[len(dir)+1:], p[len(dir)+1:]) {
			// keep the list sorted, as the real Glob does
			i := len(out)
			out = append(out, p)
			for i > 0 && out[i-1] > p {
				out[i] = out[i-1]
				i--
			}
			out[i] = p
		}
	}
	return out, nil
}

func star(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if star(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && (pat[0] == '?' || pat[0] == s[0]) && star(pat[1:], s[1:])
}

var testRunning, testFailed bool

//shim:for verifharness/sym.RunTest
func RunTest(f func(t *testing.T)) bool {
	testRunning, testFailed = true, false
	f(new(testing.T))
	testRunning = false
	return testFailed
}

//shim:for (*testing.common).Fail
func TFail(t *testing.T) {
	if !testRunning {
		panic("test failed")
	}
	testFailed = true
}

//shim:for (*testing.common).Errorf
func TErrorf(t *testing.T, format string, args ...any) { TFail(t) }

//shim:for (*testing.common).Error
func TError(t *testing.T, args ...any) { TFail(t) }

//shim:for (*testing.common).Logf
func TLogf(t *testing.T, format string, args ...any) {}

//shim:for (*testing.common).Log
func TLog(t *testing.T, args ...any) {}

//shim:for (*testing.common).Helper
func THelper(t *testing.T) {}

//shim:for (*testing.common).Failed
func TFailed(t *testing.T) bool { return testFailed }
