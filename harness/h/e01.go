package h

import (
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
	"verifharness/sym"
)

// cell is one string cell in UTF-8 and in ISO 8859-1 (utf only when ok).
type encCell struct {
	nil_  bool
	utf   string
	latin string
	ok    bool
}

// anyCell is missing, ASCII, an arbitrary Latin-1 letter or one that ISO 8859-1 lacks.
func anyCell(label string, kinds int) encCell {
	switch sym.Choose(label, kinds) {
	case 0:
		b := sym.Byte(label + "a")
		sym.Assume(b < 0x80)
		s := string([]byte{'x', b})
		if sym.Choose(label+"empty", 2) == 1 {
			s = ""
		}
		return encCell{utf: s, latin: s, ok: true}
	case 1:
		r := sym.IntRange(label+"l", 0xbe, 0xc1)
		return encCell{utf: "e" + string(utf8.AppendRune(nil, rune(r))), latin: "e" + string([]byte{byte(r)}), ok: true}
	case 2:
		return encCell{nil_: true, ok: true}
	}
	return encCell{utf: "a\u0416", ok: false}
}

func (c encCell) obj(latin bool) interface{} {
	if c.nil_ {
		return nil
	}
	if latin {
		return c.latin
	}
	return c.utf
}

// encModel has string columns made of the cells, and one column of each other type.
func encModel(cs [][]encCell, latin bool) *mdl {
	n := len(cs[0])
	m := smallModel("", n)
	for i := range cs {
		m.cols["s"+itoa(i+1)] = &col{k: kS, o: []interface{}{}}
	}
	for r := 0; r < n; r++ {
		for i := range cs {
			c := m.cols["s"+itoa(i+1)]
			c.o = append(c.o, cs[i][r].obj(latin))
		}
		m.cols["o1"].o[r] = "not a string column \u0416"
	}
	return m
}

// E01_Encode: to ISO 8859-1 and back, or not at all.
// bound: 0..2 rows (thorough 3), two or three string columns; cells missing, empty, x plus an arbitrary ASCII byte, e plus one of the letters U+00BE to U+00C1 (arbitrary), or a letter that cannot be encoded (quick with 2 rows: second column missing, encodable or not); frame as is, reversed, sliced or repeating rows
// cover: encoded refused repeated
func E01_Encode() {
	sym.AnyMapOrder()
	n := sym.Choose("n", sym.Quick(3, 4))
	cs := [][]encCell{nil, nil}
	if n > 0 && sym.Choose("columns", 2) == 1 {
		// one of three columns has the letter that cannot be encoded
		cs = make([][]encCell, 3)
		bad := sym.Choose("bad", 3)
		for r := 0; r < n; r++ {
			for i := range cs {
				c := encCell{utf: "\u00e9" + itoa(i), latin: "\xe9" + itoa(i), ok: true}
				if i == bad && r == n-1 {
					c = encCell{utf: "a\u0416"}
				}
				cs[i] = append(cs[i], c)
			}
		}
	}
	for r := 0; r < n && len(cs) == 2; r++ {
		cs[0] = append(cs[0], anyCell("s1", 4))
		if r == 0 && n > sym.Quick(1, 2) {
			cs[1] = append(cs[1], []encCell{{nil_: true, ok: true}, {utf: "a\u0416"}, {utf: "\u00e8", latin: "\xe8", ok: true}}[sym.Choose("s2", 3)])
		} else if r == 0 {
			cs[1] = append(cs[1], anyCell("s2", 4))
		} else {
			cs[1] = append(cs[1], encCell{utf: "\u00e9\u00e0", latin: "\xe9\xe0", ok: true})
		}
	}
	m, enc := encModel(cs, false), encModel(cs, true)
	for _, c := range []string{"f1", "i1", "b1"} {
		enc.cols[c] = m.cols[c]
	}
	df := m.build()
	v, idx := df, iota_(n)
	switch sym.Choose("view", 4) {
	case 1:
		v, idx = df.ReverseView(), rev(n)
	case 2:
		if n > 1 {
			v, idx = df.SliceView(1, n), iota_(n)[1:]
		}
	case 3:
		if n > 0 {
			idx = append(iota_(n), 0, n-1)
			v = df.IndexView(idx)
			sym.Cover("repeated")
		}
	}
	ok := true
	for _, r := range idx {
		for i := range cs {
			ok = ok && cs[i][r].ok
		}
	}
	keep := m.freeze()
	err := v.Encode(charmap.ISO8859_1)
	if !ok {
		sym.Assert(err != nil, "Encode: a letter is not representable and no error is returned")
		keep.pick(idx).check(v, "frame after a refused Encode")
		keep.check(df, "base after a refused Encode")
		sym.Assert(v.Encode(nil) == nil, "Encode to UTF-8 after a refused Encode: error")
		keep.pick(idx).check(v, "frame after a refused Encode and Encode to UTF-8")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "Encode: refused although every letter is representable")
	enc.pick(idx).check(v, "frame after Encode")
	// rows the frame does not show keep their bytes
	shown := map[int]bool{}
	for _, r := range idx {
		shown[r] = true
	}
	half := m.freeze()
	for r := 0; r < n; r++ {
		if shown[r] {
			for i := range cs {
				c := "s" + itoa(i+1)
				half.cols[c].o[r] = enc.cols[c].o[r]
			}
		}
	}
	half.check(df, "base after Encode")
	sym.Assert(v.Encode(charmap.ISO8859_1) == nil, "Encode to the same encoding: error")
	enc.pick(idx).check(v, "frame after Encode to the same encoding")
	sym.Assert(v.Encode(nil) == nil, "Encode back: error")
	sym.Assert(v.Encode(nil) == nil, "Encode to the same encoding: error")
	keep.pick(idx).check(v, "frame after encoding back")
	keep.check(df, "base after encoding back")
	sym.Cover("encoded")
	observe(v, "r")
}

// E01_Between: from one 8-bit encoding to another.
// bound: frames of 1..2 rows built as ISO 8859-1 and re-encoded to ISO 8859-15 and back to UTF-8, letters arbitrary among those both have (0xdd..0xe0) or the currency sign, which only the first has; frame as is or repeating rows
// cover: refused moved
func E01_Between() {
	n := 1 + sym.Choose("n", 2)
	m := &mdl{cols: map[string]*col{"s1": {k: kS, o: []interface{}{}}, "s2": {k: kS, o: []interface{}{}}}, idx: iota_(n)}
	u := m.freeze()
	bad := false
	for r := 0; r < n; r++ {
		b := sym.IntRange("letter", 0xdd, 0xe0)
		m.cols["s1"].o = append(m.cols["s1"].o, "q"+string([]byte{byte(b)}))
		u.cols["s1"].o = append(u.cols["s1"].o, "q"+string(utf8.AppendRune(nil, rune(b))))
		if sym.Choose("currency", 2) == 1 {
			m.cols["s2"].o, u.cols["s2"].o = append(m.cols["s2"].o, "\xa4"), append(u.cols["s2"].o, "\u00a4")
			bad = true
		} else {
			m.cols["s2"].o, u.cols["s2"].o = append(m.cols["s2"].o, "\xfc"), append(u.cols["s2"].o, "\u00fc")
		}
	}
	b := newBuilder()
	for _, c := range []string{"s1", "s2"} {
		b.SetObjects(c, append([]interface{}(nil), m.cols[c].o...)).MarkAsString(c)
	}
	df := b.TextEncoding(charmap.ISO8859_1).ToDataFrame()
	idx := iota_(n)
	v := df.View()
	if sym.Choose("repeat", 2) == 1 {
		idx = append(idx, 0)
		v = df.IndexView(idx)
	}
	err := v.Encode(charmap.ISO8859_15)
	if bad {
		sym.Assert(err != nil, "Encode: a letter is not representable and no error is returned")
		m.pick(idx).check(v, "frame after a refused Encode")
		sym.Assert(v.Encode(charmap.ISO8859_1) == nil, "Encode to the same encoding: error")
		m.pick(idx).check(v, "frame after a refused Encode and Encode to the same encoding")
		sym.Assert(v.Encode(nil) == nil, "Encode to UTF-8 after a refused Encode: error")
		u.pick(idx).check(v, "frame after a refused Encode and Encode to UTF-8")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "Encode: refused although every letter is representable")
	m.pick(idx).check(v, "frame after Encode") // same bytes for these letters
	sym.Assert(v.Encode(nil) == nil, "Encode to UTF-8: error")
	u.pick(idx).check(v, "frame after Encode to UTF-8")
	sym.Cover("moved")
}

// E01_Letters: every single character.
// bound: 1 string of 1 arbitrary byte in ISO 8859-1, or 1 arbitrary character U+0000 to U+017F in UTF-8, converted to the other encoding and back
// cover: refused
func E01_Letters() {
	utf := sym.Choose("from", 2) == 0
	var r int
	s := &col{k: kS}
	b := newBuilder()
	if utf {
		r = sym.IntRange("rune", 0, 0x17f)
		s.o = []interface{}{string(utf8.AppendRune(nil, rune(r)))}
	} else {
		r = sym.IntRange("byte", 0, 0xff)
		s.o = []interface{}{string([]byte{byte(r)})}
		b.TextEncoding(charmap.ISO8859_1)
	}
	df := b.SetObjects("s", append([]interface{}(nil), s.o...)).MarkAsString("s").ToDataFrame()
	keep := s.o[0].(string)
	if utf {
		err := df.Encode(charmap.ISO8859_1)
		sym.Assert((err != nil) == (r > 0xff), "Encode: error exactly for what ISO 8859-1 lacks")
		if err != nil {
			sym.Cover("refused")
			sym.Assert(df.Strings("s").Get(0) == keep, "Encode: string changed although refused")
			return
		}
		sym.Assert(df.Strings("s").Get(0) == string([]byte{byte(r)}), "Encode: wrong byte")
		sym.Assert(df.Encode(nil) == nil, "Encode back: error")
	} else {
		sym.Assert(df.Encode(nil) == nil, "Encode to UTF-8: error")
		sym.Assert(df.Strings("s").Get(0) == string(utf8.AppendRune(nil, rune(r))), "Encode to UTF-8: wrong character")
		sym.Assert(df.Encode(charmap.ISO8859_1) == nil, "Encode back: error")
	}
	sym.Assert(df.Strings("s").Get(0) == keep, "Encode back: another string")
}

// E01_Later: what is stored after Encode is in the encoding it recorded.
// bound: frames of 0..2 rows with no string column or one, encoded to ISO 8859-1, then a string column of arbitrary letters U+00BE to U+00C1 added in that encoding, then encoded back to UTF-8; through the frame or a view of it
// cover: none one
func E01_Later() {
	n := sym.Choose("n", 3)
	m := &mdl{cols: map[string]*col{"i1": {k: kI, i: iota_(n)}, "o1": {k: kO, o: make([]interface{}, n)}}, idx: iota_(n)}
	if sym.Choose("strings", 2) == 1 {
		m.cols["s1"] = &col{k: kS, o: make([]interface{}, n)}
		sym.Cover("one")
	} else {
		sym.Cover("none")
	}
	df := m.build()
	if sym.Choose("view", 2) == 1 {
		df = df.View()
	}
	sym.Assert(df.Encode(charmap.ISO8859_1) == nil, "Encode: error")
	xs := make([]string, n)
	u := make([]interface{}, n)
	for r := range xs {
		b := sym.IntRange("letter", 0xbe, 0xc1)
		xs[r], u[r] = "e"+string([]byte{byte(b)}), "e"+string(utf8.AppendRune(nil, rune(b)))
	}
	df.OverwriteStrings("s2", xs)
	sym.Assert(df.Encode(nil) == nil, "Encode back: error")
	m.cols["s2"] = &col{k: kS, o: u}
	m.check(df, "frame after storing strings and encoding back")
	observe(df, "r")
}

// E01_Long: longer strings and taller frames.
// bound: 1 row with a string of 4, 17, 64 or 300 letters, or 60 rows of 4 to 9, where one letter (first, middle or last; in the first, a middle or the last row) is one of U+00BE to U+00C1 (arbitrary) or is not representable, all others ASCII; to ISO 8859-1 and back, frame as is or reversed
// cover: encoded refused
func E01_Long() {
	size, n := []int{4, 17, 64, 300, 9}[sym.Choose("size", 5)], 1
	row := 0
	if size == 9 {
		n = 60
		row = []int{0, 31, 59}[sym.Choose("row", 3)]
	}
	at := []int{0, size / 2, size - 1}[sym.Choose("at", 3)]
	bad := sym.Choose("bad", 2) == 1
	u, l := &col{k: kS}, &col{k: kS}
	for r := 0; r < n; r++ {
		s := ""
		for i := 0; i < size-r%6*(n/60); i++ {
			s += string([]byte{byte('a' + (i+r)%26)})
		}
		utf, latin := s, s
		if r == row {
			if at >= len(s) {
				at = len(s) - 1
			}
			x, y := "\u0416", "?"
			if !bad {
				b := sym.IntRange("letter", 0xbe, 0xc1)
				x, y = string(utf8.AppendRune(nil, rune(b))), string([]byte{byte(b)})
			}
			utf, latin = s[:at]+x+s[at+1:], s[:at]+y+s[at+1:]
		}
		u.o, l.o = append(u.o, utf), append(l.o, latin)
	}
	um, lm := &mdl{cols: map[string]*col{"s": u}, idx: iota_(n)}, &mdl{cols: map[string]*col{"s": l}, idx: iota_(n)}
	df := um.freeze().build()
	if sym.Choose("reversed", 2) == 1 {
		df, um, lm = df.ReverseView(), um.pick(rev(n)), lm.pick(rev(n))
	}
	err := df.Encode(charmap.ISO8859_1)
	sym.Assert((err != nil) == bad, "Encode: error exactly for what ISO 8859-1 lacks")
	if bad {
		um.check(df, "frame after a refused Encode")
		sym.Cover("refused")
		return
	}
	lm.check(df, "frame after Encode")
	sym.Assert(df.Encode(nil) == nil, "Encode back: error")
	um.check(df, "frame after encoding back")
	sym.Cover("encoded")
}
