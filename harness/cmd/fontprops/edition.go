package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// edition is the content of an edition data file.
type edition struct {
	id      uint64
	cats    []string
	sizes   []int
	classes []string
	values  []int8
	pairs   [2][]classPair // horizontal, vertical
	names   []string       // condition names
}

type classPair struct {
	a, b  uint16
	class uint16
}

func (e *edition) encode() (raw []byte, marks []int) {
	mark := func() { marks = append(marks, len(raw)) }
	u16 := func(v int) { raw = binary.LittleEndian.AppendUint16(raw, uint16(v)) }
	str := func(s string) { raw = append(append(raw, byte(len(s))), s...) }
	mark()
	raw = binary.LittleEndian.AppendUint64(raw, e.id)
	mark()
	raw = append(raw, byte(len(e.cats)))
	for _, c := range e.cats {
		str(c)
	}
	for _, s := range e.sizes {
		u16(s)
	}
	mark()
	u16(len(e.classes))
	for _, c := range e.classes {
		str(c)
	}
	for _, v := range e.values {
		raw = append(raw, byte(v))
	}
	for _, ps := range e.pairs {
		mark()
		raw = append(raw, byte(len(ps)), byte(len(ps)>>8), byte(len(ps)>>16))
		for _, p := range ps {
			u16(int(p.a))
			u16(int(p.b))
			mark()
			u16(int(p.class))
		}
	}
	mark()
	raw = append(raw, byte(len(e.names)))
	for _, c := range e.names {
		str(c)
	}
	return raw, marks
}

type verdict int

const (
	wellFormed verdict = iota
	malformed
	unspecified
)

// spacedName judges a name: letters, digits, hyphens and spaces. Details that
// the specification leaves open are not judged.
func spacedName(s string, max int) verdict {
	v := wellFormed
	if s == "" || len(s) > 60 {
		return malformed
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case c >= '0' && c <= '9', c == ' ', c == '-':
			if i == 0 || i == len(s)-1 || (c == '-' && s[i-1] == '-') {
				v = unspecified
			}
		default:
			return malformed
		}
	}
	if len(s) > 32 {
		if max > 32 {
			return unspecified
		}
		return malformed
	}
	return v
}

// decodeEdition is the reference parser, for a font without conditions.
func decodeEdition(raw []byte, id uint64, numGlyphs int) (*edition, verdict) {
	e := &edition{}
	v := wellFormed
	at := 0
	bad := false
	take := func(n int) []byte {
		if bad || at+n > len(raw) {
			bad = true
			return make([]byte, n)
		}
		at += n
		return raw[at-n : at]
	}
	u8 := func() int { return int(take(1)[0]) }
	u16 := func() int { return int(binary.LittleEndian.Uint16(take(2))) }
	judge := func(w verdict) {
		if w == malformed {
			bad = true
		} else if w == unspecified {
			v = unspecified
		}
	}
	e.id = binary.LittleEndian.Uint64(take(8))
	n := u8()
	sum := 0
	for i := 0; i < n && !bad; i++ {
		s := string(take(u8()))
		judge(spacedName(s, 60))
		e.cats = append(e.cats, s)
	}
	for i := 0; i < n; i++ {
		e.sizes = append(e.sizes, u16())
		sum += e.sizes[i]
	}
	if n > 0 && sum != numGlyphs {
		judge(unspecified) // the format asks for it, parsing doesn't have to check it
	}
	n = u16()
	for i := 0; i < n && !bad; i++ {
		s := string(take(u8()))
		judge(spacedName(s, 32))
		e.classes = append(e.classes, s)
	}
	for i := 0; i < n && !bad; i++ {
		e.values = append(e.values, int8(u8()))
	}
	for k := range e.pairs {
		c := take(3)
		n := int(c[0]) | int(c[1])<<8 | int(c[2])<<16
		seen := map[[2]uint16]bool{}
		for i := 0; i < n && !bad; i++ {
			p := classPair{uint16(u16()), uint16(u16()), uint16(u16())}
			if int(p.a) >= numGlyphs || int(p.b) >= numGlyphs || p.class == 0 || int(p.class) > len(e.classes) {
				bad = true
			}
			key := [2]uint16{p.a, p.b}
			if seen[key] {
				judge(unspecified)
			}
			seen[key] = true
			e.pairs[k] = append(e.pairs[k], p)
		}
	}
	if u8() != 0 || at != len(raw) || e.id != id {
		bad = true
	}
	if bad {
		return nil, malformed
	}
	return e, v
}

func genEdition(t *pbt.T, id uint64, numGlyphs int) *edition {
	e := &edition{id: id}
	if t.Bool() {
		left := numGlyphs
		n := t.Size(1, 5)
		if t.Prob(2) {
			n = pbt.Pick(t, []int{255, 254, t.Int(100, 255)})
		}
		for ; n > 0; n-- {
			e.cats = append(e.cats, fm.GenBasicName(t))
			s := t.Int(0, left)
			if n == 1 {
				s = left
			}
			left -= s
			e.sizes = append(e.sizes, s)
		}
	}
	n := t.Size(0, 8)
	if t.Prob(3) {
		n = t.Int(250, 300)
	}
	for i := 0; i < n; i++ {
		name := fm.GenBasicName(t)
		if len(name) < 25 && t.Prob(30) {
			name += " " + fmt.Sprint(i)
		}
		e.classes = append(e.classes, name)
		e.values = append(e.values, int8(t.Byte()))
	}
	var p fm.Prng
	if t.Choice(999) >= 999 { // tens of thousands of classes
		p = fm.NewPrng(t)
		n = pbt.Pick(t, []int{65535, t.Int(30000, 65535)})
		for i := len(e.classes); i < n; i++ {
			e.classes = append(e.classes, "c"+fmt.Sprint(i))
			e.values = append(e.values, int8(p.Next()))
		}
		t.Label("tens of thousands of classes")
	}
	if n == 0 {
		return e
	}
	if numGlyphs > 250 && t.Prob(5) { // and of pairs
		p = fm.NewPrng(t)
		c := pbt.Pick(t, []int{65535, 65536, t.Int(30000, 70000)})
		k := t.Int(0, 1)
		seen := map[[2]uint16]bool{}
		for ; c > 0 && len(seen) < numGlyphs*numGlyphs; c-- {
			for {
				q := classPair{uint16(p.N(numGlyphs)), uint16(p.N(numGlyphs)), uint16(1 + p.N(n))}
				if key := [2]uint16{q.a, q.b}; !seen[key] {
					seen[key] = true
					e.pairs[k] = append(e.pairs[k], q)
					break
				}
			}
		}
		if len(seen) > 30000 {
			t.Label("tens of thousands of pairs")
		}
		return e
	}
	for k := range e.pairs {
		seen := map[[2]uint16]bool{}
		c := t.Size(0, 12)
		if t.Prob(2) {
			c = t.Int(200, 400)
		}
		for ; c > 0; c-- {
			p := classPair{uint16(t.Int(0, numGlyphs-1)), uint16(t.Int(0, numGlyphs-1)), uint16(t.Int(1, n))}
			if key := [2]uint16{p.a, p.b}; !seen[key] {
				seen[key] = true
				e.pairs[k] = append(e.pairs[k], p)
			}
		}
	}
	return e
}

// round adds classes so that the data ends at a multiple of a reader's buffer
// sizes, or right next to it.
func (e *edition) round(t *pbt.T) {
	if len(e.classes) > 30000 {
		return
	}
	raw, _ := e.encode()
	unit := pbt.Pick(t, []int{1024, 32768, 32768})
	add := unit - len(raw)%unit + pbt.Pick(t, []int{0, 0, 0, -1, 1})
	if add < 3 {
		add += unit
	}
	for add > 0 {
		n := min(add, 34)
		if add != n && add-n < 3 {
			n -= 3
		}
		add -= n
		e.classes = append(e.classes, strings.Repeat("r", n-2))
		e.values = append(e.values, int8(n))
	}
	t.Label("round size")
}

// damageEdition changes the raw data.
func damageEdition(t *pbt.T, raw []byte, marks []int) []byte {
	raw = append([]byte(nil), raw...)
	for n := t.Int(1, 2); n > 0 && len(raw) > 0; n-- {
		at := t.Int(0, len(raw)-1)
		if t.Prob(75) {
			at = min(len(raw)-1, pbt.Pick(t, marks)+t.Size(0, 8))
		}
		switch t.Weighted(4, 3, 2, 2, 1, 1) {
		case 0:
			raw[at] = pbt.Pick(t, []byte{0, 1, 2, 127, 255})
		case 1:
			raw[at] += byte(t.Int(1, 2)*2 - 3)
		case 2:
			raw[at] = t.Byte()
		case 3:
			raw = raw[:at]
		case 4:
			c := min(len(raw)-at, t.Size(1, 6))
			raw = append(raw[:at], raw[at+c:]...)
		case 5:
			raw = append(raw, make([]byte, t.Size(1, 9))...)
		}
	}
	return raw
}

func init() {
	register(&pbt.Prop{
		ID: "P25", Quick: 25000, Deep: 900000,
		Rule: "histories on a builder: loading well-formed edition data, damaged data (judged by a reference parser), damaged streams and failing readers, clearing, setting plain kerning pairs and adding glyphs; the kernings of built fonts are compared with a model after the steps. Non-trivial: at least one load succeeded with pairs and one later step changed them",
		Body: func(t *pbt.T) {
			m := fm.GenFont(t, fm.Opt{Builder: true})
			m.M.Vert = true
			if m.M.VertLineWidth == 0 {
				m.M.VertLineWidth = 1
			}
			if big := t.Choice(9999); big >= 9250 {
				n := t.Int(20, 270)
				if big >= 9850 {
					n = t.Int(250, 700)
				}
				if big >= 9985 {
					n = t.Int(32000, 40000)
				}
				for i := len(m.Glyphs); i < n; i++ {
					m.Glyphs = append(m.Glyphs, fm.Glyph{Mask: m.Glyphs[0].Mask, Placement: m.Glyphs[0].Placement})
				}
				t.LabelIf(n > 700, "tens of thousands of glyphs")
			}
			b := fm.ViaBuilder(t, m)
			var cur *edition // nil after clearing
			plain := map[[2]uint16]int8{}
			for _, k := range m.HorzKern {
				plain[[2]uint16{k.A, k.B}] = k.V
			}
			classes := [2]map[[2]uint16]uint16{{}, {}}
			expect := func(k int, key [2]uint16) int8 {
				if c := classes[k][key]; c != 0 {
					return cur.values[c-1]
				}
				if k == 0 {
					return plain[key]
				}
				return 0
			}
			check := func() {
				f := b.Build(t)
				kern := f.Kerning()
				n := len(b.UIDs)
				probe := func(k int, key [2]uint16) {
					get, name := kern.Get, "Get"
					if k == 1 {
						get, name = kern.GetVert, "GetVert"
					}
					var got int8
					t.NoPanic("Kerning."+name, func() { got = get(ggfnt.GlyphIndex(key[0]), ggfnt.GlyphIndex(key[1])) })
					if want := expect(k, key); got != want {
						t.Fatalf("Kerning.%s(%d, %d) = %d, want %d", name, key[0], key[1], got, want)
					}
				}
				counts := [2]int{}
				for k := range classes {
					all := map[[2]uint16]bool{}
					for key := range classes[k] {
						all[key] = true
					}
					if k == 0 {
						for key := range plain {
							all[key] = true
						}
					}
					counts[k] = len(all)
					for key := range all {
						probe(k, key)
						probe(1-k, key)
					}
					for i := 0; i < 5; i++ {
						probe(k, [2]uint16{uint16(t.Int(0, n-1)), uint16(t.Int(0, n-1))})
					}
				}
				if int(kern.NumPairs()) != counts[0] || int(kern.NumVertPairs()) != counts[1] {
					t.Fatalf("%d horizontal and %d vertical pairs, want %d and %d", kern.NumPairs(), kern.NumVertPairs(), counts[0], counts[1])
				}
				fm.MustParse(t, fm.Export(t, f))
			}
			clearModel := func() {
				cur = nil
				classes = [2]map[[2]uint16]uint16{{}, {}}
			}
			load := func(r io.Reader, e *edition, v verdict, what string) {
				var err error
				t.NoPanic("ParseEditionData", func() { err = b.B.ParseEditionData(r) })
				t.Logf("ParseEditionData(%s): %v", what, err)
				if v == unspecified {
					v = wellFormed
					if err != nil {
						v = malformed
					}
					t.Label("unspecified")
				}
				if (err == nil) != (v == wellFormed) {
					t.Fatalf("ParseEditionData of %s: error %v", what, err)
				}
				clearModel()
				if err == nil {
					cur = e
					for k, ps := range e.pairs {
						for _, p := range ps {
							classes[k][[2]uint16{p.a, p.b}] = p.class
						}
					}
				}
			}
			loaded, changed := false, false
			for steps := t.Int(1, 8); steps > 0; steps-- {
				n := len(b.UIDs)
				changed = changed || loaded
				e := genEdition(t, m.ID, n)
				op := t.Weighted(4, 4, 2, 2, 3, 1)
				if pct := []int{2, 0, 15, 0, 0, 0}[op]; t.Prob(pct) {
					e.round(t)
				}
				switch op {
				case 0: // good data
					raw, _ := e.encode()
					load(fm.GenReader(t, fm.WrapSig("wkgfnt", raw, t.Int(0, 9))), e, wellFormed, fmt.Sprintf("%d classes, %d and %d pairs", len(e.classes), len(e.pairs[0]), len(e.pairs[1])))
					loaded = loaded || len(e.pairs[0])+len(e.pairs[1]) > 0
					t.Label("good data")
				case 1: // damaged data
					switch t.Weighted(5, 1, 1, 2, 1, 1, 1) {
					case 1:
						e.id ^= 1 << t.Int(0, 63)
					case 2:
						e.names = append(e.names, fm.GenBasicName(t))
					case 3: // bad names, most likely the last ones
						bad := pbt.Pick(t, []string{"", "a_b", "é", "x\x00", "tab\t", strings.Repeat("n", 61), "a.b", "\x80"})
						if t.Prob(70) { // a good one but for a byte
							long := t.Prob(60)
							n := t.Int(1, 32)
							if long {
								n = t.Int(30, 33)
							}
							name := []byte(fm.GenBasicName(t))
							for len(name) < n {
								name = append(name, byte(t.Int('a', 'z')))
							}
							at := pbt.Pick(t, []int{0, len(name) - 1, t.Int(0, len(name)-1)})
							name[at] = pbt.Pick(t, []byte{'_', '.', '/', ':', '@', '[', '`', '{', 0, 31, 127, 128, 255, ',', '+', byte(t.Int(0, 255))})
							bad = string(name)
						}
						if len(e.classes) > 0 && t.Prob(80) {
							e.classes[pbt.Pick(t, []int{len(e.classes) - 1, t.Int(0, len(e.classes)-1)})] = bad
						} else if len(e.cats) > 0 {
							e.cats[pbt.Pick(t, []int{len(e.cats) - 1, t.Int(0, len(e.cats)-1)})] = bad
						} else {
							e.cats, e.sizes = []string{bad}, []int{n}
						}
					case 4: // undefined glyphs
						for k := range e.pairs {
							if c := len(e.pairs[k]); c > 0 {
								p := &e.pairs[k][c-1]
								if t.Bool() {
									p.a = uint16(n + t.Size(0, 60000-n))
								} else {
									p.b = uint16(n + t.Size(0, 60000-n))
								}
							}
						}
					case 5: // undefined classes
						for k := range e.pairs {
							if c := len(e.pairs[k]); c > 0 && t.Bool() {
								e.pairs[k][c-1].class = pbt.Pick(t, []uint16{0, uint16(len(e.classes) + 1), 65535})
							}
						}
					case 6: // repeated pairs
						for k := range e.pairs {
							if c := len(e.pairs[k]); c > 0 && t.Bool() {
								p := e.pairs[k][0]
								p.class = uint16(t.Int(1, len(e.classes)))
								e.pairs[k] = append(e.pairs[k], p)
							}
						}
					}
					raw, marks := e.encode()
					if t.Bool() {
						raw = damageEdition(t, raw, marks)
					}
					ref, v := decodeEdition(raw, m.ID, n)
					t.LabelIf(v == malformed, "damaged data, malformed")
					t.LabelIf(v == wellFormed, "damaged data, well-formed")
					load(fm.GenReader(t, fm.WrapSig("wkgfnt", raw, -1)), ref, v, fmt.Sprintf("damaged data %.4000x", raw))
				case 2: // damaged streams
					raw, _ := e.encode()
					file := fm.WrapSig("wkgfnt", raw, -1)
					r := &fm.Reader{Data: file}
					what := ""
					switch t.Int(0, 5) {
					case 0:
						at := t.Int(0, len(file)-1)
						r.Data, what = file[:at], fmt.Sprintf("%d of %d bytes", at, len(file))
					case 1:
						r.Err, r.ErrAt = errors.New("unreadable"), t.Int(0, len(file)-1)
						what = fmt.Sprintf("reader failing at %d of %d", r.ErrAt, len(file))
					case 2:
						at := t.Int(0, 5)
						file[at] ^= 1 << t.Int(0, 7)
						what = "wrong signature"
					case 3:
						at := len(file) - 1 - t.Int(0, 7)
						file[at] ^= 1 << t.Int(0, 7)
						what = "wrong checksum"
					case 4:
						r.Data, what = fm.Wrap(raw), "font signature"
					case 5:
						r.Data, what = append([]byte("wkgfnt"), raw...), "uncompressed data"
					}
					t.Label("damaged stream")
					load(r, nil, malformed, what)
				case 3:
					t.Logf("ClearEditionData")
					t.NoPanic("ClearEditionData", func() { b.B.ClearEditionData() })
					clearModel()
					t.Label("clear")
				case 4: // plain pairs, often those with classes
					key := [2]uint16{uint16(t.Int(0, n-1)), uint16(t.Int(0, n-1))}
					if cur != nil && len(cur.pairs[0]) > 0 && t.Prob(70) {
						p := pbt.Pick(t, cur.pairs[0])
						key = [2]uint16{p.a, p.b}
					}
					v := int8(t.Byte())
					if t.Prob(30) {
						v = 0
					}
					t.Logf("SetKerningPair(%d, %d, %d)", key[0], key[1], v)
					b.B.SetKerningPair(b.UIDs[key[0]], b.UIDs[key[1]], v)
					delete(classes[0], key)
					delete(plain, key)
					if v != 0 {
						plain[key] = v
					}
				case 5:
					uid, err := b.B.AddGlyph(fm.CloneMask(m.Glyphs[0].Mask))
					if err != nil {
						t.Discard()
					}
					b.UIDs = append(b.UIDs, uid)
				}
				if t.Prob(70) {
					check()
				}
			}
			check()
			t.NontrivialIf(loaded && changed)
		},
	})
}
