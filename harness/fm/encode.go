package fm

import (
	"bytes"
	"compress/gzip"
	"image"
	"sort"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// FormatVersion as written by the library at this commit (the specification
// text still says 1, the code only accepts its own constant).
const FormatVersion = ggfnt.FormatVersion

func u16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
func u24(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func u32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func u64(b []byte, v uint64) []byte { return u32(u32(b, uint32(v)), uint32(v>>32)) }

// EncodeMask writes raster operations for the mask, by rows of runs. The
// style choices vary the operations used.
func EncodeMask(t *pbt.T, out []byte, mask *image.Alpha) []byte {
	if mask == nil {
		return out
	}
	type run struct {
		x, y, n int
		v       uint8
	}
	var runs []run
	b := mask.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; {
			v := mask.AlphaAt(x, y).A
			if v == 0 {
				x++
				continue
			}
			n := 1
			for x+n < b.Max.X && n < 256 && mask.AlphaAt(x+n, y).A == v {
				n++
			}
			runs = append(runs, run{x, y, n, v})
			x += n
		}
	}
	nz := func(d int) byte {
		if d < 0 {
			return byte(int8(d))
		}
		return byte(d - 1)
	}
	px, py, pv := 0, 0, uint8(255)
	for _, r := range runs {
		for { // long moves: operations that only move
			dx, dy := r.x-px, r.y-py
			if dx >= -128 && dx <= 128 && dy >= -128 && dy <= 128 {
				break
			}
			dx = max(-128, min(128, dx))
			dy = max(-128, min(128, dy))
			var ctrl byte
			var data []byte
			if dx != 0 {
				ctrl |= 2
				data = append(data, nz(dx))
			}
			if dy != 0 {
				ctrl |= 4
				data = append(data, nz(dy))
			}
			out = append(append(out, ctrl), data...)
			px, py = px+dx, py+dy
		}
		var ctrl byte
		var data []byte
		if r.v != pv || (t != nil && t.Prob(3)) {
			ctrl |= 1
			data = append(data, r.v)
			pv = r.v
		}
		if dx := r.x - px; dx != 0 {
			ctrl |= 2
			data = append(data, nz(dx))
		}
		if dy := r.y - py; dy == 1 && (t == nil || !t.Prob(20)) {
			ctrl |= 8
		} else if dy != 0 {
			ctrl |= 4
			data = append(data, nz(dy))
		}
		if r.n == 1 && (t == nil || !t.Prob(20)) {
			ctrl |= 0x80
		} else {
			ctrl |= 0x20
			data = append(data, byte(r.n-1))
		}
		out = append(append(out, ctrl), data...)
		px, py = r.x+r.n, r.y
	}
	return out
}

// encodeBlock writes one rule block as fragments. With t, fragments are
// sometimes split more finely than necessary.
func encodeBlock(t *pbt.T, out []byte, elems []Elem, wide bool) []byte {
	if len(elems) == 0 {
		return append(out, 0)
	}
	for i := 0; i < len(elems); {
		limit := 15
		if t != nil && t.Prob(10) {
			limit = t.Int(1, 15)
		}
		nSets, nVals := 0, 0
		j := i
		for j < len(elems) && elems[j].IsSet && nSets < limit {
			nSets++
			j++
		}
		for j < len(elems) && !elems[j].IsSet && nVals < limit {
			nVals++
			j++
		}
		out = append(out, byte(nSets<<4|nVals))
		for ; i < j; i++ {
			if elems[i].IsSet {
				out = append(out, byte(elems[i].V))
			} else if wide {
				out = u32(out, elems[i].V)
			} else {
				out = u16(out, int(elems[i].V))
			}
		}
	}
	return out
}

// EncodeRule writes a rule; wide selects code point (utf8) encoding.
func EncodeRule(t *pbt.T, out []byte, r *Rule, wide bool) []byte {
	out = append(out, r.Cond, byte(len(r.Head)), byte(len(r.Body)), byte(len(r.Tail)), byte(len(r.Out)))
	for _, v := range r.Out {
		if wide {
			out = u32(out, v)
		} else {
			out = u16(out, int(v))
		}
	}
	for _, blk := range [][]Elem{r.Head, r.Body, r.Tail} {
		out = encodeBlock(t, out, blk, wide)
	}
	return out
}

func encodeSet(out []byte, s *Set, wide bool) []byte {
	out = append(out, byte(len(s.Ranges)))
	for _, r := range s.Ranges {
		if wide {
			out = u32(out, r[0])
		} else {
			out = u16(out, int(r[0]))
		}
		out = append(out, byte(r[1]-r[0]))
	}
	out = append(out, byte(len(s.List)))
	for _, v := range s.List {
		if wide {
			out = u32(out, v)
		} else {
			out = u16(out, int(v))
		}
	}
	return out
}

// Section marks the start of a section in the raw data.
type Section struct {
	Name string
	At   int
}

// Encode writes the uncompressed font data described by the model, following
// specification.md. t (optional) varies free encoding choices.
func Encode(t *pbt.T, m *Font) ([]byte, []Section) {
	var d []byte
	var secs []Section
	mark := func(name string) { secs = append(secs, Section{name, len(d)}) }

	mark("header")
	d = u32(d, FormatVersion)
	d = u64(d, m.ID)
	d = u16(d, int(m.VMajor))
	d = u16(d, int(m.VMinor))
	for _, dt := range m.Dates {
		d = append(u16(d, int(dt.Year)), dt.Month, dt.Day)
	}
	for _, s := range []string{m.Name, m.Family, m.Author} {
		d = append(append(d, byte(len(s))), s...)
	}
	d = append(u16(d, len(m.About)), m.About...)

	mark("metrics")
	d = u16(d, len(m.Glyphs))
	vert := byte(0)
	if m.M.Vert {
		vert = 1
	}
	d = append(d, vert, m.M.MonoWidth, m.M.Ascent, m.M.ExtraAscent, m.M.Descent, m.M.ExtraDescent,
		m.M.UppercaseAscent, m.M.MidlineAscent, m.M.HorzInterspacing, m.M.VertInterspacing,
		m.M.LineGap, m.M.VertLineWidth, m.M.VertLineGap)

	mark("dyes")
	d = append(d, byte(len(m.Dyes)))
	n := 0
	for _, dye := range m.Dyes {
		n += len(dye.Alphas)
		d = append(d, byte(n))
	}
	for _, dye := range m.Dyes {
		d = append(d, dye.Alphas...)
	}
	n = 0
	for _, dye := range m.Dyes {
		n += len(dye.Name)
		d = u16(d, n)
	}
	for _, dye := range m.Dyes {
		d = append(d, dye.Name...)
	}
	mark("palettes")
	d = append(d, byte(len(m.Palettes)))
	n = 0
	for _, p := range m.Palettes {
		n += len(p.Colors)
		d = append(d, byte(n))
	}
	for _, p := range m.Palettes {
		for _, c := range p.Colors {
			d = append(d, c.R, c.G, c.B, c.A)
		}
	}
	n = 0
	for _, p := range m.Palettes {
		n += len(p.Name)
		d = u16(d, n)
	}
	for _, p := range m.Palettes {
		d = append(d, p.Name...)
	}

	mark("glyphnames")
	var named []int
	for i := range m.Glyphs {
		if m.Glyphs[i].Name != "" {
			named = append(named, i)
		}
	}
	sort.Slice(named, func(a, b int) bool { return m.Glyphs[named[a]].Name < m.Glyphs[named[b]].Name })
	d = u16(d, len(named))
	for _, g := range named {
		d = u16(d, g)
	}
	n = 0
	for _, g := range named {
		n += len(m.Glyphs[g].Name)
		d = u24(d, n)
	}
	for _, g := range named {
		d = append(d, m.Glyphs[g].Name...)
	}

	mark("glyphs")
	var blob []byte
	shared := map[*image.Alpha][]byte{}
	for i := range m.Glyphs {
		p := m.Glyphs[i].Placement
		blob = append(blob, p.Advance)
		if m.M.Vert {
			blob = append(blob, p.TopAdvance, p.BottomAdvance, p.HorzCenter)
		}
		if mask := m.Glyphs[i].Mask; len(m.Glyphs) < 2000 {
			blob = EncodeMask(t, blob, mask)
		} else { // big fonts share masks
			enc, done := shared[mask]
			if !done {
				enc = EncodeMask(t, nil, mask)
				shared[mask] = enc
			}
			blob = append(blob, enc...)
		}
		d = u24(d, len(blob))
	}
	d = append(d, blob...)

	mark("words")
	d = append(d, byte(len(m.CustomWords)))
	n = 0
	for _, w := range m.CustomWords {
		n += len(w)
		d = u16(d, n)
	}
	for _, w := range m.CustomWords {
		d = append(d, w...)
	}
	mark("settings")
	d = append(d, byte(len(m.Settings)))
	n = 0
	for _, s := range m.Settings {
		n += len(s.Name)
		d = u16(d, n)
	}
	for _, s := range m.Settings {
		d = append(d, s.Name...)
	}
	n = 0
	for _, s := range m.Settings {
		n += len(s.Options)
		d = u16(d, n)
	}
	for _, s := range m.Settings {
		for _, o := range s.Options {
			d = append(d, m.wordIndex(o))
		}
	}

	mark("switches")
	d = append(d, byte(len(m.Switches)))
	n = 0
	for _, s := range m.Switches {
		n += len(s)
		d = u16(d, n)
	}
	for _, s := range m.Switches {
		d = append(d, s...)
	}
	mark("mapping")
	d = u16(d, len(m.Mappings))
	for _, mp := range m.Mappings {
		d = u32(d, uint32(mp.Rune))
	}
	blob = blob[:0]
	for i := range m.Mappings {
		mp := &m.Mappings[i]
		blob = append(blob, mp.Kind)
		if mp.Kind == 255 {
			blob = u16(blob, int(mp.Cases[0].Glyphs[0]))
		} else {
			for _, g := range mp.Cases {
				blob = encodeGroup(blob, &g)
			}
		}
		d = u24(d, len(blob))
	}
	d = append(d, blob...)

	mark("conditions")
	d = append(d, byte(len(m.Conditions)))
	blob = blob[:0]
	for _, c := range m.Conditions {
		blob = c.Encode(blob)
		d = u16(d, len(blob))
	}
	d = append(d, blob...)
	mark("utf8sets")
	d = append(d, byte(len(m.RuneSets)))
	blob = blob[:0]
	for i := range m.RuneSets {
		blob = encodeSet(blob, &m.RuneSets[i], true)
		d = u16(d, len(blob))
	}
	d = append(d, blob...)
	mark("glyphsets")
	d = append(d, byte(len(m.GlyphSets)))
	blob = blob[:0]
	for i := range m.GlyphSets {
		blob = encodeSet(blob, &m.GlyphSets[i], false)
		d = u16(d, len(blob))
	}
	d = append(d, blob...)
	mark("utf8rules")
	d = u16(d, len(m.Utf8Rules))
	blob = blob[:0]
	for i := range m.Utf8Rules {
		blob = EncodeRule(t, blob, &m.Utf8Rules[i], true)
		d = u24(d, len(blob))
	}
	d = append(d, blob...)
	mark("glyphrules")
	d = u16(d, len(m.GlyphRules))
	blob = blob[:0]
	for i := range m.GlyphRules {
		blob = EncodeRule(t, blob, &m.GlyphRules[i], false)
		d = u24(d, len(blob))
	}
	d = append(d, blob...)

	for i, kerns := range [][]Kern{m.HorzKern, m.VertKern} {
		if i == 0 {
			mark("horzkern")
		} else {
			mark("vertkern")
		}
		ks := append([]Kern{}, kerns...)
		sort.Slice(ks, func(a, b int) bool {
			return uint32(ks[a].A)<<16|uint32(ks[a].B) < uint32(ks[b].A)<<16|uint32(ks[b].B)
		})
		d = u24(d, len(ks))
		for _, k := range ks {
			d = u32(d, uint32(k.A)<<16|uint32(k.B))
		}
		for _, k := range ks {
			d = append(d, byte(k.V))
		}
	}
	mark("end")
	return d, secs
}

func encodeGroup(b []byte, g *Group) []byte {
	size := byte(len(g.Glyphs) - 1)
	if g.Range {
		size |= 0x80
	}
	b = append(b, size)
	if len(g.Glyphs) > 1 {
		b = append(b, byte(g.Flags))
	}
	if g.Range {
		return u16(b, int(g.Glyphs[0]))
	}
	for _, v := range g.Glyphs {
		b = u16(b, int(v))
	}
	return b
}

// wordIndex returns the option byte for a word: custom words first, then
// predefined words not overridden by the custom table.
func (m *Font) wordIndex(w string) byte {
	for i, c := range m.CustomWords {
		if c == w {
			return byte(i)
		}
	}
	for i := len(m.CustomWords); i < 255; i++ {
		if ggfnt.GetPredefinedWord(uint8(i)) == w {
			return byte(i)
		}
	}
	panic("word not encodable: " + w)
}

// Wrap compresses raw font data into a .ggfnt stream.
func Wrap(raw []byte) []byte { return WrapSig("tggfnt", raw, gzip.DefaultCompression) }

// WrapSig compresses raw data after the given signature.
func WrapSig(sig string, raw []byte, level int) []byte {
	var buf bytes.Buffer
	buf.WriteString(sig)
	w, err := gzip.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	if _, err := w.Write(raw); err != nil {
		panic(err)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// Unwrap returns the raw data of a .ggfnt stream.
func Unwrap(file []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(file[6:]))
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	_, err = out.ReadFrom(r)
	return out.Bytes(), err
}
