package main

import (
	"bytes"
	"compress/gzip"
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// --- fonts at and beyond the limits of the format ---

func le16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
func le24(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }

// ends returns n end offsets adding up to total, as even as possible.
func ends(n, total int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = total * (i + 1) / n
	}
	return out
}

func letters(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return b
}

// A limitKind writes a part of a font at a limit (over = 0) or beyond it.
type limitKind struct {
	name string
	// make returns sections to replace. over > 0 breaks the limit by that
	// much (some kinds only know one way to break it).
	make func(t *pbt.T, m *fm.Font, over int) map[string][]byte
}

// count bytes, end offsets of the given width, data
func table(count, width, n, total int, fill func(n int) []byte) []byte {
	var b []byte
	if count == 1 {
		b = append(b, byte(n))
	} else {
		b = le16(b, n)
	}
	for _, e := range ends(n, total) {
		switch width {
		case 1:
			b = append(b, byte(e))
		case 2:
			b = le16(b, e)
		default:
			b = le24(b, e)
		}
	}
	return append(b, fill(total)...)
}

func zeros(n int) []byte { return make([]byte, n) }

// manyOf draws a number of elements, sometimes tens of thousands if there can
// be over 255 of them.
func manyOf(t *pbt.T, maxN int) int {
	if maxN > 255 && t.Prob(3) {
		return t.Int(maxN, 65535)
	}
	return t.Size(1, maxN)
}

// fewer: a table of n elements whose data has less than min bytes for each.
func fewer(section string, count, width, min, maxN int, fill func(n int) []byte) func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
	return func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := manyOf(t, maxN)
		return map[string][]byte{section: table(count, width, n, max(0, n*min-over), fill)}
	}
}

// more: a table whose data has more than max bytes for each.
func more(section string, count, width, max, maxN int, fill func(n int) []byte) func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
	return func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, maxN)
		return map[string][]byte{section: table(count, width, n, n*max+over, fill)}
	}
}

// colors writes a dye or palette section with n names over total colors.
func colors(n, total, nameBytes, size int) []byte {
	b := []byte{byte(n)}
	if n == 0 {
		return b
	}
	for _, e := range ends(n, total) {
		b = append(b, byte(e))
	}
	b = append(b, zeros(total*size)...)
	for _, e := range ends(n, nameBytes) {
		b = le16(b, e)
	}
	return append(b, letters(nameBytes)...)
}

func kernLimit(section string) func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
	return func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		if len(m.Glyphs) > 400 {
			m.Glyphs = m.Glyphs[:t.Int(250, 400)]
		}
		n := len(m.Glyphs)
		pairs := n*n + over
		b := le24(nil, pairs)
		for i := 0; i < pairs; i++ {
			b = append(b, byte(i%n), byte(i%n>>8), byte(i/n), byte(i/n>>8))
		}
		return map[string][]byte{section: append(b, zeros(pairs)...)}
	}
}

// longRules writes rules with 255 outputs and 255 inputs in blocks of one.
func longRules(section string, size int) func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
	return func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 200)
		rule := append([]byte{255, 0, 255, 0, 255}, zeros(255*size)...)
		rule = append(rule, 0)
		for i := 0; i < 255; i++ {
			rule = append(append(rule, 1), zeros(size)...)
		}
		rule = append(rule, 0)
		b := le16(nil, n)
		total := n * len(rule)
		if over > 0 {
			total = n*(len(rule)+1) + over
		}
		for _, e := range ends(n, total) {
			b = le24(b, e)
		}
		b = append(b, bytes.Repeat(rule, n)...)
		if over > 0 {
			b = append(b, zeros(n+over)...)
		}
		return map[string][]byte{section: b}
	}
}

var limitKinds = []limitKind{
	{"dyes with fewer alphas than dyes", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 120)
		return map[string][]byte{"dyes": colors(n, max(0, n-over), n, 1), "palettes": {0}}
	}},
	{"palettes with fewer colors than palettes", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 120)
		return map[string][]byte{"dyes": {0}, "palettes": colors(n, max(0, n-over), n, 4)}
	}},
	{"dyes without names", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 120)
		return map[string][]byte{"dyes": colors(n, n, max(0, n-over), 1), "palettes": {0}}
	}},
	{"palettes without names", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 120)
		return map[string][]byte{"dyes": {0}, "palettes": colors(n, n, max(0, n-over), 4)}
	}},
	{"more than 255 color indices", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		dyes := t.Int(1, 254)
		if over > 0 {
			dyes = t.Int(max(1, over), 255)
		}
		n := 255 + over - dyes
		nd, np := t.Size(1, dyes), t.Size(1, n)
		return map[string][]byte{"dyes": colors(nd, dyes, nd, 1), "palettes": colors(np, n, np, 4)}
	}},
	{"names longer than 32 bytes each", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, len(m.Glyphs))
		b := le16(nil, n)
		for i := 0; i < n; i++ {
			b = le16(b, i)
		}
		for _, e := range ends(n, n*32+over) {
			b = le24(b, e)
		}
		return map[string][]byte{"glyphnames": append(b, letters(n*32+over)...)}
	}},
	{"more named glyphs than glyphs", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := len(m.Glyphs) + over
		b := le16(nil, n)
		for i := 0; i < n; i++ {
			b = le16(b, i%len(m.Glyphs))
		}
		for i := 1; i <= n; i++ {
			b = le24(b, i*2)
		}
		return map[string][]byte{"glyphnames": append(b, letters(n*2)...)}
	}},
	{"glyphs without placements", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		size := 1
		if m.M.Vert {
			size = 4
		}
		total := max(0, len(m.Glyphs)*size-over)
		var b []byte
		for _, e := range ends(len(m.Glyphs), total) {
			b = le24(b, e)
		}
		return map[string][]byte{"glyphs": append(b, zeros(total)...)}
	}},
	{"empty words", fewer("words", 1, 2, 1, 255, letters)},
	{"words longer than 32 bytes each", more("words", 1, 2, 32, 255, letters)},
	{"empty setting names", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 255)
		b := table(1, 2, n, max(0, n-over), letters)
		return settingDefs(b, n, n)
	}},
	{"setting names longer than 32 bytes each", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 255)
		return settingDefs(table(1, 2, n, n*32+over, letters), n, n)
	}},
	{"settings without options", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 255)
		return settingDefs(table(1, 2, n, n, letters), n, max(0, n-over))
	}},
	{"switches without settings", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := t.Size(1, 254)
		s := settingDefs(table(1, 2, 2, 2, letters), 2, 2)
		s["switches"] = table(1, 2, n, max(0, n-over), zeros)
		return s
	}},
	{"switches with more settings than there are", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n, k := t.Size(1, 254), t.Size(1, 255)
		s := settingDefs(table(1, 2, k, k, letters), k, k)
		s["switches"] = table(1, 2, n, n*k+over, zeros)
		if n*k+over > 65535 {
			t.Discard()
		}
		return s
	}},
	{"more than 254 switches", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := 254
		if over > 0 {
			n = 255
		}
		s := settingDefs(table(1, 2, 1, 1, letters), 1, 1)
		s["switches"] = table(1, 2, n, n, zeros)
		return s
	}},
	{"mappings of less than 3 bytes each", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		n := manyOf(t, 2000)
		total := max(0, n*3-over)
		b := le16(nil, n)
		for i := 0; i < n; i++ {
			b = append(b, byte(i), byte(i>>8), 0, 0)
		}
		for _, e := range ends(n, total) {
			b = le24(b, e)
		}
		for len(b) < 2+n*7+total {
			b = append(b, 255, 0, 0)
		}
		return map[string][]byte{"mapping": b[:2+n*7+total]}
	}},
	{"conditions of less than 2 bytes each", fewer("conditions", 1, 2, 2, 255, zeros)},
	{"utf8 sets of less than 2 bytes each", fewer("utf8sets", 1, 2, 2, 255, zeros)},
	{"glyph sets of less than 2 bytes each", fewer("glyphsets", 1, 2, 2, 255, zeros)},
	{"utf8 rules of less than 8 bytes each", fewer("utf8rules", 2, 3, 8, 2000, zeros)},
	{"glyph rules of less than 8 bytes each", fewer("glyphrules", 2, 3, 8, 2000, zeros)},
	{"utf8 rules longer than any rule", longRules("utf8rules", 4)},
	{"glyph rules longer than any rule", longRules("glyphrules", 2)},
	{"more horizontal kerning pairs than pairs of glyphs", kernLimit("horzkern")},
	{"more vertical kerning pairs than pairs of glyphs", kernLimit("vertkern")},
	{"extra ascent above the ascent", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		m.M.Ascent = byte(t.Int(1, 200))
		m.M.UppercaseAscent, m.M.MidlineAscent = m.M.Ascent, 0
		m.M.ExtraAscent = m.M.Ascent - 1
		if over > 0 {
			m.M.ExtraAscent = byte(min(255, int(m.M.Ascent)+over))
		}
		return nil
	}},
	{"ascent of zero", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		m.M.Ascent, m.M.ExtraAscent, m.M.UppercaseAscent, m.M.MidlineAscent = 1, 0, 0, 0
		if over > 0 {
			m.M.Ascent = 0
		}
		return nil
	}},
	{"vertical interspacing without vertical layout", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		m.M.Vert = over == 0
		m.M.VertInterspacing = byte(t.Int(1, 255))
		m.M.VertLineGap, m.M.VertLineWidth = 0, 0
		return nil
	}},
	{"vertical layout flag", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		m.M.Vert = false
		m.M.VertInterspacing, m.M.VertLineGap, m.M.VertLineWidth = 0, 0, 0
		if over == 0 {
			return nil
		}
		raw, secs := fm.Encode(nil, m)
		b := append([]byte(nil), section(raw, secs, "metrics")...)
		b[2] = byte(t.Int(2, 255))
		return map[string][]byte{"metrics": b}
	}},
	{"empty font name", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		m.Name = "x"
		if over > 0 {
			m.Name = ""
		}
		return nil
	}},
	{"font id without entropy", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		if over > 0 {
			m.ID = []uint64{0, ^uint64(0), 1 << t.Int(0, 63), 3 << t.Int(0, 62)}[t.Int(0, 3)]
		}
		return nil
	}},
	{"format version", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		if over == 0 {
			return nil
		}
		raw, secs := fm.Encode(nil, m)
		b := append([]byte(nil), section(raw, secs, "header")...)
		if t.Bool() {
			b[t.Int(0, 3)] ^= byte(1 << t.Int(0, 7))
		} else {
			b[t.Int(0, 3)] += byte(t.Int(1, 255))
		}
		return map[string][]byte{"header": b}
	}},
	{"no glyphs", func(t *pbt.T, m *fm.Font, over int) map[string][]byte {
		if over == 0 {
			m.Glyphs = m.Glyphs[:1]
		} else {
			m.Glyphs = nil
		}
		return nil
	}},
}

func settingDefs(names []byte, n, options int) map[string][]byte {
	b := names
	for _, e := range ends(n, options) {
		b = le16(b, e)
	}
	return map[string][]byte{"settings": append(b, zeros(options)...)}
}

func section(raw []byte, secs []fm.Section, name string) []byte {
	for i, s := range secs {
		if s.Name == name {
			return raw[s.At:secs[i+1].At]
		}
	}
	panic(name)
}

func init() {
	props = append(props, &pbt.Prop{
		ID: "P29", Quick: 30000, Deep: 2000000,
		Rule: "fonts encoded from the specification with one part taken to a limit of the format (counts, sizes declared by end offsets, metrics, header; 34 kinds in turns), as a consistent font otherwise: exactly at the limit, which must be accepted, and beyond it by one or more, which must be refused. Non-trivial: every case",
		Body: func(t *pbt.T) {
			t.Nontrivial()
			k := limitKinds[t.Turn(len(limitKinds))]
			over := 0
			if t.Weighted(1, 2) == 1 {
				over = 1
				if t.Prob(40) {
					over = t.Size(1, 40)
				}
			}
			m := fm.GenFont(t, fm.Opt{Focus: pbt.Pick(t, []string{"header", "color", "glyphs"})})
			m.Settings, m.Switches, m.CustomWords, m.Conditions = nil, nil, nil, nil
			m.GlyphSets, m.RuneSets, m.GlyphRules, m.Utf8Rules = nil, nil, nil, nil
			m.Mappings, m.HorzKern, m.VertKern = nil, nil, nil
			if len(m.Glyphs) > 60 {
				m.Glyphs = m.Glyphs[:60]
			}
			if n := t.Int(0, 3); n > 0 && n < len(m.Glyphs) {
				m.Glyphs = m.Glyphs[:n]
			}
			if t.Prob(4) { // more glyphs, as copies
				k := t.Size(200, 400)
				if t.Bool() {
					k = t.Size(200, 3000)
				}
				for j := 0; len(m.Glyphs) < k; j++ {
					m.Glyphs = append(m.Glyphs, fm.Glyph{Placement: m.Glyphs[j].Placement, Mask: m.Glyphs[j].Mask})
				}
				t.Label("hundreds of glyphs")
			}
			repl := k.make(t, m, over)
			raw, secs := fm.Encode(nil, m)
			var out []byte
			for i, s := range secs[:len(secs)-1] {
				b, found := repl[s.Name]
				if !found {
					b = raw[s.At:secs[i+1].At]
				}
				out = append(out, b...)
			}
			t.Label(k.name)
			t.Logf("%s, %d beyond the limit, %d bytes: % x", k.name, over, len(out), out[:min(len(out), 1500)])
			file := fm.WrapSig("tggfnt", out, gzip.BestSpeed)
			var f *ggfnt.Font
			var err error
			t.NoPanic("Parse", func() { f, err = ggfnt.Parse(fm.GenReader(t, file)) })
			if over == 0 && err != nil {
				t.Fatalf("Parse refused a font at the limit (%s): %v", k.name, err)
			}
			if over > 0 && err == nil {
				t.Fatalf("Parse accepted a font beyond the limit: %s", k.name)
			}
			if err == nil {
				if got, uerr := fm.Unwrap(fm.Export(t, f)); uerr != nil || !bytes.Equal(got, out) {
					t.Fatalf("the accepted font's data is not the file's (%v)", fmt.Sprint(uerr))
				}
			}
		},
	})
}
