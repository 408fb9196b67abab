package main

import (
	"bytes"
	"errors"
	"fmt"
	"image/color"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// made is a font made from a model one way or the other.
type made struct {
	m       *fm.Font
	f       *ggfnt.Font
	b       *fm.Built // nil when encoded from the specification
	builder bool
	how     string
}

// jumboPermille is how often a section gets tens of thousands of elements.
var jumboPermille = map[string]int{"glyphs": 8, "mapping": 8, "kerning": 5, "rewrites": 8, "settings": 8}

// makeFont generates a model and turns it into a font: built by the builder,
// built and parsed back, or encoded from the specification and parsed.
func makeFont(t *pbt.T, focus string) made {
	how := t.Weighted(2, 3, 5)
	mk := made{builder: how < 2}
	o := fm.Opt{Builder: mk.builder, Focus: focus}
	if pct, can := jumboPermille[focus]; can && t.Choice(999) >= uint64(1000-pct) {
		mk.m = fm.GenFont(t, fm.Opt{Builder: mk.builder, Focus: pbt.Pick(t, []string{"settings", "small"})})
		fm.Jumbo(t, mk.m, o, focus)
		t.Label("tens of thousands of elements")
		t.Nontrivial()
	} else {
		mk.m = fm.GenFont(t, o)
	}
	return finishFont(t, mk, how)
}

func finishFont(t *pbt.T, mk made, how int) made {
	switch how {
	case 0, 1:
		mk.b = fm.ViaBuilder(t, mk.m)
		mk.f = mk.b.Build(t)
		mk.how = "built"
		if how == 1 {
			mk.f = fm.MustParse(t, fm.Export(t, mk.f))
			mk.how = "built, exported and parsed"
		}
	case 2:
		raw, _ := fm.Encode(t, mk.m)
		mk.f = fm.MustParse(t, fm.Wrap(raw))
		mk.how = "encoded from the specification and parsed"
	}
	t.Label(mk.how)
	return mk
}

func describe(t *pbt.T, mk *made) {
	if !t.Verbose() {
		return
	}
	m := mk.m
	t.Logf("font %s: %d glyphs, %d dyes, %d palettes, %d settings, %d switches, %d mappings, %d conditions, %d/%d sets, %d/%d rules, %d/%d kernings, vert=%v mono=%d",
		mk.how, len(m.Glyphs), len(m.Dyes), len(m.Palettes), len(m.Settings), len(m.Switches), len(m.Mappings), len(m.Conditions),
		len(m.RuneSets), len(m.GlyphSets), len(m.Utf8Rules), len(m.GlyphRules), len(m.HorzKern), len(m.VertKern), m.M.Vert, m.M.MonoWidth)
	t.Logf("name len %d family len %d author len %d about len %d", len(m.Name), len(m.Family), len(m.Author), len(m.About))
	clip := func(s string) string {
		if len(s) > 400 {
			return s[:400] + "..."
		}
		return s
	}
	if len(m.Settings) > 0 {
		t.Logf("settings %s switches %v", clip(fmt.Sprintf("%v", m.Settings)), m.Switches)
	}
	if len(m.Mappings) > 0 {
		t.Logf("mappings %s", clip(fmt.Sprintf("%+v", m.Mappings)))
	}
	if len(m.GlyphRules)+len(m.Utf8Rules) > 0 {
		t.Logf("glyph rules %s utf8 rules %s", clip(fmt.Sprintf("%+v", m.GlyphRules)), clip(fmt.Sprintf("%+v", m.Utf8Rules)))
	}
	if len(m.HorzKern)+len(m.VertKern) > 0 {
		t.Logf("kerning %s vert %s", clip(fmt.Sprint(m.HorzKern)), clip(fmt.Sprint(m.VertKern)))
	}
}

// checkAll compares every section of a font with the model.
func checkAll(t *pbt.T, f *ggfnt.Font, m *fm.Font, settings []uint8, viaBuilder bool) {
	fm.CheckHeader(t, f, m)
	fm.CheckMetrics(t, f, m)
	fm.CheckColor(t, f, m)
	fm.CheckGlyphs(t, f, m)
	fm.CheckSettings(t, f, m)
	fm.CheckMapping(t, f, m, settings, viaBuilder)
	fm.CheckRewrites(t, f, m)
	fm.CheckKerning(t, f, m)
	checkConditions(t, f, m, settings)
}

func checkConditions(t *pbt.T, f *ggfnt.Font, m *fm.Font, settings []uint8) {
	for i, c := range m.Conditions {
		var got bool
		t.NoPanic(fmt.Sprintf("EvaluateCondition(%d, %v)", i, settings), func() { got = f.Rewrites().EvaluateCondition(uint8(i), settings) })
		if want := c.Eval(settings); got != want {
			t.Fatalf("EvaluateCondition(%d, %v) = %v, want %v for condition % x", i, settings, got, want, c.Encode(nil))
		}
	}
}

var focuses = []string{"", "header", "color", "glyphs", "settings", "mapping", "conditions", "rewrites", "kerning"}

// failingWriter takes some bytes and then fails.
type failingWriter struct{ room int }

func (w *failingWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.room)
	w.room -= n
	if n < len(p) {
		return n, errors.New("no space left")
	}
	return n, nil
}

func init() {
	register(&pbt.Prop{
		ID: "P01", Quick: 20000, Deep: 900000,
		Rule: "a font model over all sections (one of them at full size) is built through the builder or encoded from the specification, exported and parsed back through a reader with generated piece sizes; all accessor answers, raw sizes and re-exported data are compared. Non-trivial: at least two of glyph masks, settings, mappings, rules, kerning are non-empty",
		Body: func(t *pbt.T) {
			mk := makeFont(t, pbt.Pick(t, focuses))
			describe(t, &mk)
			m := mk.m
			rich := 0
			for _, n := range []int{len(m.Glyphs) - 1, len(m.Settings), len(m.Mappings), len(m.GlyphRules) + len(m.Utf8Rules), len(m.HorzKern) + len(m.VertKern), len(m.Conditions)} {
				if n > 0 {
					rich++
				}
			}
			t.NontrivialIf(rich >= 2)
			settings := fm.GenSettings(t, m)
			probes := fm.Probes(m)
			if err := mk.f.Validate(ggfnt.FmtDefault); err != nil {
				t.Fatalf("font does not validate: %v", err)
			}
			first := fm.Export(t, mk.f)
			back := fm.MustParse(t, first)
			if err := back.Validate(ggfnt.FmtDefault); err != nil {
				t.Fatalf("parsed font does not validate: %v", err)
			}
			if a, b := mk.f.RawSize(), back.RawSize(); a != b {
				t.Fatalf("raw size %d after parsing, was %d", b, a)
			}
			if a, b := fm.Dump(mk.f, settings, probes), fm.Dump(back, settings, probes); a != b {
				t.Fatalf("accessors differ after export and parse: %s", diffLine(a, b))
			}
			for i, n := 0, t.Weighted(2, 2, 1); i < n; i++ { // writers that fail
				w := &failingWriter{room: t.Int(0, len(first)-1)}
				if t.Prob(30) {
					w.room = max(0, len(first)-t.Int(1, 40))
				}
				what := mk.f.Export
				if mk.b != nil && t.Prob(30) {
					what = mk.b.B.Export
				}
				var err error
				t.NoPanic("Export", func() { err = what(w) })
				if err == nil {
					t.Fatalf("Export of %d bytes reported success on a writer that fails after %d", len(first), w.room)
				}
				t.Label("failing writer")
			}
			second := fm.Export(t, back)
			third := fm.Export(t, mk.f)
			ra, ea := fm.Unwrap(first)
			for i, other := range [][]byte{second, third} {
				rb, eb := fm.Unwrap(other)
				if ea != nil || eb != nil {
					t.Fatalf("exported stream is not valid gzip: %v %v", ea, eb)
				}
				if !bytes.Equal(ra, rb) {
					t.Fatalf("re-export %d carries different font data", i)
				}
			}
			if len(ra) != mk.f.RawSize() {
				t.Fatalf("RawSize is %d but the exported data has %d bytes", mk.f.RawSize(), len(ra))
			}
			if string(first[:6]) != "tggfnt" {
				t.Fatalf("exported signature %q", first[:6])
			}
			checkAll(t, back, m, settings, mk.builder)
			if mk.b != nil { // builder.Export writes the same font
				var buf bytes.Buffer
				if err := mk.b.B.Export(&buf); err != nil {
					t.Fatalf("builder Export failed: %v", err)
				}
				rb, err := fm.Unwrap(buf.Bytes())
				if err != nil || !bytes.Equal(ra, rb) {
					t.Fatalf("builder Export wrote different data (err %v)", err)
				}
			}
		},
	})

	register(&pbt.Prop{
		ID: "P02", Quick: 90000, Deep: 8000000,
		Rule: "header strings of every length class, dates, versions and metrics, built or encoded from the specification; every header and metrics accessor compared with the model. Non-trivial: the strings' total length is at least 100 or vertical layout is used",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "header")
			describe(t, &mk)
			m := mk.m
			t.NontrivialIf(len(m.Name)+len(m.Family)+len(m.Author) >= 100 || m.M.Vert)
			t.LabelIf(len(m.Name)+len(m.Family)+len(m.Author) > 220, "strings beyond 220 bytes")
			t.LabelIf(len(m.About) > 255, "about beyond 255 bytes")
			t.LabelIf(m.Author == "" || m.Family == "", "empty strings")
			fm.CheckHeader(t, mk.f, m)
			fm.CheckMetrics(t, mk.f, m)
			if mk.b != nil {
				checkBuilderProps(t, mk.b.B, m)
			}
		},
	})

	register(&pbt.Prop{
		ID: "P03", Quick: 25000, Deep: 900000,
		Rule: "glyph lists with generated masks (sparse, dense, rectangles, diagonals, several alpha levels, off-origin), placements and names, built or encoded from the specification; count, advance, placement, mask pixels and name lookups (every name, neighbours, prefixes, extensions) compared; a few fonts have tens of thousands of elements. Non-trivial: at least 3 glyphs and one named glyph or 2 non-empty masks",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "glyphs")
			describe(t, &mk)
			m := mk.m
			named, inked := 0, 0
			for i := range m.Glyphs {
				if m.Glyphs[i].Name != "" {
					named++
				}
				if !fm.TightRect(m.Glyphs[i].Mask).Empty() {
					inked++
				}
			}
			t.NontrivialIf(len(m.Glyphs) >= 3 && (named >= 1 || inked >= 2))
			t.LabelIf(named >= 8, "8 or more names")
			t.LabelIf(m.M.Vert, "vertical layout")
			fm.CheckGlyphs(t, mk.f, m)
			if mk.b != nil {
				if n := mk.b.B.GetNumGlyphs(); n != len(m.Glyphs) {
					t.Fatalf("builder GetNumGlyphs = %d, want %d", n, len(m.Glyphs))
				}
			}
		},
	})

	register(&pbt.Prop{
		ID: "P04", Quick: 80000, Deep: 6000000,
		Rule: "lists of dyes and palettes up to the 255 color limit, built or encoded from the specification; names, alphas, colors, counts, totals and the Go palette compared, and the builder's per-section listings. Non-trivial: at least two color sections",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "color")
			describe(t, &mk)
			m := mk.m
			t.NontrivialIf(len(m.Dyes)+len(m.Palettes) >= 2)
			n := 0
			for _, d := range m.Dyes {
				n += len(d.Alphas)
			}
			for _, p := range m.Palettes {
				n += len(p.Colors)
			}
			t.LabelIf(n == 255, "all 255 colors used")
			t.LabelIf(len(m.Palettes) > len(m.Dyes), "more palettes than dyes")
			fm.CheckColor(t, mk.f, m)
			if mk.b != nil {
				checkBuilderColors(t, mk.b.B, m, n == 1 && len(m.Dyes) == 1 && m.Dyes[0].Name == "main")
			}
		},
	})

	register(&pbt.Prop{
		ID: "P05", Quick: 36000, Deep: 1500000,
		Rule: "setting lists with 1-255 options drawn from custom, predefined and shared words, built or encoded from the specification (custom words in any order and overlapping predefined ones); names, option counts, option names compared, and a second build compared. Non-trivial: at least 2 settings and 3 distinct options",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "settings")
			describe(t, &mk)
			m := mk.m
			words := map[string]bool{}
			custom := 0
			for _, s := range m.Settings {
				for _, o := range s.Options {
					words[o] = true
				}
			}
			for w := range words {
				if !isPredefined(w) {
					custom++
				}
			}
			t.NontrivialIf(len(m.Settings) >= 2 && len(words) >= 3)
			t.LabelIf(custom >= 2 && custom < len(words), "custom and predefined words mixed")
			t.LabelIf(custom >= 40, "40 or more custom words")
			fm.CheckSettings(t, mk.f, m)
			if mk.b != nil {
				again := mk.b.Build(t)
				fm.CheckSettings(t, again, m)
				if a, b := settingsDump(mk.f), settingsDump(again); a != b {
					t.Fatalf("building twice gives different settings data: %s", diffLine(a, b))
				}
				if a, b := raw(t, mk.f), raw(t, again); !bytes.Equal(a, b) {
					t.Fatalf("building twice gives different font data")
				}
			}
		},
	})

	register(&pbt.Prop{
		ID: "P06", Quick: 9000, Deep: 300000,
		Rule: "mapping tables (direct, groups as lists and ranges, switches over 1-5 settings with up to 254 cases), built or encoded from the specification, looked up under several settings assignments at every mapped code point, its neighbours and unmapped ones, through Utf8, Utf8WithCache and Ascii; EvaluateSwitch compared with the enumeration order; a few fonts have tens of thousands of elements. Non-trivial: at least one switched mapping or group of 2 or more glyphs",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "mapping")
			describe(t, &mk)
			m := mk.m
			for i := range m.Mappings {
				mp := &m.Mappings[i]
				t.NontrivialIf(mp.Kind < 254 || len(mp.Cases[0].Glyphs) > 1)
				t.LabelIf(mp.Kind < 254 && len(m.Switches[mp.Kind]) >= 2, "switch over 2 or more settings")
				for _, g := range mp.Cases {
					t.LabelIf(g.Range && len(g.Glyphs) > 1, "group encoded as range")
					t.LabelIf(len(g.Glyphs) > 2 && !g.Range, "group encoded as list")
				}
			}
			for i := 0; i < 4; i++ {
				settings := fm.GenSettings(t, m)
				t.Logf("settings %v", settings)
				fm.CheckMapping(t, mk.f, m, settings, mk.builder)
				for j := 0; j < 6; j++ {
					fm.CheckMappingAt(t, mk.f, m, nil, settings, fm.GenProbe(t, m), mk.builder)
				}
			}
		},
	})

	register(&pbt.Prop{
		ID: "P07", Quick: 40000, Deep: 1500000,
		Rule: "horizontal and vertical kerning tables (built or encoded from the specification; set, overwritten and removed in the builder), looked up at every pair, swapped pairs and neighbours; counts compared; a few fonts have tens of thousands of elements. Non-trivial: at least 3 pairs",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "kerning")
			describe(t, &mk)
			m := mk.m
			t.NontrivialIf(len(m.HorzKern)+len(m.VertKern) >= 3)
			t.LabelIf(len(m.VertKern) > 0, "vertical pairs")
			fm.CheckKerning(t, mk.f, m)
			if mk.b == nil {
				return
			}
			// overwrite and remove pairs, then build again
			want := map[[2]uint16]int8{}
			for _, k := range m.HorzKern {
				want[[2]uint16{k.A, k.B}] = k.V
			}
			n := t.Int(0, 8)
			for i := 0; i < n; i++ {
				a, b := uint16(t.Int(0, len(m.Glyphs)-1)), uint16(t.Int(0, len(m.Glyphs)-1))
				if len(m.HorzKern) > 0 && t.Bool() {
					k := m.HorzKern[t.Int(0, len(m.HorzKern)-1)]
					a, b = k.A, k.B
				}
				v := int8(0)
				if t.Bool() {
					v = int8(t.Byte())
				}
				t.Logf("SetKerningPair(%d, %d, %d)", a, b, v)
				mk.b.B.SetKerningPair(mk.b.UIDs[a], mk.b.UIDs[b], v)
				if v == 0 {
					delete(want, [2]uint16{a, b})
				} else {
					want[[2]uint16{a, b}] = v
				}
			}
			m2 := *m
			m2.HorzKern = nil
			for k, v := range want {
				m2.HorzKern = append(m2.HorzKern, fm.Kern{A: k[0], B: k[1], V: v})
			}
			sort.Slice(m2.HorzKern, func(i, j int) bool {
				a, b := m2.HorzKern[i], m2.HorzKern[j]
				return a.A < b.A || a.A == b.A && a.B < b.B
			})
			fm.CheckKerning(t, mk.b.Build(t), &m2)
			fm.CheckKerning(t, mk.f, m) // the first font is unaffected
		},
	})

	register(&pbt.Prop{
		ID: "P08", Quick: 30000, Deep: 1500000,
		Rule: "conditions, rune and glyph sets (0-255 ranges and elements) and utf8 and glyph rules (all block shapes, multi-glyph outputs), built or encoded from the specification; counts, set contents, rule headers, output sequences and rule equality compared; a few fonts have tens of thousands of elements. Non-trivial: at least one rule with 2 or more outputs or one set with a range and a list element",
		Body: func(t *pbt.T) {
			mk := makeFont(t, "rewrites")
			describe(t, &mk)
			m := mk.m
			for _, r := range m.GlyphRules {
				t.NontrivialIf(len(r.Out) >= 2)
				t.LabelIf(len(r.Head)+len(r.Body)+len(r.Tail) > 15, "rule with several fragments")
			}
			for _, r := range m.Utf8Rules {
				t.NontrivialIf(len(r.Out) >= 2)
			}
			for _, s := range append(append([]fm.Set{}, m.GlyphSets...), m.RuneSets...) {
				t.NontrivialIf(len(s.Ranges) > 0 && len(s.List) > 0)
			}
			fm.CheckRewrites(t, mk.f, m)
			checkRuleEquality(t, mk.f)
			if mk.b != nil {
				for i, uid := range mk.b.GlyphSets {
					checkBuilderSet(t, mk.b, uid, &m.GlyphSets[i])
				}
			}
		},
	})

	register(&pbt.Prop{
		ID: "P15", Quick: 80000, Deep: 5000000,
		Rule: "lists of 1-254 well-formed conditions (nested AND/OR groups of 2-31 terms, setting-setting and setting-constant comparisons with all operators, quick comparisons) encoded from the specification, evaluated under 6 settings assignments and compared with a boolean evaluator. Non-trivial: at least one AND/OR group",
		Body: func(t *pbt.T) {
			mk := made{m: fm.GenFont(t, fm.Opt{Focus: "conditions"})}
			if t.Choice(999) >= 990 {
				fm.Jumbo(t, mk.m, fm.Opt{}, "conditions")
				t.Label("up to 64KiB of conditions on up to 255 settings")
			}
			mk = finishFont(t, mk, 2)
			m := mk.m
			if t.Verbose() {
				for i, c := range m.Conditions {
					t.Logf("condition %d: % x", i, c.Encode(nil))
				}
			}
			for _, c := range m.Conditions {
				t.NontrivialIf(c.Op < 2)
				t.LabelIf(c.Op == 2, "setting-setting comparison")
				for _, x := range c.Terms {
					t.LabelIf(x.Op < 2, "nested group")
				}
			}
			for i := 0; i < 6; i++ {
				settings := fm.GenSettings(t, m)
				if t.Prob(30) { // any byte is a legal argument
					for j := range settings {
						settings[j] = t.Byte()
					}
				}
				checkConditions(t, mk.f, m, settings)
				// the result must not depend on the order of evaluation
				for k := 0; k < 3 && len(m.Conditions) > 0; k++ {
					c := t.Int(0, len(m.Conditions)-1)
					if mk.f.Rewrites().EvaluateCondition(uint8(c), settings) != m.Conditions[c].Eval(settings) {
						t.Fatalf("EvaluateCondition(%d) changed on re-evaluation", c)
					}
				}
			}
		},
	})
}

func isPredefined(w string) bool {
	for i := 0; i < 256; i++ {
		if ggfnt.GetPredefinedWord(uint8(i)) == w {
			return true
		}
	}
	return false
}

func raw(t *pbt.T, f *ggfnt.Font) []byte {
	r, err := fm.Unwrap(fm.Export(t, f))
	if err != nil {
		t.Fatalf("exported stream is not valid gzip: %v", err)
	}
	return r
}

func settingsDump(f *ggfnt.Font) string {
	var sb strings.Builder
	s := f.Settings()
	for i := 0; i < int(s.NumWords()); i++ {
		fmt.Fprintf(&sb, "%s\n", s.GetWord(uint8(i)))
	}
	return sb.String()
}

func diffLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			if len(x) > 300 {
				x = x[:300]
			}
			if len(y) > 300 {
				y = y[:300]
			}
			return fmt.Sprintf("line %d: %q vs %q", i, x, y)
		}
	}
	return "same"
}

func checkRuleEquality(t *pbt.T, f *ggfnt.Font) {
	r := f.Rewrites()
	n := min(int(r.NumGlyphRules()), 12)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := r.GetGlyphRule(uint16(i)), r.GetGlyphRule(uint16(j))
			if got, want := a.Equals(b), bytes.Equal(a.Data, b.Data); got != want {
				t.Fatalf("glyph rule %d Equals rule %d = %v, want %v", i, j, got, want)
			}
		}
	}
	// a rule with any one byte changed is another rule
	if n > 0 {
		a := r.GetGlyphRule(uint16(t.Int(0, n-1)))
		data := append([]byte(nil), a.Data...)
		for i := range data {
			data[i] ^= 1 << (i % 8)
			if b := (ggfnt.GlyphRewriteRule{Data: data}); a.Equals(b) || b.Equals(a) {
				t.Fatalf("glyph rule % x Equals % x", a.Data, data)
			}
			data[i] = a.Data[i]
		}
		for _, d := range [][]byte{data[:len(data)-1], append(data[:len(data):len(data)], 0)} {
			if b := (ggfnt.GlyphRewriteRule{Data: d}); a.Equals(b) || b.Equals(a) {
				t.Fatalf("glyph rule % x Equals % x", a.Data, d)
			}
		}
		if !a.Equals(ggfnt.GlyphRewriteRule{Data: data}) {
			t.Fatalf("glyph rule % x doesn't equal its copy", data)
		}
	}
	if n := min(int(r.NumUTF8Rules()), 12); n > 0 {
		a := r.GetUtf8Rule(uint16(t.Int(0, n-1)))
		data := append([]byte(nil), a.Data...)
		for i := range data {
			data[i] ^= 1 << (i % 8)
			if b := (ggfnt.Utf8RewriteRule{Data: data}); a.Equals(b) || b.Equals(a) {
				t.Fatalf("utf8 rule % x Equals % x", a.Data, data)
			}
			data[i] = a.Data[i]
		}
		for _, d := range [][]byte{data[:len(data)-1], append(data[:len(data):len(data)], 0)} {
			if b := (ggfnt.Utf8RewriteRule{Data: d}); a.Equals(b) || b.Equals(a) {
				t.Fatalf("utf8 rule % x Equals % x", a.Data, d)
			}
		}
		if !a.Equals(ggfnt.Utf8RewriteRule{Data: data}) {
			t.Fatalf("utf8 rule % x doesn't equal its copy", data)
		}
	}
	n = min(int(r.NumUTF8Rules()), 12)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := r.GetUtf8Rule(uint16(i)), r.GetUtf8Rule(uint16(j))
			if got, want := a.Equals(b), bytes.Equal(a.Data, b.Data); got != want {
				t.Fatalf("utf8 rule %d Equals rule %d = %v, want %v", i, j, got, want)
			}
		}
	}
}

func checkBuilderSet(t *pbt.T, b *fm.Built, uid uint64, want *fm.Set) {
	idx := map[uint64]uint32{}
	for i, u := range b.UIDs {
		idx[u] = uint32(i)
	}
	var got fm.Set
	b.B.EachGlyphSetRange(uid, func(s, e uint64) { got.Ranges = append(got.Ranges, [2]uint32{idx[s], idx[e]}) })
	b.B.EachGlyphSetListGlyph(uid, func(g uint64) { got.List = append(got.List, idx[g]) })
	fm.CheckSet(t, "builder set", got.Ranges, got.List, want)
}

func checkBuilderProps(t *pbt.T, b *builder.Font, m *fm.Font) {
	got := fmt.Sprintf("%x %d %d %s %v %v %v %q %q %q %q %s", b.GetFontID(), b.GetVersionMajor(), b.GetVersionMinor(), b.GetVersionStr(),
		b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate(), b.GetName(), b.GetFamily(), b.GetAuthor(), b.GetAbout(), b.GetFontIDStr())
	want := fmt.Sprintf("%x %d %d v%d.%02d %v %v %v %q %q %q %q %016X", m.ID, m.VMajor, m.VMinor, m.VMajor, m.VMinor,
		m.Dates[0], m.Dates[1], m.Dates[2], m.Name, m.Family, m.Author, m.About, m.ID)
	if got != want {
		t.Fatalf("builder getters answer %s, want %s", got, want)
	}
	w := &m.M
	gm := fmt.Sprint(b.GetMonoWidth(), b.GetAscent(), b.GetExtraAscent(), b.GetDescent(), b.GetExtraDescent(), b.GetUppercaseAscent(),
		b.GetMidlineAscent(), b.GetHorzInterspacing(), b.GetVertInterspacing(), b.GetLineGap(), b.GetVertLineWidth(), b.GetVertLineGap())
	wm := fmt.Sprint(w.MonoWidth, w.Ascent, w.ExtraAscent, w.Descent, w.ExtraDescent, w.UppercaseAscent,
		w.MidlineAscent, w.HorzInterspacing, w.VertInterspacing, w.LineGap, w.VertLineWidth, w.VertLineGap)
	if gm != wm {
		t.Fatalf("builder metrics getters answer %s, want %s", gm, wm)
	}
}

// checkBuilderColors compares the builder's section listings. Color indices
// count down from 255, dyes first.
func checkBuilderColors(t *pbt.T, b *builder.Font, m *fm.Font, autoMain bool) {
	next := 255
	if !autoMain {
		for _, d := range m.Dyes {
			var got []uint8
			var idx []uint8
			var err error
			t.NoPanic("EachDyeAlpha", func() {
				err = b.EachDyeAlpha(d.Name, func(a, i uint8) { got = append(got, a); idx = append(idx, i) })
			})
			if err != nil {
				t.Fatalf("EachDyeAlpha(%q) failed for an existing dye: %v", d.Name, err)
			}
			if !bytes.Equal(got, d.Alphas) {
				t.Fatalf("EachDyeAlpha(%q) gave %v, want %v", d.Name, got, d.Alphas)
			}
			seen := map[uint8]bool{}
			for _, i := range idx {
				if int(i) > next || int(i) <= next-len(d.Alphas) || seen[i] {
					t.Fatalf("EachDyeAlpha(%q) gave indices %v, want %d..%d", d.Name, idx, next-len(d.Alphas)+1, next)
				}
				seen[i] = true
			}
			next -= len(d.Alphas)
		}
	}
	for _, p := range m.Palettes {
		var got []color.RGBA
		var idx []uint8
		var err error
		t.NoPanic("EachPaletteColor", func() {
			err = b.EachPaletteColor(p.Name, func(c color.RGBA, i uint8) { got = append(got, c); idx = append(idx, i) })
		})
		if err != nil {
			t.Fatalf("EachPaletteColor(%q) failed for an existing palette: %v", p.Name, err)
		}
		if fmt.Sprint(got) != fmt.Sprint(p.Colors) {
			t.Fatalf("EachPaletteColor(%q) gave %v, want %v", p.Name, got, p.Colors)
		}
		seen := map[uint8]bool{}
		for _, i := range idx {
			if int(i) > next || int(i) <= next-len(p.Colors) || seen[i] {
				t.Fatalf("EachPaletteColor(%q) gave indices %v, want %d..%d", p.Name, idx, next-len(p.Colors)+1, next)
			}
			seen[i] = true
		}
		next -= len(p.Colors)
	}
	calls := 0
	if b.EachDyeAlpha("no-such-section", func(a, i uint8) { calls++ }) == nil {
		t.Fatalf("EachDyeAlpha reports no error for an unknown dye")
	}
	if b.EachPaletteColor("no-such-section", func(c color.RGBA, i uint8) { calls++ }) == nil {
		t.Fatalf("EachPaletteColor reports no error for an unknown palette")
	}
	if calls != 0 {
		t.Fatalf("listing an unknown section calls the function")
	}
}
