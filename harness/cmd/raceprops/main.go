// raceprops decides the property about concurrent use of fonts. It is built
// with the race detector: a data race ends the process with exit code 66.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"runtime"
	"strings"
	"sync"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// op is something a goroutine does. It is generated beforehand; prepare makes
// whatever is private to the goroutine, and the result only depends on it.
type op struct {
	name    string
	compile bool
	run     func() string
}

// shared is what all the goroutines use.
type shared struct {
	m     *fm.Font
	f     *ggfnt.Font
	file  []byte
	masks [][]byte
	other []byte // another font file
}

func sum(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%d:%x", len(s), h.Sum64())
}

func (s *shared) genOp(t *pbt.T) op {
	settings := fm.GenSettings(t, s.m)
	switch t.Weighted(6, 6, 3, 3, 2, 2, 2, 2, 2) {
	case 0:
		return s.glyphOp(t, settings)
	case 1:
		return s.utf8Op(t, settings)
	case 2:
		probes := fm.Probes(s.m)
		return op{"accessors", false, func() string { return fm.Dump(s.f, settings, probes) }}
	case 3:
		return s.mappingOp(t, settings)
	case 4:
		return op{"export", false, func() string {
			var b bytes.Buffer
			if err := s.f.Export(&b); err != nil {
				return err.Error()
			}
			raw, err := fm.Unwrap(b.Bytes())
			return fmt.Sprint(sum(string(raw)), err)
		}}
	case 5:
		file := s.file
		if t.Bool() {
			file = s.other
		}
		if t.Prob(20) {
			file = file[:t.Int(0, len(file)-1)]
		}
		probes := fm.Probes(s.m)
		return op{"parse", false, func() string {
			f, err := ggfnt.Parse(bytes.NewReader(file))
			if err != nil {
				return err.Error()
			}
			return fm.Dump(f, make([]uint8, 255), probes)
		}}
	case 6:
		return op{"masks", false, func() string {
			var sb strings.Builder
			for i := 0; i < int(s.f.Glyphs().Count()); i++ {
				if m := s.f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i)); m != nil {
					fmt.Fprint(&sb, m.Rect, m.Pix)
					var enc mask.Encoder
					data := enc.AppendRasterOps(nil, m)
					back, err := mask.Rasterize(data)
					fmt.Fprint(&sb, data, err)
					if back != nil {
						fmt.Fprint(&sb, back.Rect, back.Pix)
					}
				}
			}
			return sum(sb.String())
		}}
	case 7:
		seed := uint64(t.Int(0, 255))
		return op{"build", false, func() string { return buildOp(s.m, seed) }}
	default:
		return op{"validate", false, func() string {
			return fmt.Sprint(s.f.Validate(ggfnt.FmtDefault), s.f.RawSize())
		}}
	}
}

func buildOp(m *fm.Font, seed uint64) string {
	b := builder.New()
	id := b.GetFontID()
	n := int(seed)
	b.SetAscent(255)
	b.SetExtraAscent(254)
	b.SetDescent(255)
	b.SetExtraDescent(255)
	var errs []error
	check := func(err error) { errs = append(errs, err) }
	var uids []uint64
	add := func(mask *image.Alpha) {
		uid, err := b.AddGlyph(mask)
		if check(err); err == nil {
			uids = append(uids, uid)
		}
	}
	for i := range m.Glyphs {
		if m.Glyphs[i].Mask != nil && len(uids) < 8 {
			add(fm.CloneMask(m.Glyphs[i].Mask))
		}
	}
	for i := 0; i < 3; i++ {
		img := image.NewAlpha(image.Rect(0, -4, 3+n%7, 2))
		for j := range img.Pix {
			img.Pix[j] = byte((j*n + i) % 3 * 127)
		}
		add(img)
	}
	check(b.AddDye("main", 255, byte(n)))
	check(b.AddPalette("pal", color.RGBA{1, 2, byte(n), 4}))
	_, err := b.AddSetting("first", "on", "off", fmt.Sprint("word", n))
	check(err)
	_, err = b.AddSetting("second", "zero", fmt.Sprint("w", n%5))
	check(err)
	sw, err := b.AddSwitch(1, 0)
	check(err)
	for i, uid := range uids {
		check(b.SetGlyphName(uid, fmt.Sprint("glyph", (i*7+n)%100)))
		check(b.Map(rune('a'+i), uid))
		b.SetKerningPair(uid, uids[(i*7+n)%len(uids)], 1+int8(n%50))
	}
	u := func(i int) uint64 { return uids[(i+n)%len(uids)] }
	check(b.MapGroup('A', 1, u(0), u(2), u(1)))
	check(b.MapWithSwitchSingles('B', sw, u(0), u(1), u(2), u(3), u(4), u(5)))
	check(b.MapWithSwitch('C', sw, [][]uint64{{u(0)}, {u(1), u(2)}, {u(3)}, {u(0)}, {u(1), u(2), u(0)}, {u(2)}}, []ggfnt.AnimationFlags{2, 3}))
	gs, err := b.CreateGlyphSet()
	check(err)
	check(b.AddGlyphSetRange(gs, uids[0], uids[1+n%2]))
	check(b.AddGlyphSetListGlyph(gs, u(3)))
	rs, err := b.CreateRuneSet()
	check(err)
	check(b.AddRuneSetRange(rs, 'a', rune('a'+n%200)))
	check(b.AddRuneSetListRune(rs, rune(n)))
	check(b.AddGlyphRewriteRule(1, 2, 1, []uint64{gs, u(1), gs, u(2)}, u(4)))
	check(b.AddSimpleUtf8RewriteRule(rune('z'), 'x', rune('A'+n%20)))
	f, err := b.Build()
	if err != nil {
		return fmt.Sprint(err, errs)
	}
	var out bytes.Buffer
	if err := f.Export(&out); err != nil {
		return err.Error()
	}
	raw, err := fm.Unwrap(out.Bytes())
	if err != nil || f.Header().ID() != id {
		return fmt.Sprint(err, f.Header().ID() == id)
	}
	// the ID is random, and it's dumped in the first lines with the dates
	dump := strings.SplitN(fm.Dump(f, []uint8{byte(n % 3), byte(n % 2)}, []rune{'a', 'b', 'h', 'A', 'B', 'C'}), "\n", 3)[2]
	return fmt.Sprint(errs, dump, len(raw))
}

func (s *shared) mappingOp(t *pbt.T, settings []uint8) op {
	probes := fm.Probes(s.m)
	var seq []rune
	for i, n := 0, t.Int(1, 30); i < n; i++ {
		seq = append(seq, pbt.Pick(t, probes))
	}
	size := t.Int(1, 6)
	return op{"mapping cache", false, func() string {
		cache := ggfnt.NewSettingsCache(s.f)
		mc := ggfnt.NewMappingCache(s.f, size)
		var sb strings.Builder
		for i, r := range seq {
			if i == len(seq)/2 {
				for k, v := range settings {
					cache.Set(ggfnt.SettingKey(k), v)
				}
				mc.Drop()
			}
			g, ok := mc.Get(r, cache)
			fmt.Fprintf(&sb, "%d %v:", r, ok)
			if ok {
				for j := 0; j < int(g.Size()); j++ {
					fmt.Fprintf(&sb, " %d", g.Select(uint8(j)))
				}
			}
		}
		return sb.String()
	}}
}

// pick draws rules of the font, with repetitions.
func pick(t *pbt.T, n int) (out []int) {
	for i, k := 0, t.Size(0, 40); i < k && n > 0; i++ {
		out = append(out, t.Int(0, n-1))
	}
	return out
}

// genRun draws values that the chosen rules can match.
func genRun(t *pbt.T, rules []fm.Rule, chosen []int, sets []fm.Set, top uint32) (out []uint32) {
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		if len(chosen) == 0 {
			out = append(out, uint32(t.Int(0, int(top))))
			continue
		}
		for _, e := range rules[pbt.Pick(t, chosen)].In() {
			v := e.V
			if e.IsSet {
				s := &sets[e.V]
				switch {
				case len(s.Ranges) > 0 && (len(s.List) == 0 || t.Bool()):
					r := pbt.Pick(t, s.Ranges)
					v = r[0] + uint32(t.Int(0, int(min(r[1]-r[0], 5))))
				case len(s.List) > 0:
					v = pbt.Pick(t, s.List)
				default:
					v = 0
				}
			}
			out = append(out, v)
		}
	}
	return out
}

func (s *shared) glyphOp(t *pbt.T, settings []uint8) op {
	chosen := pick(t, len(s.m.GlyphRules))
	run := genRun(t, s.m.GlyphRules, chosen, s.m.GlyphSets, 40)
	rounds := t.Int(1, 3)
	return op{"glyph tester", len(chosen) > 0, func() string {
		cache := ggfnt.NewSettingsCache(s.f)
		for k, v := range settings {
			cache.Set(ggfnt.SettingKey(k), v)
		}
		var ts rerules.GlyphTester
		var sb strings.Builder
		for i := 0; i < rounds; i++ {
			for _, r := range chosen {
				if err := ts.AddRule(s.f.Rewrites().GetGlyphRule(uint16(r))); err != nil {
					fmt.Fprintf(&sb, "%v ", err)
				}
			}
			emit := func(g ggfnt.GlyphIndex) { fmt.Fprintf(&sb, "%d ", g) }
			if err := ts.BeginSequence(s.f, cache); err != nil {
				fmt.Fprintf(&sb, "%v ", err)
			} else {
				for _, v := range run {
					if err := ts.Feed(ggfnt.GlyphIndex(v), emit); err != nil {
						fmt.Fprintf(&sb, "%v ", err)
					}
				}
				ts.FinishSequence(emit)
			}
			if i%2 == 0 {
				ts.RemoveAllRules()
			}
			runtime.Gosched()
		}
		return sb.String()
	}}
}

func (s *shared) utf8Op(t *pbt.T, settings []uint8) op {
	chosen := pick(t, len(s.m.Utf8Rules))
	run := genRun(t, s.m.Utf8Rules, chosen, s.m.RuneSets, 1000)
	rounds := t.Int(1, 3)
	return op{"utf8 tester", len(chosen) > 0, func() string {
		cache := ggfnt.NewSettingsCache(s.f)
		for k, v := range settings {
			cache.Set(ggfnt.SettingKey(k), v)
		}
		var ts rerules.Utf8Tester
		var sb strings.Builder
		for i := 0; i < rounds; i++ {
			for _, r := range chosen {
				if err := ts.AddRule(s.f.Rewrites().GetUtf8Rule(uint16(r))); err != nil {
					fmt.Fprintf(&sb, "%v ", err)
				}
			}
			emit := func(r rune) { fmt.Fprintf(&sb, "%d ", r) }
			if err := ts.BeginSequence(s.f, cache); err != nil {
				fmt.Fprintf(&sb, "%v ", err)
			} else {
				for _, v := range run {
					if err := ts.Feed(rune(v), emit); err != nil {
						fmt.Fprintf(&sb, "%v ", err)
					}
				}
				ts.FinishSequence(emit)
			}
			if i%2 == 0 {
				ts.RemoveAllRules()
			}
			runtime.Gosched()
		}
		return sb.String()
	}}
}

// guarded renders a panic as a result.
func guarded(fn func() string) (s string) {
	if p, _ := pbt.Catch(func() { s = fn() }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return s
}

func body(t *pbt.T) {
	s := &shared{}
	s.m = fm.GenFont(t, fm.Opt{Focus: pbt.Pick(t, []string{"rewrites", "rewrites", "mapping", "glyphs"})})
	raw, _ := fm.Encode(t, s.m)
	s.file = fm.Wrap(raw)
	s.other = s.file
	if t.Prob(30) {
		raw, _ := fm.Encode(t, fm.GenFont(t, fm.Opt{Focus: "kerning"}))
		s.other = fm.Wrap(raw)
	}
	s.f = fm.MustParse(t, s.file)
	var plans [][]op
	compiling := 0
	for i, n := 0, t.Int(2, 6); i < n; i++ {
		var ops []op
		names := ""
		compiles := false
		for j, k := 0, t.Int(1, 5); j < k; j++ {
			o := s.genOp(t)
			ops = append(ops, o)
			names += " " + o.name
			compiles = compiles || o.compile
			t.Label(o.name)
		}
		if compiles {
			compiling++
		}
		plans = append(plans, ops)
		t.Logf("goroutine %d:%s", i, names)
	}
	t.LabelIf(compiling >= 2, "concurrent compilations")
	t.NontrivialIf(compiling >= 2)

	rounds := 2
	if t.Alone() {
		rounds = 100
	}
	// Alone afterwards, so that nothing is warmed up by the solo runs.
	got := make([][][]string, rounds)
	for round := range got {
		got[round] = make([][]string, len(plans))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range plans {
			i := i
			got[round][i] = make([]string, len(plans[i]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := range plans[i] {
					got[round][i][j] = guarded(plans[i][j].run)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	for i := range plans {
		for j := range plans[i] {
			want := guarded(plans[i][j].run)
			for round := range got {
				if g := got[round][i][j]; g != want {
					t.Fatalf("goroutine %d, %s: got a different result than alone:\n%s\nalone:\n%s", i, plans[i][j].name, clip(g), clip(want))
				}
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + " ..."
	}
	return s
}

func main() {
	pbt.CPUScale = 6
	pbt.Main([]*pbt.Prop{{
		ID: "P28", Quick: 1500, Deep: 40000,
		Rule:   "a font encoded from the specification and 2-6 goroutines, each with 1-5 operations (reading every accessor, exporting, parsing, rasterizing, building, mapping caches, glyph and utf8 testers with rules of the font) started together on the same font, twice; every result is compared with that of the same operation alone, under the race detector. Non-trivial: at least two goroutines compile rewrite rules",
		Assume: []string{"only the interleavings that the Go scheduler happened to produce were explored, with data races detected by happens-before analysis"},
		Body:   body,
	}})
}
