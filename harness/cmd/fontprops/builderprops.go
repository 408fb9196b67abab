package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"slices"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID: "P20", Quick: 12050, Deep: 360000,
		Rule: "sequences of builder calls over all sections (up to 150 calls, some refused, states allowed to be inconsistent) with Build at generated points, and states at the size limits; the outcome of Build is compared with the model of what was accepted. Non-trivial: at least 5 accepted calls and one successful build",
		Body: func(t *pbt.T) {
			if turn := t.Turn(241 * 2 * len(limitKinds)); turn%241 == 240 {
				limits(t, turn/482, turn/241%2 == 1)
				return
			}
			k := newMachine(t, 15)
			weights := [][]int{
				{4, 4, 4, 8, 5, 8, 5, 5, 4, 5},
				{1, 1, 1, 8, 1, 1, 1, 8, 1, 8},
				{1, 1, 1, 5, 8, 8, 0, 0, 0, 0},
				{1, 6, 1, 6, 1, 2, 6, 1, 1, 1},
			}[t.Int(0, 3)]
			built := false
			for i, n := 0, t.Int(1, 3); i < n; i++ {
				k.run(t.Size(1, 50), weights...)
				if t.Prob(50) {
					k.repair()
				}
				built = k.build(true) || built
			}
			if !built {
				k.repair()
				built = k.build(true)
			}
			t.NontrivialIf(built && k.accepted >= 5)
			k.checkFonts()
		},
	})

	register(&pbt.Prop{
		ID: "P23", Quick: 14000, Deep: 500000,
		Rule: "histories of creating, removing and editing glyph and rune sets (valid, repeated and unknown elements, sets filled to 255) next to a list model, with the contents compared after the calls and in built fonts. Non-trivial: at least one removal and one refused call",
		Body: func(t *pbt.T) {
			k := newMachine(t, 25)
			k.run(t.Int(2, 12), 0, 0, 0, 1, 0, 0, 0, 0, 0, 0)
			fill := t.Prob(4)
			if fill {
				fillSets(t, k)
			}
			for i, n := 0, t.Int(1, 3); i < n; i++ {
				k.run(t.Size(5, 60), 0, 0, 0, 1, 0, 0, 0, 14, 14, 1)
				k.checkSets()
				if t.Bool() {
					k.repair()
				}
				if k.build(false) {
					f, _ := k.b.Build()
					fm.CheckRewrites(t, f, k.model())
				}
			}
			t.NontrivialIf(k.refused > 0 && k.accepted > 5)
			k.repair()
			if k.build(false) {
				f, _ := k.b.Build()
				fm.CheckRewrites(t, f, k.model())
			}
		},
	})

	register(&pbt.Prop{
		ID: "P26", Quick: 30000, Deep: 1200000,
		Rule: "sequences of builder calls where most are refused (unknown identifiers, limits, lengths, repeated names, malformed names and dates), on states filled by valid calls; getters and builds are compared with a model that ignores refused calls. Non-trivial: at least 5 refused calls and a successful build",
		Body: func(t *pbt.T) {
			k := newMachine(t, 10)
			k.run(t.Size(10, 50), 2, 1, 3, 8, 5, 6, 3, 5, 4, 4)
			k.badPct = 70
			k.run(t.Size(5, 60), 3, 2, 3, 5, 5, 8, 1, 6, 5, 6)
			k.checkGetters()
			k.repair()
			before := k.refused
			ok := k.build(true)
			t.NontrivialIf(ok && before >= 5)
		},
	})

	register(&pbt.Prop{
		ID: "P27", Quick: 9000, Deep: 350000,
		Rule: "sequences of builder calls where every slice and mask passed in is overwritten right after the call, with fonts built along the way; builders, built and parsed fonts are compared with their models and snapshots at the end, after scribbling over everything the accessors return. Non-trivial: a font was built before later accepted calls",
		Body: func(t *pbt.T) {
			k := newMachine(t, 8)
			k.scribble = true
			k.run(t.Size(5, 50), 1, 1, 3, 8, 4, 6, 3, 5, 4, 4)
			k.repair()
			first := k.build(true)
			n := k.accepted
			for i, c := 0, t.Int(1, 2); i < c; i++ {
				k.run(t.Size(1, 40), 2, 2, 3, 6, 4, 6, 4, 5, 4, 4)
				k.repair()
				k.build(true)
			}
			t.NontrivialIf(first && k.accepted > n)
			for _, s := range k.fonts {
				scribbleFont(t, s.f)
			}
			k.checkFonts()
			k.build(true)
		},
	})
}

// scribbleFont overwrites the mutable values that accessors return.
func scribbleFont(t *pbt.T, f *ggfnt.Font) {
	t.NoPanic("RasterizeMask", func() {
		n := min(int(f.Glyphs().Count()), 30)
		held := make([]*image.Alpha, n)
		want := make([]image.Alpha, n)
		for i := range held {
			if m := f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i)); m != nil {
				held[i], want[i] = m, *m
				want[i].Pix = append([]uint8(nil), m.Pix...)
			}
		}
		for i, m := range held {
			if m == nil {
				continue
			}
			if m.Rect != want[i].Rect || !bytes.Equal(m.Pix, want[i].Pix) {
				t.Fatalf("the mask given for glyph %d changed later", i)
			}
			for j := range m.Pix {
				m.Pix[j] ^= 0xA5
			}
			m.Rect = image.Rectangle{}
		}
	})
	t.NoPanic("GoColorPalette", func() {
		pal := f.Color().GoColorPalette()
		for i := range pal {
			pal[i] = color.RGBA{1, 2, 3, 4}
		}
		pal = append(pal[:0], color.RGBA{5, 6, 7, 8})
	})
}

// fillSets fills one set of each kind to the limits.
func fillSets(t *pbt.T, k *machine) {
	k.repair()
	t.Label("filled sets")
	for len(k.uids) < 260 {
		uid, err := k.b.AddGlyph(image.NewAlpha(image.Rect(0, 0, 0, 0)))
		if err != nil {
			t.Fatalf("AddGlyph: %v", err)
		}
		k.uids = append(k.uids, uid)
		k.m.Glyphs = append(k.m.Glyphs, fm.Glyph{Mask: image.NewAlpha(image.Rect(0, 0, 0, 0)), Placement: ggfnt.GlyphPlacement{TopAdvance: k.m.M.Ascent, BottomAdvance: k.m.M.Descent}})
	}
	g := &mset{}
	k.call("CreateGlyphSet", len(k.gsets) < 255, func() (err error) { g.uid, err = k.b.CreateGlyphSet(); return })
	k.gsets = append(k.gsets, g)
	r := &mset{}
	k.call("CreateRuneSet", len(k.rsets) < 255, func() (err error) { r.uid, err = k.b.CreateRuneSet(); return })
	k.rsets = append(k.rsets, r)
	for i := 0; i < 257; i++ {
		ok := i < 255
		at := (i * 37) % 257
		if k.call("AddGlyphSetListGlyph", ok, func() error { return k.b.AddGlyphSetListGlyph(g.uid, k.uids[at]) }) {
			g.list = append(g.list, k.uids[at])
		}
		a, b := k.uids[at], k.uids[min(at+i%3, len(k.uids)-1)]
		if k.call("AddGlyphSetRange", ok, func() error { return k.b.AddGlyphSetRange(g.uid, a, b) }) {
			g.ranges = append(g.ranges, [2]uint64{a, b})
		}
		c := rune(1000 + at)
		if k.call("AddRuneSetListRune", ok, func() error { return k.b.AddRuneSetListRune(r.uid, c) }) {
			r.list = append(r.list, uint64(c))
		}
		if k.call("AddRuneSetRange", ok, func() error { return k.b.AddRuneSetRange(r.uid, c, c+3) }) {
			r.ranges = append(r.ranges, [2]uint64{uint64(c), uint64(c + 3)})
		}
	}
	for len(k.gsets) < 255 && t.Prob(99) && len(k.gsets) < 40 {
		s := &mset{}
		k.call("CreateGlyphSet", true, func() (err error) { s.uid, err = k.b.CreateGlyphSet(); return })
		k.gsets = append(k.gsets, s)
	}
}

var limitKinds = []string{"glyphs", "mappings", "rules", "mask data", "mapping data", "sets", "settings", "glyph set data", "rule data", "font data", "words", "switches", "exact mask data", "exact mapping data", "exact rule data", "exact font data", "kerning pairs", "rune set data"}

// limits builds states at the size limits.
func limits(t *pbt.T, kind int, over bool) {
	if kind >= 12 && kind <= 16 {
		exactLimits(t, kind, over)
		return
	}
	k := newMachine(t, 0)
	k.repair()
	uid := k.uids[0]
	must := func(err error) {
		if err != nil {
			t.Fatalf("refused below the limit: %v", err)
		}
	}
	what := limitKinds[kind]
	t.Label("limits: " + what)
	t.Logf("limits of %s, over: %v", what, over)
	mustFail := false
	t.NoPanic("adding", func() {
		switch kind {
		case 0:
			empty := image.NewAlpha(image.Rect(0, 0, 0, 0))
			for i := 1; i < ggfnt.MaxGlyphs; i++ {
				_, err := k.b.AddGlyph(empty)
				must(err)
			}
			if _, err := k.b.AddGlyph(empty); err == nil {
				t.Fatalf("AddGlyph accepts more than %d glyphs", ggfnt.MaxGlyphs)
			}
		case 1:
			n := ggfnt.MaxGlyphs
			if over {
				n += t.Int(1, 10000)
			}
			for i := 0; i < n; i++ {
				if k.b.Map(rune(' '+i), uid) != nil {
					if i < ggfnt.MaxGlyphs {
						t.Fatalf("Map refused below the limit")
					}
					break
				}
			}
		case 2:
			n := 65535
			if over {
				n += t.Int(1, 5)
			}
			utf8 := t.Bool()
			for i := 0; i < n; i++ {
				var err error
				if utf8 {
					err = k.b.AddSimpleUtf8RewriteRule('a', rune('b'+i%1000))
				} else {
					err = k.b.AddGlyphRewriteRule(0, 1, 0, []uint64{uid}, uid)
				}
				if err != nil {
					if i < 65535 {
						t.Fatalf("rule %d refused: %v", i, err)
					}
					break
				}
			}
		case 3: // masks of more than 16MiB
			k.b.SetMonoWidth(0)
			k.b.SetAscent(255)
			k.b.SetUppercaseAscent(255)
			m := image.NewAlpha(image.Rect(0, -255, 255, 0))
			for i := range m.Pix {
				m.Pix[i] = uint8(i*i%251) | 1
			}
			n := 100
			if over {
				n = 330
				mustFail = true
			}
			for i := 0; i < n; i++ {
				_, err := k.b.AddGlyph(m)
				must(err)
			}
		case 4: // mappings of more than 16MiB
			opts := make([]string, 254)
			for i := range opts {
				opts[i] = fmt.Sprintf("o%d", i)
			}
			key, err := k.b.AddSetting("set", opts...)
			must(err)
			sw, err := k.b.AddSwitch(key)
			must(err)
			n := 10000
			if over {
				n = 24000
				mustFail = true
			}
			uids := slices.Repeat([]uint64{uid}, 254)
			for i := 0; i < n; i++ {
				must(k.b.MapWithSwitchSingles(rune(' '+i), sw, uids...))
			}
		case 5:
			for i := 0; i < 255; i++ {
				_, err := k.b.CreateGlyphSet()
				must(err)
				_, err = k.b.CreateRuneSet()
				must(err)
			}
			if _, err := k.b.CreateGlyphSet(); err == nil {
				t.Fatalf("more than 255 glyph sets accepted")
			}
			if _, err := k.b.CreateRuneSet(); err == nil {
				t.Fatalf("more than 255 rune sets accepted")
			}
		case 6:
			n := 255 - len(k.m.Settings)
			for i := 0; i < n; i++ {
				_, err := k.b.AddSetting("x"+letters(i), slices.Repeat([]string{"a", "b"}, 1+t.Int(0, 126))...)
				must(err)
			}
			if _, err := k.b.AddSetting("one-more", "a"); err == nil {
				t.Fatalf("more than 255 settings accepted")
			}
		case 7, 17: // sets of 64KiB
			uids := []uint64{uid}
			for i := 1; i < 300; i++ {
				uid, err := k.b.AddGlyph(image.NewAlpha(image.Rect(0, 0, 0, 0)))
				must(err)
				uids = append(uids, uid)
			}
			left := 65535
			if over {
				left++
				mustFail = true
			}
			runes := kind == 17
			rsize, esize := 3, 2
			if runes {
				rsize, esize = 5, 4
			}
			for _, s := range k.gsets {
				if !runes {
					left -= 2 + 3*len(s.ranges) + 2*len(s.list)
				}
			}
			for _, s := range k.rsets {
				if runes {
					left -= 2 + 5*len(s.ranges) + 4*len(s.list)
				}
			}
			fill := func(ranges, elems int) {
				var suid uint64
				var err error
				if runes {
					suid, err = k.b.CreateRuneSet()
				} else {
					suid, err = k.b.CreateGlyphSet()
				}
				must(err)
				left -= 2 + ranges*rsize + elems*esize
				for i := 0; i < ranges; i++ {
					if runes {
						must(k.b.AddRuneSetRange(suid, rune(200+i), rune(300+i)))
					} else {
						must(k.b.AddGlyphSetRange(suid, uids[i], uids[i+1+t.Int(0, 9)]))
					}
				}
				for i := 0; i < elems; i++ {
					if runes {
						must(k.b.AddRuneSetListRune(suid, rune(200+i)))
					} else {
						must(k.b.AddGlyphSetListGlyph(suid, uids[i]))
					}
				}
			}
			for left > 2*(2+rsize*255+esize*255) {
				fill(255-t.Int(0, 3), 255-t.Int(0, 3))
			}
			for left > 2+esize*200 {
				fill(0, 100)
			}
			r := 0
			for (left-2-r*rsize)%esize != 0 {
				r++
			}
			fill(r, (left-2-r*rsize)/esize)
			if left != 0 {
				panic("wrong size")
			}
		case 8: // rules of more than 16MiB
			n := 15000
			if over {
				n = 17000
				mustFail = true
			}
			uids := slices.Repeat([]uint64{uid}, 255)
			for i := 0; i < n; i++ {
				must(k.b.AddGlyphRewriteRule(0, 255, 0, uids, uids...))
			}
		case 9: // 32MiB altogether
			opts := make([]string, 254)
			for i := range opts {
				opts[i] = fmt.Sprintf("o%d", i)
			}
			key, err := k.b.AddSetting("set", opts...)
			must(err)
			sw, err := k.b.AddSwitch(key)
			must(err)
			uids := slices.Repeat([]uint64{uid}, 255)
			for i := 0; i < 21900; i++ {
				must(k.b.MapWithSwitchSingles(rune(' '+i), sw, uids[:254]...))
			}
			n := 15000
			if over {
				n = 16050
				mustFail = true
			}
			for i := 0; i < n; i++ {
				must(k.b.AddGlyphRewriteRule(0, 255, 0, uids, uids...))
			}
		case 10: // 255 different words
			words := map[string]bool{}
			for i := range k.m.Settings {
				for _, w := range k.m.Settings[i].Options {
					words[w] = true
				}
			}
			var list []string
			pct := pbt.Pick(t, []int{0, 30, 100})
			for i := 254; i >= 0 && len(words) < 255; i-- {
				w := ggfnt.GetPredefinedWord(uint8(i))
				if fm.IsBasicName(w) && !words[w] && t.Prob(pct) {
					words[w] = true
					list = append(list, w)
				}
			}
			for i := 0; len(words) < 255; i++ {
				w := "word-" + letters(i) + strings.Repeat("x", t.Int(0, 20))
				words[w] = true
				list = append(list, w)
			}
			if over {
				list = append(list, "one-too-many")
				mustFail = true
			}
			for i := 0; len(list) > 0; i++ {
				n := t.Int(1, len(list))
				if n > 255 {
					n = 255
				}
				if _, err := k.b.AddSetting("x"+letters(i), list[:n]...); err != nil {
					t.Fatalf("AddSetting refused %d options: %v", n, err)
				}
				k.m.Settings = append(k.m.Settings, fm.Setting{Name: "x" + letters(i), Options: list[:n]})
				list = list[n:]
			}
		case 11: // 254 switches
			if len(k.m.Settings) == 0 {
				_, err := k.b.AddSetting("set", "a", "b")
				must(err)
			}
			for i := len(k.m.Switches); i < 253; i++ {
				_, err := k.b.AddSwitch(0)
				must(err)
			}
			hugeSwitches(t, k.b, len(k.m.Settings))
			_, err := k.b.AddSwitch(0)
			must(err)
			if _, err := k.b.AddSwitch(0); err == nil {
				t.Fatalf("more than 254 switches accepted")
			}
		}
	})
	var f *ggfnt.Font
	var err error
	t.NoPanic("Build", func() { f, err = k.b.Build() })
	if err != nil {
		if !over {
			t.Fatalf("Build fails at the limits of %s: %v", what, err)
		}
		return
	}
	if mustFail {
		t.Fatalf("Build succeeds over the limits of %s", what)
	}
	t.Nontrivial()
	data := raw(t, f)
	back := fm.MustParse(t, fm.Wrap(data))
	if kind == 10 {
		fm.CheckSettings(t, back, &fm.Font{Settings: k.m.Settings})
	}
	if back.Glyphs().Count() != uint16(k.b.GetNumGlyphs()) {
		t.Fatalf("%d glyphs built, %d expected", back.Glyphs().Count(), k.b.GetNumGlyphs())
	}
}

// hugeSwitches tries switches whose numbers of cases exceed what integers can count.
func hugeSwitches(t *pbt.T, b *builder.Font, n int) {
	bits := t.Int(1, 3)
	if 255-n < 64/bits { // this few settings take more options
		bits = 3
	}
	opts := []string{"a", "b", "c", "d", "e", "f", "g", "h"}[:1<<bits]
	if t.Prob(20) {
		opts = opts[:len(opts)-t.Int(0, 1)]
	}
	if len(opts) == 1 {
		opts = append(opts, "b")
	}
	var keys []ggfnt.SettingKey
	for key := ggfnt.SettingKey(n); key < 254; n++ {
		var err error
		key, err = b.AddSetting("huge-"+letters(n), opts...)
		if err != nil {
			t.Fatalf("AddSetting refused setting %d: %v", n, err)
		}
		keys = append(keys, key)
	}
	for _, c := range []int{8, 16, 21, 22, 24, 31, 32, 33, 48, 62, 63, 64, 65, 85, 96, 128, len(keys)} {
		if c > len(keys) {
			continue
		}
		if _, err := b.AddSwitch(keys[len(keys)-c:]...); err == nil {
			t.Fatalf("a switch over %d settings of %d options was accepted", c, len(opts))
		}
	}
}

const maxUint24 = 1<<24 - 1

// exactLimits fills a section to the last byte, or to one byte more.
func exactLimits(t *pbt.T, kind int, over bool) {
	what := limitKinds[kind]
	t.Label("limits: " + what)
	t.Logf("%s, one byte over: %v", what, over)
	t.Nontrivial()
	must := func(err error) {
		if err != nil {
			t.Fatalf("refused below the limit: %v", err)
		}
	}
	limit := maxUint24
	if over {
		limit++
	}
	b := builder.New()
	empty := image.NewAlpha(image.Rect(0, 0, 0, 0))
	add := func(m *image.Alpha) uint64 {
		uid, err := b.AddGlyph(m)
		must(err)
		return uid
	}
	ruleSize := func(body, out int) int { return 5 + 2*out + (body+14)/15 + 2*body + 2 }
	rules := func(uid uint64, total int) {
		uids := slices.Repeat([]uint64{uid}, 255)
		rule := func(body, out int) { must(b.AddGlyphRewriteRule(0, uint8(body), 0, uids[:body], uids[:out]...)) }
		big := ruleSize(255, 255)
		for ; total > 3*big; total -= big {
			rule(255, 255)
		}
		for body := 255; body > 0; body-- { // the rest: two full rules, two smaller ones
			for out := body; out > 0; out-- {
				rest := total - big - ruleSize(body, out)
				body2 := min(255, (rest-9)/2)
				for ; body2 > 0; body2-- {
					out2 := rest - ruleSize(body2, 0)
					if out2%2 == 0 && out2 >= 2 && out2/2 <= body2 {
						rule(255, 255)
						rule(body, out)
						rule(body2, out2/2)
						return
					}
				}
			}
		}
		panic("no rules of that size")
	}
	mappings := func(total int) int {
		for i := 0; i < 6; i++ {
			add(empty)
		}
		var uids []uint64
		for i := 0; i < 6; i++ {
			uids = append(uids, add(empty))
		}
		opts := make([]string, 254)
		for i := range opts {
			opts[i] = fmt.Sprintf("o%d", i)
		}
		key, err := b.AddSetting("set", opts...)
		must(err)
		sw, err := b.AddSwitch(key)
		must(err)
		cases := slices.Repeat([]uint64{uids[0]}, 254)
		c := rune(' ')
		for ; total > 3000 || total%3 != 0; total -= 763 { // a switch of 254 single glyphs
			must(b.MapWithSwitchSingles(c, sw, cases...))
			c++
		}
		for ; total > 0; total -= 3 {
			must(b.Map(c, uids[1]))
			c++
		}
		return int(c) - ' '
	}
	check := func(*ggfnt.Font) {}
	t.NoPanic("adding", func() {
		switch kind {
		case 12:
			b.SetAscent(255)
			b.SetUppercaseAscent(255)
			m := image.NewAlpha(image.Rect(0, -255, 255, 0))
			for i := range m.Pix {
				m.Pix[i] = uint8(i*i%251) | 1
			}
			var enc mask.Encoder
			size := len(enc.AppendRasterOps(nil, m)) + 1
			left := limit
			for ; left >= size; left -= size {
				add(m)
			}
			small := m.SubImage(image.Rect(0, -60, 60, 0)).(*image.Alpha)
			size = len(enc.AppendRasterOps(nil, small)) + 1
			for ; left >= size; left -= size {
				add(small)
			}
			for ; left > 0; left-- {
				add(empty)
			}
		case 13:
			mappings(limit)
		case 14:
			rules(add(empty), limit)
		case 15:
			uid := add(empty)
			n := mappings(16710000)
			rules(uid, 16620000)
			must(b.SetAbout(""))
			f, err := b.Build()
			must(err)
			left := ggfnt.MaxFontDataSize - f.RawSize()
			if over {
				left++
			}
			t.Logf("%d mappings, %d bytes left for the description", n, left)
			must(b.SetAbout(strings.Repeat("x", left)))
		case 16: // as many pairs as fit in a font, or too many for their count
			n, total := 2600, 6_600_000
			if over {
				n, total = 4097, 1<<24
			}
			uids := make([]uint64, n)
			for i := range uids {
				uids[i] = add(empty)
			}
			for i := 0; i < total; i++ {
				b.SetKerningPair(uids[i/n], uids[i%n], int8(i%127)+1)
			}
			check = func(f *ggfnt.Font) {
				kern := f.Kerning()
				for i := 0; i < n*n; i += 1 + i%1009 {
					want := int8(0)
					if i < total {
						want = int8(i%127) + 1
					}
					if got := kern.Get(ggfnt.GlyphIndex(i/n), ggfnt.GlyphIndex(i%n)); got != want {
						t.Fatalf("kerning of %d and %d is %d, want %d", i/n, i%n, got, want)
					}
				}
				if kern.NumPairs() != uint32(total) {
					t.Fatalf("%d pairs, want %d", kern.NumPairs(), total)
				}
			}
		}
	})
	var f *ggfnt.Font
	var err error
	t.NoPanic("Build", func() { f, err = b.Build() })
	if (err == nil) == over {
		t.Fatalf("%s, one byte over: %v. Build says: %v", what, over, err)
	}
	if err == nil {
		data := raw(t, f)
		if back := fm.MustParse(t, fm.Wrap(data)); back.RawSize() != len(data) {
			t.Fatalf("RawSize %d after parsing, %d before", back.RawSize(), len(data))
		} else {
			check(back)
		}
	}
}

// letters makes a name out of a number.
func letters(i int) string {
	s := string(rune('a' + i%26))
	for i /= 26; i > 0; i /= 26 {
		s += string(rune('a' + i%26))
	}
	return s
}
