package fm

import (
	"fmt"
	"image"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// Built is a builder filled from a model.
type Built struct {
	B         *builder.Font
	UIDs      []uint64 // glyph UIDs by glyph index
	GlyphSets []uint64
}

// CloneMask copies a mask.
func CloneMask(m *image.Alpha) *image.Alpha {
	c := *m
	c.Pix = append([]uint8(nil), m.Pix...)
	return &c
}

// ViaBuilder feeds the model to a new builder through its public API. Every
// call must be accepted. The model's ID is set to the builder's.
func ViaBuilder(t *pbt.T, m *Font) *Built {
	b := builder.New()
	r := &Built{B: b}
	m.ID = b.GetFontID()
	ok := func(what string, err error) {
		if err != nil {
			t.Fatalf("builder refused valid input: %s: %v", what, err)
		}
	}
	FillHeader(t, b, m)
	FillMetrics(t, b, &m.M)

	// dyes and palettes (each list keeps its own order)
	for _, d := range m.Dyes {
		if len(m.Dyes) == 1 && len(m.Palettes) == 0 && d.Name == "main" && len(d.Alphas) == 1 && d.Alphas[0] == 255 {
			break // left for the builder to add
		}
		ok("AddDye", b.AddDye(d.Name, d.Alphas...))
	}
	for _, p := range m.Palettes {
		ok("AddPalette", b.AddPalette(p.Name, p.Colors...))
	}
	for i := range m.Glyphs {
		g := &m.Glyphs[i]
		uid, err := b.AddGlyph(CloneMask(g.Mask))
		ok(fmt.Sprintf("AddGlyph %d", i), err)
		r.UIDs = append(r.UIDs, uid)
		ok("SetGlyphPlacement", b.SetGlyphPlacement(uid, g.Placement))
		if g.Name != "" {
			ok("SetGlyphName", b.SetGlyphName(uid, g.Name))
		}
	}
	for i, s := range m.Settings {
		key, err := b.AddSetting(s.Name, append([]string(nil), s.Options...)...)
		ok("AddSetting "+s.Name, err)
		if int(key) != i {
			t.Fatalf("AddSetting returned key %d for setting %d", key, i)
		}
	}
	for i, s := range m.Switches {
		keys := make([]ggfnt.SettingKey, len(s))
		for j := range s {
			keys[j] = ggfnt.SettingKey(s[j])
		}
		key, err := b.AddSwitch(keys...)
		ok("AddSwitch", err)
		if int(key) != i {
			t.Fatalf("AddSwitch returned key %d for switch %d", key, i)
		}
	}
	for i := range m.Mappings {
		MapVia(t, b, r.UIDs, &m.Mappings[i])
	}
	for i := range m.GlyphSets {
		uid, err := b.CreateGlyphSet()
		ok("CreateGlyphSet", err)
		r.GlyphSets = append(r.GlyphSets, uid)
		for _, rg := range m.GlyphSets[i].Ranges {
			ok("AddGlyphSetRange", b.AddGlyphSetRange(uid, r.UIDs[rg[0]], r.UIDs[rg[1]]))
		}
		for _, v := range m.GlyphSets[i].List {
			ok("AddGlyphSetListGlyph", b.AddGlyphSetListGlyph(uid, r.UIDs[v]))
		}
	}
	for i := range m.Utf8Rules {
		rule := &m.Utf8Rules[i]
		seq := make([]rune, len(rule.Body))
		for j := range seq {
			seq[j] = rune(rule.Body[j].V)
		}
		ok("AddSimpleUtf8RewriteRule", b.AddSimpleUtf8RewriteRule(rune(rule.Out[0]), seq...))
	}
	for i := range m.GlyphRules {
		rule := &m.GlyphRules[i]
		in, out := r.RuleArgs(rule)
		ok("AddGlyphRewriteRule", b.AddGlyphRewriteRule(uint8(len(rule.Head)), uint8(len(rule.Body)), uint8(len(rule.Tail)), in, out...))
	}
	for _, k := range m.HorzKern {
		b.SetKerningPair(r.UIDs[k.A], r.UIDs[k.B], k.V)
	}
	return r
}

// RuleArgs translates a glyph rule to builder arguments.
func (r *Built) RuleArgs(rule *Rule) (in, out []uint64) {
	for _, e := range rule.In() {
		if e.IsSet {
			in = append(in, r.GlyphSets[e.V])
		} else {
			in = append(in, r.UIDs[e.V])
		}
	}
	for _, v := range rule.Out {
		out = append(out, r.UIDs[v])
	}
	return
}

// FillHeader sets the header fields through the builder.
func FillHeader(t *pbt.T, b *builder.Font, m *Font) {
	ok := func(what string, err error) {
		if err != nil {
			t.Fatalf("builder refused valid input: %s: %v", what, err)
		}
	}
	b.SetVersion(m.VMajor, m.VMinor)
	ok("SetFirstVerDate", b.SetFirstVerDate(m.Dates[0]))
	ok("SetMajorVerDate", b.SetMajorVerDate(m.Dates[1]))
	ok("SetMinorVerDate", b.SetMinorVerDate(m.Dates[2]))
	ok("SetName", b.SetName(m.Name))
	ok("SetFamily", b.SetFamily(m.Family))
	ok("SetAuthor", b.SetAuthor(m.Author))
	ok("SetAbout", b.SetAbout(m.About))
}

// FillMetrics sets the metrics through the builder.
func FillMetrics(t *pbt.T, b *builder.Font, mt *Metrics) {
	ok := func(what string, err error) {
		if err != nil {
			t.Fatalf("builder refused valid input: %s: %v", what, err)
		}
	}
	b.SetVertLayoutUsed(mt.Vert)
	b.SetMonoWidth(mt.MonoWidth)
	b.SetAscent(mt.Ascent)
	b.SetExtraAscent(mt.ExtraAscent)
	b.SetDescent(mt.Descent)
	b.SetExtraDescent(mt.ExtraDescent)
	b.SetUppercaseAscent(mt.UppercaseAscent)
	b.SetMidlineAscent(mt.MidlineAscent)
	b.SetHorzInterspacing(mt.HorzInterspacing)
	b.SetVertInterspacing(mt.VertInterspacing)
	b.SetLineGap(mt.LineGap)
	if mt.Vert {
		ok("SetVertLineWidth", b.SetVertLineWidth(mt.VertLineWidth))
		ok("SetVertLineGap", b.SetVertLineGap(mt.VertLineGap))
	}
}

// MapVia adds one mapping through the builder.
func MapVia(t *pbt.T, b *builder.Font, uids []uint64, mp *Mapping) {
	group := func(g *Group) []uint64 {
		out := make([]uint64, len(g.Glyphs))
		for i, v := range g.Glyphs {
			out[i] = uids[v]
		}
		return out
	}
	var err error
	switch {
	case mp.Kind == 255:
		err = b.Map(mp.Rune, uids[mp.Cases[0].Glyphs[0]])
	case mp.Kind == 254:
		err = b.MapGroup(mp.Rune, mp.Cases[0].Flags, group(&mp.Cases[0])...)
	default:
		singles := true
		for i := range mp.Cases {
			if len(mp.Cases[i].Glyphs) > 1 {
				singles = false
			}
		}
		if singles && mp.Rune%2 == 0 {
			var gs []uint64
			for i := range mp.Cases {
				gs = append(gs, uids[mp.Cases[i].Glyphs[0]])
			}
			err = b.MapWithSwitchSingles(mp.Rune, mp.Kind, gs...)
		} else {
			var gs [][]uint64
			var flags []ggfnt.AnimationFlags
			for i := range mp.Cases {
				gs = append(gs, group(&mp.Cases[i]))
				if len(mp.Cases[i].Glyphs) > 1 {
					flags = append(flags, mp.Cases[i].Flags)
				}
			}
			err = b.MapWithSwitch(mp.Rune, mp.Kind, gs, flags)
		}
	}
	if err != nil {
		t.Fatalf("builder refused a valid mapping of %q (kind %d): %v", mp.Rune, mp.Kind, err)
	}
}

// Build calls Build and fails the case on a panic or an error.
func (r *Built) Build(t *pbt.T) *ggfnt.Font {
	var f *ggfnt.Font
	var err error
	t.NoPanic("Build", func() { f, err = r.B.Build() })
	if err != nil {
		t.Fatalf("Build failed on a consistent builder: %v", err)
	}
	return f
}
