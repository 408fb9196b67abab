package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"slices"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// machine drives a builder with generated calls, valid and not, next to a
// model of what the builder must hold.
type machine struct {
	t        *pbt.T
	b        *builder.Font
	m        fm.Font // header, metrics, colors, glyphs, settings, switches
	uids     []uint64
	maps     map[rune]fm.Mapping
	gsets    []*mset
	rsets    []*mset
	dead     []uint64 // UIDs of removed sets
	grules   []mrule
	urules   []fm.Rule
	kern     map[[2]uint64]int8
	fonts    []snapshot // fonts built along the way
	scribble bool       // overwrite the slices passed to the builder
	badPct   int        // how many calls are meant to be refused
	bulk     bool       // adding many small sections
	refused  int
	accepted int
	last     string
}

type mset struct {
	uid    uint64
	ranges [][2]uint64 // glyph UIDs or runes
	list   []uint64
}

type mrule struct {
	head, body, tail int
	in, out          []uint64
}

type snapshot struct {
	f        *ggfnt.Font
	dump     string
	raw      []byte
	settings []uint8
	probes   []rune
}

func newMachine(t *pbt.T, badPct int) *machine {
	k := &machine{t: t, maps: map[rune]fm.Mapping{}, kern: map[[2]uint64]int8{}, badPct: badPct}
	t.NoPanic("New", func() { k.b = builder.New() })
	b := k.b
	k.m.ID = b.GetFontID()
	k.m.VMajor, k.m.VMinor = b.GetVersionMajor(), b.GetVersionMinor()
	k.m.Dates = [3]ggfnt.Date{b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()}
	k.m.Name, k.m.Family, k.m.Author, k.m.About = b.GetName(), b.GetFamily(), b.GetAuthor(), b.GetAbout()
	k.m.M = fm.Metrics{
		MonoWidth: b.GetMonoWidth(), Ascent: b.GetAscent(), ExtraAscent: b.GetExtraAscent(), Descent: b.GetDescent(), ExtraDescent: b.GetExtraDescent(),
		UppercaseAscent: b.GetUppercaseAscent(), MidlineAscent: b.GetMidlineAscent(), HorzInterspacing: b.GetHorzInterspacing(),
		VertInterspacing: b.GetVertInterspacing(), LineGap: b.GetLineGap(), VertLineWidth: b.GetVertLineWidth(), VertLineGap: b.GetVertLineGap(),
	}
	return k
}

// call runs one builder call and compares the verdict with the expected one.
func (k *machine) call(what string, ok bool, fn func() error) bool {
	k.last = what
	k.t.Logf("%s (expected ok: %v)", what, ok)
	var err error
	k.t.NoPanic(what, func() { err = fn() })
	if (err == nil) != ok {
		k.t.Fatalf("%s: error %v, expected accepted: %v", what, err, ok)
	}
	if ok {
		k.accepted++
	} else {
		k.refused++
	}
	return ok
}

func scrib[E any](k *machine, s []E, fill E) {
	if k.scribble {
		for i := range s[:cap(s)] {
			s[:cap(s)][i] = fill
		}
	}
}

func (k *machine) bad() bool { return k.t.Prob(k.badPct) }

// unknownUID is an identifier the builder never gave out, or gave out for a
// set that is gone.
func (k *machine) unknownUID() uint64 {
	if len(k.dead) > 0 && k.t.Bool() {
		return pbt.Pick(k.t, k.dead)
	}
	for {
		uid := pbt.Pick(k.t, []uint64{0, 1, ^uint64(0), 56789, k.t.Choice(^uint64(0))})
		if slices.Contains(k.uids, uid) || k.setAt(k.gsets, uid) != nil || k.setAt(k.rsets, uid) != nil {
			continue
		}
		return uid
	}
}

func (k *machine) setAt(sets []*mset, uid uint64) *mset {
	for _, s := range sets {
		if s.uid == uid {
			return s
		}
	}
	return nil
}

// glyph returns a glyph UID, and its index or -1 when it's unknown.
func (k *machine) glyph(bad bool) (uint64, int) {
	if bad || len(k.uids) == 0 {
		return k.unknownUID(), -1
	}
	i := k.t.Int(0, len(k.uids)-1)
	if k.t.Prob(50) {
		i = min(i, 3)
	}
	return k.uids[i], i
}

// --- operations ---

func (k *machine) opHeader() {
	t, b := k.t, k.b
	switch t.Int(0, 7) {
	case 0, 1, 2, 3:
		i := t.Int(0, 3)
		str := fm.GenText(t, 255)
		ok := i != 0 || str != ""
		if k.bad() {
			ok = false
			switch t.Int(0, 2) {
			case 0:
				str += pbt.Pick(t, []string{"\n", "\x00", "\x1f"})
			case 1:
				str += pbt.Pick(t, []string{"\xff", "\xc3", "\xed\xa0\x80"})
			case 2:
				n := 256
				if i == 3 {
					n = 65536
				}
				str = strings.Repeat("x", n+t.Int(0, 1))
			}
		}
		set := []func(string) error{b.SetName, b.SetFamily, b.SetAuthor, b.SetAbout}[i]
		field := []*string{&k.m.Name, &k.m.Family, &k.m.Author, &k.m.About}[i]
		if k.call(fmt.Sprintf("string %d = %.60q (%d bytes)", i, str, len(str)), ok, func() error { return set(str) }) {
			*field = str
		}
	case 4, 5:
		i := t.Int(0, 2)
		d := fm.GenDate(t)
		ok := true
		if k.bad() {
			ok = false
			d = pbt.Pick(t, []ggfnt.Date{{Year: 0, Month: 1}, {Year: 0, Day: 1}, {Year: 2001, Month: 2, Day: 29}, {Year: 2001, Month: 13}, {Year: 2001, Day: 3}, {Year: 1900, Month: 2, Day: 29}, {Year: 2024, Month: 4, Day: 31}})
		}
		set := []func(ggfnt.Date) error{b.SetFirstVerDate, b.SetMajorVerDate, b.SetMinorVerDate}[i]
		if k.call(fmt.Sprintf("date %d = %+v", i, d), ok, func() error { return set(d) }) {
			k.m.Dates[i] = d
		}
	default:
		before := ggfnt.CurrentDate()
		dates := []int{1, 2}
		switch t.Int(0, 2) {
		case 0:
			k.m.VMajor, k.m.VMinor = uint16(t.Size(0, 65535)), uint16(t.Size(0, 65535))
			t.Logf("SetVersion(%d, %d)", k.m.VMajor, k.m.VMinor)
			b.SetVersion(k.m.VMajor, k.m.VMinor)
		case 1:
			if k.m.VMajor == 65535 {
				return
			}
			t.Logf("RaiseMajorVersion")
			b.RaiseMajorVersion()
			k.m.VMajor, k.m.VMinor = k.m.VMajor+1, 0
		case 2:
			if k.m.VMinor == 65535 {
				return
			}
			t.Logf("RaiseMinorVersion")
			b.RaiseMinorVersion()
			k.m.VMinor++
			dates = dates[1:]
		}
		after := ggfnt.CurrentDate()
		for _, i := range dates {
			got := []ggfnt.Date{b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()}[i]
			if got != before && got != after {
				t.Fatalf("changing the version sets date %d to %v, today is %v", i, got, after)
			}
			k.m.Dates[i] = got
		}
	}
}

func (k *machine) opMetrics() {
	t, b, w := k.t, k.b, &k.m.M
	v := uint8(t.Size(0, 12))
	if t.Prob(8) {
		v = t.Byte()
	}
	set := func(name string, field *uint8, fn func(uint8)) {
		t.Logf("%s(%d)", name, v)
		t.NoPanic(name, func() { fn(v) })
		*field = v
	}
	switch t.Int(0, 12) {
	case 0:
		w.Vert = t.Bool()
		t.Logf("SetVertLayoutUsed(%v)", w.Vert)
		b.SetVertLayoutUsed(w.Vert)
	case 1:
		set("SetMonoWidth", &w.MonoWidth, b.SetMonoWidth)
	case 2:
		set("SetAscent", &w.Ascent, b.SetAscent)
	case 3:
		set("SetExtraAscent", &w.ExtraAscent, b.SetExtraAscent)
	case 4:
		set("SetDescent", &w.Descent, b.SetDescent)
	case 5:
		set("SetExtraDescent", &w.ExtraDescent, b.SetExtraDescent)
	case 6:
		set("SetUppercaseAscent", &w.UppercaseAscent, b.SetUppercaseAscent)
	case 7:
		set("SetMidlineAscent", &w.MidlineAscent, b.SetMidlineAscent)
	case 8:
		set("SetHorzInterspacing", &w.HorzInterspacing, b.SetHorzInterspacing)
	case 9:
		set("SetVertInterspacing", &w.VertInterspacing, b.SetVertInterspacing)
	case 10:
		set("SetLineGap", &w.LineGap, b.SetLineGap)
	case 11:
		ok := (v != 0) == w.Vert
		if k.call(fmt.Sprintf("SetVertLineWidth(%d), vert %v", v, w.Vert), ok, func() error { return b.SetVertLineWidth(v) }) {
			w.VertLineWidth = v
		}
	case 12:
		ok := v == 0 || w.Vert
		if k.call(fmt.Sprintf("SetVertLineGap(%d), vert %v", v, w.Vert), ok, func() error { return b.SetVertLineGap(v) }) {
			w.VertLineGap = v
		}
	}
}

// tidyMetrics makes the metrics consistent again.
func (k *machine) tidyMetrics() {
	k.t.Logf("consistent metrics")
	mt := fm.GenMetrics(k.t)
	if !mt.Vert { // drop what depends on the vertical layout first
		k.b.SetVertLayoutUsed(true)
		k.b.SetVertLayoutUsed(false)
		if err := errors.Join(k.b.SetVertLineWidth(0), k.b.SetVertLineGap(0)); err != nil {
			k.t.Fatalf("zeroing the vertical line metrics: %v", err)
		}
	}
	fm.FillMetrics(k.t, k.b, &mt)
	k.m.M = mt
}

// metricsOK is the consistency the builder requires.
func metricsOK(w *fm.Metrics) bool {
	if w.Ascent == 0 || w.ExtraAscent >= w.Ascent || w.MidlineAscent > w.Ascent || w.UppercaseAscent > w.Ascent || w.MidlineAscent > w.UppercaseAscent {
		return false
	}
	return w.Vert || w.VertInterspacing == 0 && w.VertLineWidth == 0 && w.VertLineGap == 0
}

func (k *machine) opColor() {
	t := k.t
	used := 0
	names := map[string]bool{}
	var existing []string
	for _, d := range k.m.Dyes {
		used += len(d.Alphas)
		names[d.Name] = true
		existing = append(existing, d.Name)
	}
	for _, p := range k.m.Palettes {
		used += len(p.Colors)
		names[p.Name] = true
		existing = append(existing, p.Name)
	}
	name := fm.GenText(t, 30)
	if t.Prob(5) {
		name = strings.Repeat("n", 255)
	}
	n := t.Size(1, 12)
	if k.bulk {
		n = 1 + t.Int(0, 255)/200
		if t.Prob(3) {
			n = 256 - used // one too many
		}
	}
	if t.Prob(4) {
		n = 255 - used
	}
	if k.bad() {
		switch t.Int(0, 4) {
		case 0:
			name = ""
		case 1:
			if len(existing) > 0 {
				name = pbt.Pick(t, existing)
			}
		case 2:
			name = strings.Repeat("n", pbt.Pick(t, []int{256, t.Int(256, 260), 512, 513, 65537}))
		case 3:
			n = 0
		case 4:
			n = 256 - used + t.Int(0, 2)
			if t.Bool() {
				n = pbt.Pick(t, []int{256, 257, 512, 513, 65536})
			}
		}
	}
	ok := name != "" && len(name) <= 255 && !names[name] && n >= 1 && used+n <= 255
	n = max(n, 0)
	if t.Bool() {
		alphas := make([]uint8, n)
		for i := range alphas {
			alphas[i] = t.Byte()
		}
		want := slices.Clone(alphas)
		if k.call(fmt.Sprintf("AddDye(%.40q, %d alphas)", name, n), ok, func() error { return k.b.AddDye(name, alphas...) }) {
			k.m.Dyes = append(k.m.Dyes, fm.Dye{Name: name, Alphas: want})
		}
		scrib(k, alphas, 77)
	} else {
		colors := make([]color.RGBA, n)
		for i := range colors {
			colors[i] = color.RGBA{t.Byte(), uint8(i), t.Byte(), 255}
		}
		want := slices.Clone(colors)
		if k.call(fmt.Sprintf("AddPalette(%.40q, %d colors)", name, n), ok, func() error { return k.b.AddPalette(name, colors...) }) {
			k.m.Palettes = append(k.m.Palettes, fm.Palette{Name: name, Colors: want})
		}
		scrib(k, colors, color.RGBA{7, 7, 7, 7})
	}
}

func (k *machine) opGlyph() {
	t, w := k.t, &k.m.M
	if len(k.uids) > 0 && t.Prob(50) {
		bad := k.bad()
		badName := bad && t.Bool()
		uid, i := k.glyph(bad && !badName)
		g := &fm.Glyph{}
		if i >= 0 {
			g = &k.m.Glyphs[i]
		}
		if badName || t.Bool() {
			name := fm.GenBasicName(t)
			if badName {
				name = pbt.Pick(t, []string{"", "-" + name, name + "-", "a--b", "a b", "é", strings.Repeat("a", 33), "a_b", "x\x00"})
			} else if t.Prob(60) {
				name = fmt.Sprintf("%s%d", name[:min(len(name), 20)], len(k.uids)+i)
				name = strings.ReplaceAll(name, "--", "-")
			}
			if !badName && t.Prob(5) { // a repeated name, which makes Build fail
				if g := pbt.Pick(t, k.m.Glyphs); g.Name != "" {
					name = g.Name
				}
			}
			ok := i >= 0 && !badName
			if k.call(fmt.Sprintf("SetGlyphName(glyph %d, %q)", i, name), ok, func() error { return k.b.SetGlyphName(uid, name) }) {
				g.Name = name
			}
		} else {
			p := ggfnt.GlyphPlacement{Advance: t.Byte(), TopAdvance: t.Byte(), BottomAdvance: t.Byte(), HorzCenter: t.Byte()}
			if k.call(fmt.Sprintf("SetGlyphPlacement(glyph %d, %v)", i, p), i >= 0, func() error { return k.b.SetGlyphPlacement(uid, p) }) {
				g.Placement = p
			}
		}
		return
	}
	x0, x1 := -3, 12
	top, bottom := int(w.Ascent)+int(w.ExtraAscent), int(w.Descent)+int(w.ExtraDescent)
	if w.MonoWidth != 0 {
		x0, x1 = 0, int(w.MonoWidth)
	}
	if k.bad() { // anywhere, most likely outside
		x0, x1, top, bottom = x0-t.Int(0, 2), x1+t.Int(0, 2), top+t.Int(0, 2), bottom+t.Int(0, 2)
	}
	mask := fm.GenMask(t, x0, -top, x1, bottom, 14)
	if t.Prob(30) { // the bounds may exceed the metrics when what's drawn doesn't
		big := image.NewAlpha(mask.Rect.Inset(-t.Int(1, 3)))
		for y := mask.Rect.Min.Y; y < mask.Rect.Max.Y; y++ {
			for x := mask.Rect.Min.X; x < mask.Rect.Max.X; x++ {
				big.SetAlpha(x, y, mask.AlphaAt(x, y))
			}
		}
		mask = big
		if t.Bool() {
			mask = big.SubImage(big.Rect.Inset(t.Int(0, 1))).(*image.Alpha)
		}
	}
	r := fm.TightRect(mask)
	ok := r.Empty() || -r.Min.Y <= int(w.Ascent)+int(w.ExtraAscent) && r.Max.Y <= int(w.Descent)+int(w.ExtraDescent) &&
		(w.MonoWidth == 0 || r.Min.X >= 0 && r.Max.X <= int(w.MonoWidth))
	keep := fm.CloneMask(mask)
	var uid uint64
	if k.call(fmt.Sprintf("AddGlyph(%v, drawn %v)", mask.Rect, r), ok, func() (err error) { uid, err = k.b.AddGlyph(mask); return }) {
		if slices.Contains(k.uids, uid) {
			t.Fatalf("AddGlyph returned the UID of another glyph")
		}
		k.uids = append(k.uids, uid)
		dx := keep.Rect.Dx()
		k.m.Glyphs = append(k.m.Glyphs, fm.Glyph{Mask: keep, Placement: ggfnt.GlyphPlacement{
			Advance: uint8(min(255, dx)), TopAdvance: w.Ascent, BottomAdvance: w.Descent, HorzCenter: uint8(min(255, dx/2))}})
	}
	scrib(k, mask.Pix, 99)
}

func (k *machine) addEmptyGlyph() {
	var uid uint64
	mask := image.NewAlpha(image.Rect(0, 0, 0, 0))
	if k.call("AddGlyph(empty)", true, func() (err error) { uid, err = k.b.AddGlyph(mask); return }) {
		if slices.Contains(k.uids, uid) {
			k.t.Fatalf("AddGlyph returned the UID of another glyph")
		}
		k.uids = append(k.uids, uid)
		k.m.Glyphs = append(k.m.Glyphs, fm.Glyph{Mask: mask, Placement: ggfnt.GlyphPlacement{TopAdvance: k.m.M.Ascent, BottomAdvance: k.m.M.Descent}})
	}
}

func (k *machine) opSetting() {
	t := k.t
	if len(k.m.Settings) > 0 && !k.bulk && t.Prob(40) {
		k.opSwitch()
		return
	}
	name := fm.GenBasicName(t)
	if k.bulk && t.Prob(60) {
		name = fmt.Sprintf("s-%d", len(k.m.Settings))
	}
	if k.bulk && len(k.m.Settings) > 0 && t.Prob(10) {
		name = pbt.Pick(t, k.m.Settings).Name
	}
	options := make([]string, t.Size(1, 6), 8)
	if t.Prob(3) {
		options = make([]string, pbt.Pick(t, []int{127, 128, 254, 255}))
	}
	pool := []string{"on", "off", "auto", "undefined", "low", "high", "75", "100"}
	many := len(options) > 10
	for i := range options {
		switch {
		case many && !t.Prob(1):
			options[i] = pool[i%len(pool)]
			if t.Prob(60) {
				options[i] = fmt.Sprintf("o%d", i)
			}
		case t.Bool():
			options[i] = pbt.Pick(t, pool)
		default:
			options[i] = fm.GenBasicName(t)
		}
	}
	if k.bad() {
		switch t.Int(0, 4) {
		case 0:
			name = pbt.Pick(t, []string{"", "-", "a-", "a--b", "a b", strings.Repeat("q", 33)})
		case 1:
			options[t.Int(0, len(options)-1)] = pbt.Pick(t, []string{"", "-", "a-", "a--b", "a b", strings.Repeat("q", 33)})
		case 2:
			options = options[:0]
		case 3:
			options = slices.Repeat([]string{"x"}, 256+t.Int(0, 3))
		case 4:
			if len(k.m.Settings) > 0 {
				name = pbt.Pick(t, k.m.Settings).Name
			}
		}
	}
	ok := fm.IsBasicName(name) && len(options) >= 1 && len(options) <= 255 && len(k.m.Settings) < 255
	for _, s := range k.m.Settings {
		ok = ok && s.Name != name
	}
	for _, o := range options {
		ok = ok && (fm.IsBasicName(o) || isPredefined(o))
	}
	want := slices.Clone(options)
	var key ggfnt.SettingKey
	if k.call(fmt.Sprintf("AddSetting(%q, %d options %.80q)", name, len(options), options), ok, func() (err error) { key, err = k.b.AddSetting(name, options...); return }) {
		if int(key) != len(k.m.Settings) {
			t.Fatalf("AddSetting returned key %d for setting %d", key, len(k.m.Settings))
		}
		k.m.Settings = append(k.m.Settings, fm.Setting{Name: name, Options: want})
	}
	scrib(k, options, "scribbled")
}

func (k *machine) opSwitch() {
	t := k.t
	n := len(k.m.Settings)
	keys := make([]ggfnt.SettingKey, 0, 8)
	for i, c := 0, t.Size(1, 4); i < c; i++ {
		key := ggfnt.SettingKey(t.Int(0, n-1))
		if !slices.Contains(keys, key) {
			keys = append(keys, key)
		}
	}
	if k.bad() {
		switch t.Int(0, 3) {
		case 0:
			keys = keys[:0]
		case 1:
			keys = append(keys, keys[0])
		case 2:
			keys = append(keys, ggfnt.SettingKey(n+t.Int(0, 2)))
			if t.Bool() {
				keys[0], keys[len(keys)-1] = keys[len(keys)-1], keys[0]
			}
		case 3: // too many cases, if the settings allow it
			for i := 0; i < n; i++ {
				if !slices.Contains(keys, ggfnt.SettingKey(i)) {
					keys = append(keys, ggfnt.SettingKey(i))
				}
			}
		}
	}
	ok := len(keys) > 0 && len(k.m.Switches) < 254
	cases := 1
	var want []uint8
	for i, key := range keys {
		if int(key) >= n || slices.Contains(keys[:i], key) {
			ok = false
			break
		}
		if cases <= 254 {
			cases *= len(k.m.Settings[key].Options)
		}
		want = append(want, uint8(key))
	}
	ok = ok && cases <= 254
	var sw uint8
	if k.call(fmt.Sprintf("AddSwitch(%v)", keys), ok, func() (err error) { sw, err = k.b.AddSwitch(keys...); return }) {
		if int(sw) != len(k.m.Switches) {
			t.Fatalf("AddSwitch returned key %d for switch %d", sw, len(k.m.Switches))
		}
		k.m.Switches = append(k.m.Switches, want)
	}
	scrib(k, keys, 99)
}

// group generates a glyph group. The glyph list is nil when it has unknown
// glyphs.
func (k *machine) group(lo, hi int, bad bool) ([]uint64, []uint16) {
	n := lo
	if hi > lo {
		n = min(hi, lo+k.t.Size(0, hi-lo))
	}
	badAt := -1
	if bad {
		badAt = k.t.Int(0, max(0, n-1))
	}
	uids, idx := make([]uint64, n), make([]uint16, n)
	if len(k.uids) == 0 {
		badAt = 0
	}
	seq := k.t.Bool()
	prev := -1
	for i := range uids {
		uid, at := k.glyph(i == badAt)
		if i != badAt && seq && prev >= 0 && prev+1 < len(k.uids) {
			at = prev + 1
			uid = k.uids[at]
		}
		if i == badAt {
			uids[i] = uid
			continue
		}
		prev = at
		uids[i], idx[i] = uid, uint16(at)
	}
	if badAt >= 0 && n > 0 {
		return uids, nil
	}
	return uids, idx
}

func (k *machine) opMap() {
	t := k.t
	r := fm.GenRune(t)
	bad := k.bad()
	badKind := -1
	if bad {
		badKind = t.Int(0, 4)
	}
	ok := true
	if badKind == 0 {
		r = pbt.Pick(t, []rune{31, 0, -1, -65, 10, -0x80000000})
		ok = false
	}
	mp := fm.Mapping{Rune: r, Kind: 255}
	commit := func(what string, fn func() error) {
		if k.call(what, ok, fn) {
			k.maps[r] = mp
		}
	}
	switch w := t.Weighted(4, 3, 4); {
	case w == 0:
		uids, idx := k.group(1, 1, badKind == 1)
		ok = ok && idx != nil
		mp.Cases = []fm.Group{{Glyphs: idx}}
		commit(fmt.Sprintf("Map(%q, glyph %v)", r, idx), func() error { return k.b.Map(r, uids[0]) })
	case w == 1:
		mp.Kind = 254
		lo, hi := 2, 8
		if t.Prob(3) {
			lo = t.Int(120, 127)
			hi = lo
		}
		if badKind == 2 {
			lo = pbt.Pick(t, []int{0, 1, 129, 200, 256, 257, 258, 384, 512})
			hi = lo
			ok = false
		}
		uids, idx := k.group(lo, hi, badKind == 1)
		ok = ok && idx != nil
		flags := ggfnt.AnimationFlags(t.Byte())
		mp.Cases = []fm.Group{{Glyphs: idx, Flags: flags}}
		commit(fmt.Sprintf("MapGroup(%q, %d, glyphs %v)", r, flags, idx), func() error { return k.b.MapGroup(r, flags, uids...) })
		scrib(k, uids, 1)
	case len(k.m.Switches) == 0 || badKind == 3:
		sw := uint8(min(253, len(k.m.Switches)+t.Int(0, 3)))
		if int(sw) < len(k.m.Switches) {
			return
		}
		uids, idx := k.group(2, 2, false)
		ok = false
		if t.Bool() {
			commit(fmt.Sprintf("MapWithSwitchSingles(%q, switch %d (undefined), glyphs %v)", r, sw, idx), func() error { return k.b.MapWithSwitchSingles(r, sw, uids...) })
		} else {
			commit(fmt.Sprintf("MapWithSwitch(%q, switch %d (undefined))", r, sw), func() error { return k.b.MapWithSwitch(r, sw, [][]uint64{uids[:1], uids[1:]}, nil) })
		}
	default:
		sw := uint8(t.Int(0, len(k.m.Switches)-1))
		mp.Kind = sw
		n := k.m.NumCases(sw)
		if badKind == 2 {
			n = max(1, n+pbt.Pick(t, []int{-1, 1, 2}))
			ok = n == k.m.NumCases(sw) && ok
		}
		badAt := -1
		if badKind == 1 {
			badAt = t.Int(0, n-1)
		}
		if t.Bool() {
			var all []uint64
			for i := 0; i < n; i++ {
				uids, idx := k.group(1, 1, i == badAt)
				ok = ok && idx != nil
				all = append(all, uids...)
				mp.Cases = append(mp.Cases, fm.Group{Glyphs: idx})
			}
			commit(fmt.Sprintf("MapWithSwitchSingles(%q, switch %d, %v)", r, sw, mp.Cases), func() error { return k.b.MapWithSwitchSingles(r, sw, all...) })
			scrib(k, all, 1)
			return
		}
		var all [][]uint64
		var flags []ggfnt.AnimationFlags
		for i := 0; i < n; i++ {
			size := 1
			if t.Prob(40) {
				size = t.Int(2, 5)
			}
			if t.Prob(1) {
				size = t.Int(120, 127)
			}
			if badKind == 2 && t.Prob(30) {
				size = pbt.Pick(t, []int{t.Int(129, 140), 256, 257, 259, 384})
				ok = false
			}
			uids, idx := k.group(size, size, i == badAt)
			ok = ok && idx != nil
			g := fm.Group{Glyphs: idx}
			if size > 1 {
				g.Flags = ggfnt.AnimationFlags(t.Byte())
				flags = append(flags, g.Flags)
			}
			all = append(all, uids)
			mp.Cases = append(mp.Cases, g)
		}
		if badKind == 4 {
			if len(flags) > 0 && t.Bool() {
				flags = flags[:len(flags)-1]
			} else {
				flags = append(flags, 3)
			}
			ok = false
		}
		commit(fmt.Sprintf("MapWithSwitch(%q, switch %d, %v, flags %v)", r, sw, mp.Cases, flags), func() error { return k.b.MapWithSwitch(r, sw, all, flags) })
		for i := range all {
			scrib(k, all[i], 1)
		}
		scrib(k, all, nil)
		scrib(k, flags, 85)
	}
}

func (k *machine) opKern() {
	t := k.t
	bad := k.bad() && t.Prob(10)
	a, ai := k.glyph(bad && t.Bool())
	b, bi := k.glyph(bad)
	if (ai < 0 || bi < 0) && !bad {
		return
	}
	if len(k.kern) > 0 && t.Prob(30) { // an existing pair
		for i, key := range k.sortedKern() {
			if i == 0 || t.Bool() {
				a, b = key[0], key[1]
			}
		}
	}
	v := int8(t.Byte())
	if t.Prob(25) {
		v = 0
	}
	t.Logf("SetKerningPair(glyph %d, glyph %d, %d)", slices.Index(k.uids, a), slices.Index(k.uids, b), v)
	t.NoPanic("SetKerningPair", func() { k.b.SetKerningPair(a, b, v) })
	if v == 0 {
		delete(k.kern, [2]uint64{a, b})
	} else {
		k.kern[[2]uint64{a, b}] = v
	}
}

// sortedKern lists the pairs in an order that doesn't depend on the UIDs.
func (k *machine) sortedKern() [][2]uint64 {
	var keys [][2]uint64
	for key := range k.kern {
		keys = append(keys, key)
	}
	pos := func(u uint64) int {
		if i := slices.Index(k.uids, u); i >= 0 {
			return i
		}
		return 1 << 20
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		for c := 0; c < 2; c++ {
			if pos(a[c]) != pos(b[c]) {
				return pos(a[c]) < pos(b[c])
			}
		}
		return a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
	})
	return keys
}

// dropUnknownKern removes the pairs with unknown glyphs.
func (k *machine) dropUnknownKern() {
	for key := range k.kern {
		if !slices.Contains(k.uids, key[0]) || !slices.Contains(k.uids, key[1]) {
			k.b.SetKerningPair(key[0], key[1], 0)
			delete(k.kern, key)
		}
	}
}

func (k *machine) opGlyphSet() {
	t := k.t
	var s *mset
	uid := uint64(0)
	if len(k.gsets) > 0 {
		s = pbt.Pick(t, k.gsets)
		uid = s.uid
	}
	bad := k.bad()
	badKind := -1
	if bad {
		badKind = t.Int(0, 3)
	}
	if badKind == 0 || s == nil {
		s, uid = nil, k.unknownUID()
	}
	idx := func(uids ...uint64) (out []int) {
		for _, u := range uids {
			out = append(out, slices.Index(k.uids, u))
		}
		return
	}
	which := slices.Index(k.gsets, s)
	if s == nil {
		which = -1
	}
	weights := []int{3, 1, 4, 2, 4, 2}
	if k.bulk {
		weights = []int{100, 3, 1, 0, 1, 0}
	}
	switch t.Weighted(weights...) {
	case 0:
		if len(k.gsets) > 3 && !k.bulk && t.Prob(70) {
			return
		}
		if k.call("CreateGlyphSet", len(k.gsets) < 255, func() (err error) { uid, err = k.b.CreateGlyphSet(); return }) {
			if k.setAt(k.gsets, uid) != nil || k.setAt(k.rsets, uid) != nil {
				t.Fatalf("CreateGlyphSet returned the UID of another set")
			}
			k.gsets = append(k.gsets, &mset{uid: uid})
		}
	case 1:
		k.flag(fmt.Sprintf("RemoveGlyphSet(set %d)", which), s != nil, func() bool { return k.b.RemoveGlyphSet(uid) })
		if s != nil {
			k.gsets = slices.Delete(k.gsets, which, which+1)
			k.dead = append(k.dead, uid)
		}
	case 2:
		a, ai := k.glyph(badKind == 1)
		b, bi := k.glyph(badKind == 2)
		if ai >= 0 && bi >= 0 && ai > bi && !t.Prob(10) {
			a, b, ai, bi = b, a, bi, ai
		}
		if len(k.uids) > 257 && ai >= 0 && bi >= 0 && t.Prob(30) {
			ai = t.Int(0, len(k.uids)-258)
			bi = ai + t.Int(254, 257)
			if t.Prob(10) {
				ai, bi = bi, ai
			}
			a, b = k.uids[ai], k.uids[bi]
		}
		if badKind == 3 && s != nil && len(s.ranges) > 0 {
			r := pbt.Pick(t, s.ranges)
			a, b = r[0], r[1]
		}
		ok := s != nil && ai >= 0 && bi >= 0 && len(s.ranges) < 255 && !slices.Contains(s.ranges, [2]uint64{a, b})
		if k.call(fmt.Sprintf("AddGlyphSetRange(set %d, glyphs %v)", which, idx(a, b)), ok, func() error { return k.b.AddGlyphSetRange(uid, a, b) }) {
			s.ranges = append(s.ranges, [2]uint64{a, b})
		}
	case 3:
		a, _ := k.glyph(badKind == 1)
		b, _ := k.glyph(badKind == 2)
		at := -1
		if s != nil && len(s.ranges) > 0 && !bad {
			at = t.Int(0, len(s.ranges)-1)
			a, b = s.ranges[at][0], s.ranges[at][1]
		} else if s != nil {
			at = slices.Index(s.ranges, [2]uint64{a, b})
		}
		k.flag(fmt.Sprintf("RemoveGlyphSetRange(set %d, glyphs %v)", which, idx(a, b)), at >= 0, func() bool { return k.b.RemoveGlyphSetRange(uid, a, b) })
		if at >= 0 {
			s.ranges = slices.Delete(s.ranges, at, at+1)
		}
	case 4:
		a, ai := k.glyph(badKind == 1 || badKind == 2)
		if badKind == 3 && s != nil && len(s.list) > 0 {
			a = pbt.Pick(t, s.list)
		}
		ok := s != nil && ai >= 0 && len(s.list) < 255 && !slices.Contains(s.list, a)
		if k.call(fmt.Sprintf("AddGlyphSetListGlyph(set %d, glyph %v)", which, idx(a)), ok, func() error { return k.b.AddGlyphSetListGlyph(uid, a) }) {
			s.list = append(s.list, a)
		}
	case 5:
		a, _ := k.glyph(badKind > 0)
		at := -1
		if s != nil && len(s.list) > 0 && !bad {
			at = t.Int(0, len(s.list)-1)
			a = s.list[at]
		} else if s != nil {
			at = slices.Index(s.list, a)
		}
		k.flag(fmt.Sprintf("RemoveGlyphSetListGlyph(set %d, glyph %v)", which, idx(a)), at >= 0, func() bool { return k.b.RemoveGlyphSetListGlyph(uid, a) })
		if at >= 0 {
			s.list = slices.Delete(s.list, at, at+1)
		}
	}
}

// flag runs a removal that reports whether the element was there.
func (k *machine) flag(what string, want bool, fn func() bool) {
	k.t.Logf("%s (expected %v)", what, want)
	var got bool
	k.t.NoPanic(what, func() { got = fn() })
	if got != want {
		k.t.Fatalf("%s: %v, expected %v", what, got, want)
	}
	if want {
		k.accepted++
	} else {
		k.refused++
	}
}

func (k *machine) genSetRune() rune {
	if k.t.Prob(60) {
		return rune('a' + k.t.Int(0, 6))
	}
	return fm.GenRune(k.t)
}

func (k *machine) opRuneSet() {
	t := k.t
	var s *mset
	uid := uint64(0)
	if len(k.rsets) > 0 {
		s = pbt.Pick(t, k.rsets)
		uid = s.uid
	}
	bad := k.bad()
	badKind := -1
	if bad {
		badKind = t.Int(0, 2)
	}
	if badKind == 0 || s == nil {
		s, uid = nil, k.unknownUID()
		if len(k.gsets) > 0 && t.Prob(20) {
			uid = pbt.Pick(t, k.gsets).uid
		}
	}
	which := -1
	if s != nil {
		which = slices.Index(k.rsets, s)
	}
	weights := []int{3, 1, 4, 2, 4, 2}
	if k.bulk {
		weights = []int{100, 3, 1, 0, 1, 0}
	}
	switch t.Weighted(weights...) {
	case 0:
		if len(k.rsets) > 3 && !k.bulk && t.Prob(70) {
			return
		}
		if k.call("CreateRuneSet", len(k.rsets) < 255, func() (err error) { uid, err = k.b.CreateRuneSet(); return }) {
			if k.setAt(k.gsets, uid) != nil || k.setAt(k.rsets, uid) != nil {
				t.Fatalf("CreateRuneSet returned the UID of another set")
			}
			k.rsets = append(k.rsets, &mset{uid: uid})
		}
	case 1:
		k.flag(fmt.Sprintf("RemoveRuneSet(set %d)", which), s != nil, func() bool { return k.b.RemoveRuneSet(uid) })
		if s != nil {
			k.rsets = slices.Delete(k.rsets, which, which+1)
			k.dead = append(k.dead, uid)
		}
	case 2:
		a := k.genSetRune()
		b := a + rune(t.Size(0, 20))
		if t.Prob(3) {
			b = a + rune(pbt.Pick(t, []int{254, 255, 256, 257, 300}))
		}
		if t.Prob(1) { // differences that don't fit 31 bits
			a = pbt.Pick(t, []rune{-1 << 31, -1<<31 + 7, -1 << 30, ' '})
			b = 1<<31 - 1 - rune(t.Int(0, 300))
		}
		if badKind == 1 {
			a, b = b+1, a
		}
		if badKind == 2 && s != nil && len(s.ranges) > 0 {
			r := pbt.Pick(t, s.ranges)
			a, b = rune(r[0]), rune(r[1])
		}
		key := [2]uint64{uint64(a), uint64(b)}
		ok := s != nil && a <= b && len(s.ranges) < 255 && !slices.Contains(s.ranges, key)
		if k.call(fmt.Sprintf("AddRuneSetRange(set %d, %d-%d)", which, a, b), ok, func() error { return k.b.AddRuneSetRange(uid, a, b) }) {
			s.ranges = append(s.ranges, key)
		}
	case 3:
		a := k.genSetRune()
		b := a + rune(t.Size(0, 3))
		at := -1
		if s != nil && len(s.ranges) > 0 && !bad {
			at = t.Int(0, len(s.ranges)-1)
			a, b = rune(s.ranges[at][0]), rune(s.ranges[at][1])
		} else if s != nil {
			at = slices.Index(s.ranges, [2]uint64{uint64(a), uint64(b)})
		}
		k.flag(fmt.Sprintf("RemoveRuneSetRange(set %d, %d-%d)", which, a, b), at >= 0, func() bool { return k.b.RemoveRuneSetRange(uid, a, b) })
		if at >= 0 {
			s.ranges = slices.Delete(s.ranges, at, at+1)
		}
	case 4:
		a := k.genSetRune()
		if badKind > 0 && s != nil && len(s.list) > 0 {
			a = rune(pbt.Pick(t, s.list))
		}
		ok := s != nil && len(s.list) < 255 && !slices.Contains(s.list, uint64(a))
		if k.call(fmt.Sprintf("AddRuneSetListRune(set %d, %d)", which, a), ok, func() error { return k.b.AddRuneSetListRune(uid, a) }) {
			s.list = append(s.list, uint64(a))
		}
	case 5:
		a := k.genSetRune()
		at := -1
		if s != nil && len(s.list) > 0 && !bad {
			at = t.Int(0, len(s.list)-1)
			a = rune(s.list[at])
		} else if s != nil {
			at = slices.Index(s.list, uint64(a))
		}
		k.flag(fmt.Sprintf("RemoveRuneSetListRune(set %d, %d)", which, a), at >= 0, func() bool { return k.b.RemoveRuneSetListRune(uid, a) })
		if at >= 0 {
			s.list = slices.Delete(s.list, at, at+1)
		}
	}
}

func (k *machine) opRule() {
	t := k.t
	bad := k.bad()
	if t.Prob(40) {
		n := t.Size(1, 6)
		if t.Prob(3) {
			n = t.Int(14, 46)
		}
		if t.Prob(1) {
			n = t.Int(253, 255)
		}
		if bad {
			n = pbt.Pick(t, []int{0, 256, 257, 258, 300, 511, 512, 514})
		}
		seq := make([]rune, n, n+2)
		rule := fm.Rule{Cond: 255, Out: []uint32{uint32(fm.GenRune(t))}}
		for i := range seq {
			seq[i] = k.genSetRune()
			rule.Body = append(rule.Body, fm.Elem{V: uint32(seq[i])})
		}
		if k.call(fmt.Sprintf("AddSimpleUtf8RewriteRule(%d, %d runes %.60q)", rule.Out[0], n, string(seq)), !bad, func() error {
			return k.b.AddSimpleUtf8RewriteRule(rune(rule.Out[0]), seq...)
		}) {
			k.urules = append(k.urules, rule)
		}
		scrib(k, seq, '*')
		return
	}
	r := mrule{head: t.Size(0, 3), body: t.Size(1, 4), tail: t.Size(0, 3)}
	if t.Prob(4) {
		r.body = t.Int(1, 40)
	}
	if t.Prob(1) {
		// as long as a rule gets, mostly with one long part
		r.head = pbt.Pick(t, []int{0, t.Int(0, 100), t.Int(100, 254), 254})
		r.tail = min(254-r.head, pbt.Pick(t, []int{0, t.Int(0, 100), t.Int(100, 254), 254}))
		r.body = 255 - r.head - r.tail
		if t.Prob(40) {
			r.body = min(r.body, t.Size(1, 4))
		}
	}
	badKind := -1
	if bad {
		badKind = t.Int(0, 6)
	}
	ok := true
	switch badKind {
	case 0:
		r.body, ok = 0, false
	case 1: // more than 255 elements: the lengths wrap around
		part := func(n int) int {
			return max(0, min(255, pbt.Pick(t, []int{0, 1, t.Int(0, 255), t.Int(0, 255), n, 255})))
		}
		for r.head+r.body+r.tail <= 255 {
			sum := 256 + t.Int(0, 3)
			if t.Prob(20) {
				sum += 256
			}
			r.head = part(sum)
			r.body = max(1, part(sum-r.head))
			r.tail = part(sum - r.head - r.body)
			if t.Prob(40) {
				r.tail = max(0, min(255, sum-r.head-r.body))
			}
		}
		ok = false
	}
	n := r.head + r.body + r.tail
	if badKind == 1 && t.Bool() {
		n &= 255
	}
	if badKind == 2 {
		n, ok = max(0, n+pbt.Pick(t, []int{-1, 1})), false
	}
	badAt := -1
	if badKind == 3 && n > 0 {
		badAt, ok = t.Int(0, n-1), false
	}
	isSet := fm.SetRuns(t, n, 35)
	for i := 0; i < n; i++ {
		if i != badAt && len(k.gsets) > 0 && isSet(i) {
			r.in = append(r.in, pbt.Pick(t, k.gsets).uid)
			continue
		}
		uid, at := k.glyph(i == badAt)
		if i == badAt && len(k.rsets) > 0 && t.Bool() {
			uid = pbt.Pick(t, k.rsets).uid
		}
		ok = ok && at >= 0
		r.in = append(r.in, uid)
	}
	nout := 1 + t.Size(0, max(0, r.body-1))
	if badKind == 4 {
		nout, ok = r.body+t.Int(1, 3), false
		if t.Prob(20) { // too long for a byte
			nout = 256 + t.Int(0, r.body)
		}
	}
	for i := 0; i < nout; i++ {
		uid, at := k.glyph(badKind == 5 && i == nout-1)
		ok = ok && at >= 0
		r.out = append(r.out, uid)
	}
	if badKind == 6 && len(k.gsets) > 0 {
		r.out[0], ok = pbt.Pick(t, k.gsets).uid, false
	}
	if r.body == 0 || len(r.out) == 0 {
		ok = false
	}
	in, out := append(make([]uint64, 0, n+3), r.in...), slices.Clone(r.out)
	if k.call(fmt.Sprintf("AddGlyphRewriteRule(%d, %d, %d, %s -> %s)", r.head, r.body, r.tail, k.elems(r.in), k.elems(r.out)), ok, func() error {
		return k.b.AddGlyphRewriteRule(uint8(r.head), uint8(r.body), uint8(r.tail), in, out...)
	}) {
		k.grules = append(k.grules, r)
	}
	scrib(k, in, 1)
	scrib(k, out, 1)
}

func (k *machine) elems(uids []uint64) string {
	if !k.t.Verbose() {
		return ""
	}
	var sb strings.Builder
	for _, u := range uids {
		if i := slices.Index(k.uids, u); i >= 0 {
			fmt.Fprintf(&sb, "%d ", i)
		} else if s := k.setAt(k.gsets, u); s != nil {
			fmt.Fprintf(&sb, "set%d ", slices.Index(k.gsets, s))
		} else {
			sb.WriteString("? ")
		}
	}
	return sb.String()
}

// --- checks ---

// buildable tells whether the state is consistent, or why it isn't.
func (k *machine) buildable() string {
	if len(k.uids) == 0 {
		return "no glyphs"
	}
	if !metricsOK(&k.m.M) {
		return "inconsistent metrics"
	}
	names := map[string]bool{}
	for _, g := range k.m.Glyphs {
		if g.Name != "" && names[g.Name] {
			return "repeated glyph names"
		}
		names[g.Name] = true
	}
	words, custom := map[string]bool{}, map[string]bool{}
	for _, s := range k.m.Settings {
		for _, o := range s.Options {
			words[o] = true
			if !isPredefined(o) {
				custom[o] = true
			}
		}
	}
	if len(custom) > 255 {
		return "too many words"
	}
	if len(words) > 255 {
		return "?" // the limit may or may not count the predefined words
	}
	gsize, rsize := 0, 0
	for _, s := range k.gsets {
		gsize += 2 + 3*len(s.ranges) + 2*len(s.list)
		for _, r := range s.ranges {
			if d := slices.Index(k.uids, r[1]) - slices.Index(k.uids, r[0]); d < 0 || d > 255 {
				return "glyph set range reversed or too long"
			}
		}
	}
	for _, s := range k.rsets {
		rsize += 2 + 5*len(s.ranges) + 4*len(s.list)
		for _, r := range s.ranges {
			if r[1]-r[0] > 255 {
				return "rune set range too long"
			}
		}
	}
	if gsize > 65535 || rsize > 65535 {
		return "too much set data"
	}
	for _, r := range k.grules {
		for _, u := range r.in {
			if !slices.Contains(k.uids, u) && k.setAt(k.gsets, u) == nil {
				return "rule with a removed set"
			}
		}
	}
	for key := range k.kern {
		if !slices.Contains(k.uids, key[0]) || !slices.Contains(k.uids, key[1]) {
			return "kerning pair with an unknown glyph"
		}
	}
	return ""
}

// repair makes the state buildable through further calls, where possible.
func (k *machine) repair() {
	if len(k.uids) == 0 {
		k.tidyMetrics()
		mask := image.NewAlpha(image.Rect(0, 0, 0, 0))
		var uid uint64
		if k.call("AddGlyph(empty)", true, func() (err error) { uid, err = k.b.AddGlyph(mask); return }) {
			k.uids = append(k.uids, uid)
			w := &k.m.M
			k.m.Glyphs = append(k.m.Glyphs, fm.Glyph{Mask: mask, Placement: ggfnt.GlyphPlacement{TopAdvance: w.Ascent, BottomAdvance: w.Descent}})
		}
	}
	if !metricsOK(&k.m.M) {
		k.tidyMetrics()
	}
	names := map[string]bool{"": true}
	for i := range k.m.Glyphs {
		g := &k.m.Glyphs[i]
		if g.Name != "" && names[g.Name] {
			g.Name = fmt.Sprintf("unique%d", i)
			if err := k.b.SetGlyphName(k.uids[i], g.Name); err != nil {
				k.t.Fatalf("SetGlyphName(%q): %v", g.Name, err)
			}
		}
		names[g.Name] = true
	}
	for _, s := range k.gsets {
		s.ranges = slices.DeleteFunc(s.ranges, func(r [2]uint64) bool {
			d := slices.Index(k.uids, r[1]) - slices.Index(k.uids, r[0])
			if d < 0 || d > 255 {
				k.flag("RemoveGlyphSetRange", true, func() bool { return k.b.RemoveGlyphSetRange(s.uid, r[0], r[1]) })
				return true
			}
			return false
		})
	}
	for _, s := range k.rsets {
		s.ranges = slices.DeleteFunc(s.ranges, func(r [2]uint64) bool {
			if r[1]-r[0] > 255 {
				k.flag("RemoveRuneSetRange", true, func() bool { return k.b.RemoveRuneSetRange(s.uid, rune(r[0]), rune(r[1])) })
				return true
			}
			return false
		})
	}
	k.dropUnknownKern()
}

// model returns the font model of a buildable state.
func (k *machine) model() *fm.Font {
	m := k.m
	if len(m.Dyes)+len(m.Palettes) == 0 {
		m.Dyes = []fm.Dye{{Name: "main", Alphas: []uint8{255}}}
	}
	for _, mp := range k.maps {
		m.Mappings = append(m.Mappings, mp)
	}
	sort.Slice(m.Mappings, func(i, j int) bool { return uint32(m.Mappings[i].Rune) < uint32(m.Mappings[j].Rune) })
	at := map[uint64]uint32{}
	for i, u := range k.uids {
		at[u] = uint32(i)
	}
	sets := map[uint64]uint32{}
	for i, s := range k.gsets {
		sets[s.uid] = uint32(i)
		var out fm.Set
		for _, r := range s.ranges {
			out.Ranges = append(out.Ranges, [2]uint32{at[r[0]], at[r[1]]})
		}
		for _, u := range s.list {
			out.List = append(out.List, at[u])
		}
		m.GlyphSets = append(m.GlyphSets, out)
	}
	for _, s := range k.rsets {
		var out fm.Set
		for _, r := range s.ranges {
			out.Ranges = append(out.Ranges, [2]uint32{uint32(r[0]), uint32(r[1])})
		}
		for _, u := range s.list {
			out.List = append(out.List, uint32(u))
		}
		m.RuneSets = append(m.RuneSets, out)
	}
	m.Utf8Rules = k.urules
	for _, r := range k.grules {
		rule := fm.Rule{Cond: 255}
		for i, u := range r.in {
			e := fm.Elem{V: at[u]}
			if s, isSet := sets[u]; isSet {
				e = fm.Elem{IsSet: true, V: s}
			}
			switch {
			case i < r.head:
				rule.Head = append(rule.Head, e)
			case i < r.head+r.body:
				rule.Body = append(rule.Body, e)
			default:
				rule.Tail = append(rule.Tail, e)
			}
		}
		for _, u := range r.out {
			rule.Out = append(rule.Out, at[u])
		}
		m.GlyphRules = append(m.GlyphRules, rule)
	}
	for _, key := range k.sortedKern() {
		m.HorzKern = append(m.HorzKern, fm.Kern{A: uint16(at[key[0]]), B: uint16(at[key[1]]), V: k.kern[key]})
	}
	return &m
}

// checkGetters compares everything the builder reports with the model.
func (k *machine) checkGetters() {
	t := k.t
	checkBuilderProps(t, k.b, &k.m)
	if n := k.b.GetNumGlyphs(); n != len(k.uids) {
		t.Fatalf("GetNumGlyphs is %d, expected %d", n, len(k.uids))
	}
	if err := k.b.GetMetricsStatus(); (err == nil) != metricsOK(&k.m.M) {
		t.Fatalf("GetMetricsStatus: %v, for metrics %+v", err, k.m.M)
	}
	checkBuilderColors(t, k.b, &k.m, false)
	k.checkSets()
}

func (k *machine) checkSets() {
	t := k.t
	for i, s := range k.gsets {
		var ranges [][2]uint64
		var list []uint64
		k.b.EachGlyphSetRange(s.uid, func(a, b uint64) { ranges = append(ranges, [2]uint64{a, b}) })
		k.b.EachGlyphSetListGlyph(s.uid, func(u uint64) { list = append(list, u) })
		if !slices.Equal(ranges, s.ranges) || !slices.Equal(list, s.list) {
			t.Fatalf("glyph set %d lists %d ranges and %d glyphs, expected %d and %d (or others, or in another order)", i, len(ranges), len(list), len(s.ranges), len(s.list))
		}
	}
	for i, s := range k.rsets {
		var ranges [][2]uint64
		var list []uint64
		k.b.EachRuneSetRange(s.uid, func(a, b rune) { ranges = append(ranges, [2]uint64{uint64(a), uint64(b)}) })
		k.b.EachRuneSetListRune(s.uid, func(r rune) { list = append(list, uint64(r)) })
		if !slices.Equal(ranges, s.ranges) || !slices.Equal(list, s.list) {
			t.Fatalf("rune set %d lists %v and %v, expected %v and %v", i, ranges, list, s.ranges, s.list)
		}
	}
	for _, uid := range k.dead {
		k.b.EachGlyphSetRange(uid, func(a, b uint64) { t.Fatalf("a removed set lists ranges") })
		k.b.EachGlyphSetListGlyph(uid, func(u uint64) { t.Fatalf("a removed set lists glyphs") })
		k.b.EachRuneSetRange(uid, func(a, b rune) { t.Fatalf("a removed set lists ranges") })
		k.b.EachRuneSetListRune(uid, func(r rune) { t.Fatalf("a removed set lists runes") })
	}
}

// build builds and compares the outcome with the model.
func (k *machine) build(full bool) bool {
	t := k.t
	why := k.buildable()
	t.Logf("Build (%s)", why)
	var f *ggfnt.Font
	var err error
	t.NoPanic("Build", func() { f, err = k.b.Build() })
	switch {
	case why == "?":
		if err != nil {
			t.Label("build: " + why)
			return false
		}
	case why != "":
		t.Label("build: " + why)
		if err == nil {
			t.Fatalf("Build succeeded with %s", why)
		}
		k.checkGetters()
		return false
	case err != nil:
		t.Fatalf("Build failed on a consistent state: %v", err)
	}
	t.Label("build: ok")
	m := k.model()
	if err := f.Validate(ggfnt.FmtDefault); err != nil {
		t.Fatalf("built font does not validate: %v", err)
	}
	settings := fm.GenSettings(t, m)
	data := raw(t, f)
	back := fm.MustParse(t, fm.Wrap(data))
	if full {
		which := f
		if t.Bool() {
			which = back
		}
		checkAll(t, which, m, settings, true)
	}
	if b := raw(t, back); !bytes.Equal(data, b) {
		t.Fatalf("the font's data changes on parsing")
	}
	// building again gives the same data
	var f2 *ggfnt.Font
	t.NoPanic("Build", func() { f2, err = k.b.Build() })
	if err != nil {
		t.Fatalf("building again: %v", err)
	}
	if !bytes.Equal(raw(t, f2), data) {
		t.Fatalf("building again gives other data")
	}
	if t.Prob(10) {
		var buf bytes.Buffer
		t.NoPanic("Export", func() { err = k.b.Export(&buf) })
		if err != nil {
			t.Fatalf("Export: %v", err)
		}
		if d, err := fm.Unwrap(buf.Bytes()); err != nil || !bytes.Equal(d, data) {
			t.Fatalf("the builder's Export gives other data (error %v)", err)
		}
	}
	if len(k.fonts) < 4 {
		s := snapshot{f: f, raw: data, settings: settings, probes: fm.Probes(m)}
		if t.Bool() {
			s.f = back
		}
		s.dump = fm.Dump(s.f, settings, s.probes)
		k.fonts = append(k.fonts, s)
	}
	k.checkGetters()
	return true
}

// checkFonts checks that the fonts built along the way are still the same.
func (k *machine) checkFonts() {
	for i, s := range k.fonts {
		if d := fm.Dump(s.f, s.settings, s.probes); d != s.dump {
			k.t.Fatalf("built font %d changed: %s", i, diffLine(s.dump, d))
		}
		if !bytes.Equal(raw(k.t, s.f), s.raw) {
			k.t.Fatalf("the data of built font %d changed", i)
		}
	}
}

// addMany adds many elements of one kind.
func (k *machine) addMany(weights []int) {
	kinds := []struct {
		op     func()
		weight int
	}{{k.opColor, weights[2]}, {k.opSetting, weights[4]}, {k.opSwitch, min(weights[4], len(k.m.Settings))}, {k.opGlyphSet, weights[7]}, {k.opRuneSet, weights[8]}}
	var ops []func()
	for _, kind := range kinds {
		if kind.weight > 0 {
			ops = append(ops, kind.op)
		}
	}
	if len(ops) == 0 {
		return
	}
	k.t.Label("many elements of a kind")
	if weights[7] > 0 && k.t.Prob(40) { // glyphs, and the longest ranges
		for n := 260 + k.t.Int(0, 40); n > 0; n-- {
			k.addEmptyGlyph()
		}
		for n := 12; n > 0; n-- {
			k.opGlyphSet()
		}
		return
	}
	op := pbt.Pick(k.t, ops)
	k.bulk = true
	for n := k.t.Int(20, 280); n > 0; n-- {
		op()
	}
	k.bulk = false
}

// run makes calls with the given weights: header, metrics, colors, glyphs,
// settings and switches, mappings, kernings, glyph sets, rune sets, rules.
func (k *machine) run(steps int, weights ...int) {
	bulkAt := -1
	if k.t.Prob(3) { // many settings or color sections at once
		bulkAt = k.t.Int(0, steps)
	}
	for i := 0; i < steps; i++ {
		if i == bulkAt {
			k.addMany(weights)
		}
		switch k.t.Weighted(weights...) {
		case 0:
			k.opHeader()
		case 1:
			k.opMetrics()
		case 2:
			k.opColor()
		case 3:
			k.opGlyph()
		case 4:
			k.opSetting()
		case 5:
			k.opMap()
		case 6:
			k.opKern()
		case 7:
			k.opGlyphSet()
		case 8:
			k.opRuneSet()
		case 9:
			k.opRule()
		}
		if k.t.Prob(15) {
			k.checkGetters()
		}
	}
}
