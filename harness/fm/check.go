package fm

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// Reader delivers data in pieces chosen by the case.
type Reader struct {
	Data  []byte
	Pos   int
	Sizes []int // piece sizes, used in a cycle (nil: everything at once)
	n     int
	// EOFWith delivers io.EOF together with the last bytes.
	EOFWith bool
	Err     error // returned at ErrAt instead of data
	ErrAt   int
}

func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.Data)
	if r.Err != nil && r.ErrAt < end {
		end = r.ErrAt
	}
	if r.Pos >= end {
		if r.Err != nil && r.Pos >= r.ErrAt {
			return 0, r.Err
		}
		return 0, errEOF
	}
	n := len(p)
	if len(r.Sizes) > 0 {
		if s := r.Sizes[r.n%len(r.Sizes)]; s < n {
			n = s
		}
		r.n++
	}
	n = min(n, end-r.Pos)
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if r.EOFWith && r.Pos == len(r.Data) {
		return n, errEOF
	}
	return n, nil
}

// GenReader wraps data in a reader with generated piece sizes.
func GenReader(t *pbt.T, data []byte) *Reader {
	r := &Reader{Data: data}
	switch t.Weighted(3, 2, 2) {
	case 1:
		r.Sizes = []int{t.Int(1, 7)}
	case 2:
		for i := t.Int(1, 6); i > 0; i-- {
			r.Sizes = append(r.Sizes, t.Size(1, 400))
		}
	}
	r.EOFWith = t.Bool()
	return r
}

// Parse parses data through a reader and fails the case on a panic.
func Parse(t *pbt.T, r *Reader) (*ggfnt.Font, error) {
	var f *ggfnt.Font
	var err error
	t.NoPanic("Parse", func() { f, err = ggfnt.Parse(r) })
	return f, err
}

// MustParse parses a file that must be accepted.
func MustParse(t *pbt.T, file []byte) *ggfnt.Font {
	f, err := Parse(t, GenReader(t, file))
	if err != nil {
		t.Fatalf("Parse rejected a valid font: %v", err)
	}
	return f
}

// Export exports a font and fails the case on a panic or error.
func Export(t *pbt.T, f *ggfnt.Font) []byte {
	var buf bytes.Buffer
	var err error
	t.NoPanic("Export", func() { err = f.Export(&buf) })
	if err != nil {
		t.Fatalf("Export failed: %v", err)
	}
	return buf.Bytes()
}

func eq[V comparable](t *pbt.T, what string, got, want V) {
	if got != want {
		t.Fatalf("%s = %v, want %v", what, got, want)
	}
}

func eqStr(t *pbt.T, what string, got, want string) {
	if got != want {
		if len(got)+len(want) > 200 {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			t.Fatalf("%s differs from the expected text at byte %d (lengths %d, want %d)", what, i, len(got), len(want))
		}
		t.Fatalf("%s = %q, want %q", what, got, want)
	}
}

func CheckHeader(t *pbt.T, f *ggfnt.Font, m *Font) {
	h := f.Header()
	eq(t, "Header.FormatVersion", h.FormatVersion(), uint32(FormatVersion))
	eq(t, "Header.ID", h.ID(), m.ID)
	eq(t, "Header.VersionMajor", h.VersionMajor(), m.VMajor)
	eq(t, "Header.VersionMinor", h.VersionMinor(), m.VMinor)
	eq(t, "Header.FirstVersionDate", h.FirstVersionDate(), m.Dates[0])
	eq(t, "Header.MajorVersionDate", h.MajorVersionDate(), m.Dates[1])
	eq(t, "Header.MinorVersionDate", h.MinorVersionDate(), m.Dates[2])
	eqStr(t, "Header.Name", h.Name(), m.Name)
	eqStr(t, "Header.Family", h.Family(), m.Family)
	eqStr(t, "Header.Author", h.Author(), m.Author)
	eqStr(t, "Header.About", h.About(), m.About)
}

func CheckMetrics(t *pbt.T, f *ggfnt.Font, m *Font) {
	x, w := f.Metrics(), &m.M
	eq(t, "Metrics.NumGlyphs", int(x.NumGlyphs()), len(m.Glyphs))
	eq(t, "Metrics.HasVertLayout", x.HasVertLayout(), w.Vert)
	eq(t, "Metrics.MonoWidth", x.MonoWidth(), w.MonoWidth)
	eq(t, "Metrics.Monospaced", x.Monospaced(), w.MonoWidth != 0)
	eq(t, "Metrics.Ascent", x.Ascent(), w.Ascent)
	eq(t, "Metrics.ExtraAscent", x.ExtraAscent(), w.ExtraAscent)
	eq(t, "Metrics.Descent", x.Descent(), w.Descent)
	eq(t, "Metrics.ExtraDescent", x.ExtraDescent(), w.ExtraDescent)
	eq(t, "Metrics.UppercaseAscent", x.UppercaseAscent(), w.UppercaseAscent)
	eq(t, "Metrics.MidlineAscent", x.MidlineAscent(), w.MidlineAscent)
	eq(t, "Metrics.HorzInterspacing", x.HorzInterspacing(), w.HorzInterspacing)
	eq(t, "Metrics.VertInterspacing", x.VertInterspacing(), w.VertInterspacing)
	eq(t, "Metrics.LineGap", x.LineGap(), w.LineGap)
	eq(t, "Metrics.VertLineWidth", x.VertLineWidth(), w.VertLineWidth)
	eq(t, "Metrics.VertLineGap", x.VertLineGap(), w.VertLineGap)
	eq(t, "Metrics.LineHeight", x.LineHeight(), int(w.Ascent)+int(w.Descent)+int(w.LineGap))
	eq(t, "Metrics.VertLineFullWidth", x.VertLineFullWidth(), int(w.VertLineWidth)+int(w.VertLineGap))
}

// MaskDiff compares the non-transparent pixels of two masks (nil is empty).
func MaskDiff(got, want *image.Alpha) string {
	rect := image.Rectangle{}
	if got != nil {
		rect = rect.Union(got.Bounds())
	}
	if want != nil {
		rect = rect.Union(want.Bounds())
	}
	at := func(m *image.Alpha, x, y int) uint8 {
		if m == nil {
			return 0
		}
		return m.AlphaAt(x, y).A
	}
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			if a, b := at(got, x, y), at(want, x, y); a != b {
				return fmt.Sprintf("pixel (%d,%d) is %d, want %d", x, y, a, b)
			}
		}
	}
	return ""
}

// TightRect is the smallest rectangle holding the non-zero pixels.
func TightRect(m *image.Alpha) image.Rectangle {
	var rect image.Rectangle
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if m.AlphaAt(x, y).A != 0 {
				rect = rect.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	return rect
}

func CheckGlyphs(t *pbt.T, f *ggfnt.Font, m *Font) {
	g := f.Glyphs()
	eq(t, "Glyphs.Count", int(g.Count()), len(m.Glyphs))
	named := 0
	for i := range m.Glyphs {
		w := &m.Glyphs[i]
		idx := ggfnt.GlyphIndex(i)
		what := fmt.Sprintf("glyph %d", i)
		eq(t, what+" Advance", g.Advance(idx), w.Placement.Advance)
		p := w.Placement
		if !m.M.Vert {
			p = ggfnt.GlyphPlacement{Advance: p.Advance}
		}
		eq(t, what+" Placement", g.Placement(idx), p)
		var mask *image.Alpha
		t.NoPanic(what+" RasterizeMask", func() { mask = g.RasterizeMask(idx) })
		if d := MaskDiff(mask, w.Mask); d != "" {
			t.Fatalf("%s RasterizeMask: %s", what, d)
		}
		if w.Name != "" {
			named++
		}
	}
	eq(t, "Glyphs.NamedCount", int(g.NamedCount()), named)
	CheckNames(t, f, m)
}

// CheckNames looks up every name and many near misses.
func CheckNames(t *pbt.T, f *ggfnt.Font, m *Font) {
	g := f.Glyphs()
	index := map[string]int{}
	for i := range m.Glyphs {
		if m.Glyphs[i].Name != "" {
			index[m.Glyphs[i].Name] = i
		}
	}
	look := func(name string) {
		want := ggfnt.GlyphMissing
		if i, ok := index[name]; ok {
			want = ggfnt.GlyphIndex(i)
		}
		var got ggfnt.GlyphIndex
		t.NoPanic(fmt.Sprintf("FindIndexByName(%q)", name), func() { got = g.FindIndexByName(name) })
		if got != want {
			t.Fatalf("FindIndexByName(%q) = %d, want %d", name, got, want)
		}
	}
	// much longer names, even by a multiple of 256 bytes
	for k := 0; k < 2 && len(index) > 0; k++ {
		if name := m.Glyphs[t.Int(0, len(m.Glyphs)-1)].Name; name != "" {
			look(name + strings.Repeat("z", pbt.Pick(t, []int{100, 255, 256, 512, 65536})))
			look(name + strings.Repeat("\x00", 256))
			look(strings.Repeat(name, 300))
		}
	}
	for i := range m.Glyphs {
		name := m.Glyphs[i].Name
		if name == "" {
			continue
		}
		look(name)
		look(name + "a")
		look(name[:len(name)-1])
		look(name + name)
		last := name[len(name)-1]
		look(name[:len(name)-1] + string(rune(last+1)))
		look(name[:len(name)-1] + string(rune(last-1)))
	}
	for _, s := range []string{"", "a", "A", "z", "zzzzzzzzzzzz", "0", "m", "~", "missing-glyph"} {
		look(s)
	}
}

func CheckColor(t *pbt.T, f *ggfnt.Font, m *Font) {
	c := f.Color()
	eq(t, "Color.NumDyes", int(c.NumDyes()), len(m.Dyes))
	eq(t, "Color.NumPalettes", int(c.NumPalettes()), len(m.Palettes))
	nd, np := 0, 0
	var pal color.Palette
	pal = append(pal, color.RGBA{})
	for i, d := range m.Dyes {
		nd += len(d.Alphas)
		eq(t, fmt.Sprintf("Color.NumDyeAlphas(%d)", i), int(c.NumDyeAlphas(ggfnt.DyeKey(i))), len(d.Alphas))
		var got []uint8
		c.EachDyeAlpha(ggfnt.DyeKey(i), func(a uint8) { got = append(got, a) })
		if !bytes.Equal(got, d.Alphas) {
			t.Fatalf("Color.EachDyeAlpha(%d) gave %v, want %v", i, got, d.Alphas)
		}
		for _, a := range d.Alphas {
			pal = append(pal, color.RGBA{a, a, a, a})
		}
	}
	for i, p := range m.Palettes {
		np += len(p.Colors)
		eq(t, fmt.Sprintf("Color.NumPaletteColors(%d)", i), int(c.NumPaletteColors(ggfnt.PaletteKey(i))), len(p.Colors))
		var got []color.RGBA
		c.EachPaletteColor(ggfnt.PaletteKey(i), func(a color.RGBA) { got = append(got, a) })
		if fmt.Sprint(got) != fmt.Sprint(p.Colors) {
			t.Fatalf("Color.EachPaletteColor(%d) gave %v, want %v", i, got, p.Colors)
		}
		for _, a := range p.Colors {
			pal = append(pal, a)
		}
	}
	eq(t, "Color.NumDyeIndices", int(c.NumDyeIndices()), nd)
	eq(t, "Color.NumPaletteIndices", int(c.NumPaletteIndices()), np)
	eq(t, "Color.Count", int(c.Count()), nd+np)
	var names []string
	c.EachDye(func(k ggfnt.DyeKey, name string) { names = append(names, fmt.Sprintf("d%d=%s", k, name)) })
	c.EachPalette(func(k ggfnt.PaletteKey, name string) { names = append(names, fmt.Sprintf("p%d=%s", k, name)) })
	var want []string
	for i, d := range m.Dyes {
		want = append(want, fmt.Sprintf("d%d=%s", i, d.Name))
	}
	for i, p := range m.Palettes {
		want = append(want, fmt.Sprintf("p%d=%s", i, p.Name))
	}
	eq(t, "color section names", strings.Join(names, " "), strings.Join(want, " "))
	gp := c.GoColorPalette()
	if fmt.Sprint(gp) != fmt.Sprint(pal) {
		t.Fatalf("Color.GoColorPalette() = %v, want %v", gp, pal)
	}
}

func CheckSettings(t *pbt.T, f *ggfnt.Font, m *Font) {
	s := f.Settings()
	eq(t, "Settings.Count", int(s.Count()), len(m.Settings))
	i := 0
	s.Each(func(key ggfnt.SettingKey, name string) {
		if i >= len(m.Settings) {
			t.Fatalf("Settings.Each lists more than %d settings", len(m.Settings))
		}
		eq(t, "setting key", int(key), i)
		eq(t, fmt.Sprintf("setting %d name", i), name, m.Settings[i].Name)
		i++
	})
	eq(t, "settings listed", i, len(m.Settings))
	for i := range m.Settings {
		eq(t, fmt.Sprintf("Settings.GetNumOptions(%d)", i), int(s.GetNumOptions(ggfnt.SettingKey(i))), len(m.Settings[i].Options))
		for j, o := range m.Settings[i].Options {
			var got string
			t.NoPanic("GetOptionName", func() { got = s.GetOptionName(ggfnt.SettingKey(i), uint8(j)) })
			eq(t, fmt.Sprintf("Settings.GetOptionName(%d, %d)", i, j), got, o)
		}
	}
	for i := len(m.Settings); i < 256; i += 1 + i/3 {
		eq(t, fmt.Sprintf("Settings.GetNumOptions(%d) (undefined)", i), s.GetNumOptions(ggfnt.SettingKey(i)), 0)
	}
	if m.CustomWords != nil {
		eq(t, "Settings.NumWords", int(s.NumWords()), len(m.CustomWords))
		for i, w := range m.CustomWords {
			eq(t, fmt.Sprintf("Settings.GetWord(%d)", i), s.GetWord(uint8(i)), w)
		}
		for i := len(m.CustomWords); i < 256; i++ {
			eq(t, fmt.Sprintf("Settings.GetWord(%d)", i), s.GetWord(uint8(i)), ggfnt.GetPredefinedWord(uint8(i)))
		}
	}
}

// CheckGroup compares a mapping group with the model's. Groups made by the
// builder list their glyphs in the given order or in glyph order.
func CheckGroup(t *pbt.T, what string, got *ggfnt.GlyphMappingGroup, want *Group, caseBranch int, viaBuilder bool) {
	var list []uint16
	t.NoPanic(what, func() {
		eq(t, what+" Size", int(got.Size()), len(want.Glyphs))
		eq(t, what+" CaseBranch", int(got.CaseBranch()), caseBranch)
		wantFlags := want.Flags
		if len(want.Glyphs) == 1 {
			wantFlags = 0
		}
		eq(t, what+" AnimationFlags", got.AnimationFlags(), wantFlags)
		for i := range want.Glyphs {
			list = append(list, uint16(got.Select(uint8(i))))
		}
	})
	exact := fmt.Sprint(list) == fmt.Sprint(want.Glyphs)
	if !exact && viaBuilder {
		sorted := append([]uint16(nil), want.Glyphs...)
		sort.Slice(sorted, func(a, b int) bool { return sorted[a] < sorted[b] })
		exact = fmt.Sprint(list) == fmt.Sprint(sorted)
	}
	if !exact {
		t.Fatalf("%s selects %v, want %v", what, list, want.Glyphs)
	}
}

// GenSettings draws a settings assignment within the options.
func GenSettings(t *pbt.T, m *Font) []uint8 {
	s := make([]uint8, len(m.Settings))
	for i := range s {
		s[i] = uint8(t.Int(0, len(m.Settings[i].Options)-1))
	}
	return s
}

// GenProbe draws a code point likely near mapped ones.
func GenProbe(t *pbt.T, m *Font) rune {
	if len(m.Mappings) > 0 && t.Prob(60) {
		r := m.Mappings[t.Int(0, len(m.Mappings)-1)].Rune
		return r + rune(t.Int(-1, 1))
	}
	switch t.Int(0, 3) {
	case 0:
		return rune(t.Int(0, 127))
	case 1:
		return GenRune(t)
	case 2:
		return -1 - rune(t.Int(0, 1000))
	}
	return rune(t.Choice(1<<31 - 1))
}

// CheckMappingAt checks all lookups of one code point under the settings.
func CheckMappingAt(t *pbt.T, f *ggfnt.Font, m *Font, cache *ggfnt.SettingsCache, settings []uint8, r rune, viaBuilder bool) {
	mp := m.FindMapping(r)
	one := func(name string, look func() (ggfnt.GlyphMappingGroup, bool)) {
		var g ggfnt.GlyphMappingGroup
		var found bool
		what := fmt.Sprintf("%s(%q, %v)", name, r, settings)
		t.NoPanic(what, func() { g, found = look() })
		eq(t, what+" found", found, mp != nil)
		if mp != nil {
			want, c := m.GroupFor(mp, settings)
			CheckGroup(t, what, &g, want, c, viaBuilder)
		}
	}
	one("Utf8", func() (ggfnt.GlyphMappingGroup, bool) { return f.Mapping().Utf8(r, settings) })
	if cache != nil {
		one("Utf8WithCache", func() (ggfnt.GlyphMappingGroup, bool) { return f.Mapping().Utf8WithCache(r, cache) })
	}
	if r >= 0 && r < 256 {
		one("Ascii", func() (ggfnt.GlyphMappingGroup, bool) { return f.Mapping().Ascii(byte(r), settings) })
	}
}

func CheckMappingCounts(t *pbt.T, f *ggfnt.Font, m *Font) {
	eq(t, "Mapping.NumEntries", int(f.Mapping().NumEntries()), len(m.Mappings))
	eq(t, "Mapping.NumSwitchTypes", int(f.Mapping().NumSwitchTypes()), len(m.Switches))
}

// CheckMapping checks every mapping and some probes under the settings.
func CheckMapping(t *pbt.T, f *ggfnt.Font, m *Font, settings []uint8, viaBuilder bool) {
	CheckMappingCounts(t, f, m)
	cache := ggfnt.NewSettingsCache(f)
	for i, v := range settings {
		cache.Set(ggfnt.SettingKey(i), v)
	}
	for i := range m.Switches {
		var got uint8
		t.NoPanic("EvaluateSwitch", func() { got = f.Mapping().EvaluateSwitch(uint8(i), settings) })
		eq(t, fmt.Sprintf("EvaluateSwitch(%d, %v)", i, settings), int(got), m.Case(uint8(i), settings))
	}
	for i := range m.Mappings {
		r := m.Mappings[i].Rune
		CheckMappingAt(t, f, m, cache, settings, r, viaBuilder)
		CheckMappingAt(t, f, m, cache, settings, r+1, viaBuilder)
		CheckMappingAt(t, f, m, cache, settings, r-1, viaBuilder)
	}
	for _, r := range []rune{0, ' ', 'a', 0x10FFFF, -1, 1<<31 - 1} {
		CheckMappingAt(t, f, m, cache, settings, r, viaBuilder)
	}
}

func CheckKerning(t *pbt.T, f *ggfnt.Font, m *Font) {
	k := f.Kerning()
	eq(t, "Kerning.NumPairs", int(k.NumPairs()), len(m.HorzKern))
	eq(t, "Kerning.NumVertPairs", int(k.NumVertPairs()), len(m.VertKern))
	for vi, list := range [][]Kern{m.HorzKern, m.VertKern} {
		want := map[[2]uint16]int8{}
		for _, p := range list {
			want[[2]uint16{p.A, p.B}] = p.V
		}
		look := func(a, b uint16) {
			var got int8
			name := "Get"
			t.NoPanic("kerning lookup", func() {
				if vi == 0 {
					got = k.Get(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b))
				} else {
					name = "GetVert"
					got = k.GetVert(ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b))
				}
			})
			if w := want[[2]uint16{a, b}]; got != w {
				t.Fatalf("Kerning.%s(%d, %d) = %d, want %d", name, a, b, got, w)
			}
		}
		for _, l := range [][]Kern{m.HorzKern, m.VertKern} {
			for _, p := range l {
				look(p.A, p.B)
				look(p.B, p.A)
				look(p.A, p.B+1)
				look(p.A, p.B-1)
				look(p.A+1, p.B)
				look(p.A-1, p.B)
			}
		}
		look(0, 0)
		look(0, 65535)
		look(65535, 65535)
		look(uint16(ggfnt.GlyphMissing), 0)
	}
}

// CheckRule compares the accessors of a rule.
func CheckRule(t *pbt.T, what string, cond, head, body, tail, in, out uint8, outs []uint32, data []byte, wide bool, want *Rule) {
	eq(t, what+" Condition", cond, want.Cond)
	eq(t, what+" HeadLen", int(head), len(want.Head))
	eq(t, what+" BodyLen", int(body), len(want.Body))
	eq(t, what+" TailLen", int(tail), len(want.Tail))
	eq(t, what+" InLen", int(in), len(want.Head)+len(want.Body)+len(want.Tail))
	eq(t, what+" OutLen", int(out), len(want.Out))
	if fmt.Sprint(outs) != fmt.Sprint(want.Out) {
		t.Fatalf("%s EachOut gave %v, want %v", what, outs, want.Out)
	}
	blocks, ok := DecodeInput(data, wide)
	for i, block := range [][]Elem{want.Head, want.Body, want.Tail} {
		if !ok || len(blocks[i]) != len(block) || (len(block) > 0 && fmt.Sprint(blocks[i]) != fmt.Sprint(block)) {
			t.Fatalf("%s input block %d is %v in the rule's data, want %v (well formed: %v)", what, i, blocks[i], block, ok)
		}
	}
}

// DecodeInput reads the head, body and tail elements of a rule's data as the
// format specifies them: fragments of up to 15 sets and 15 values each.
func DecodeInput(data []byte, wide bool) (blocks [3][]Elem, ok bool) {
	size := 2
	if wide {
		size = 4
	}
	if len(data) < 5 {
		return blocks, false
	}
	at := 5 + int(data[4])*size
	for b := range blocks {
		for n := int(data[1+b]); ; {
			if at >= len(data) {
				return blocks, false
			}
			sets, values := int(data[at]>>4), int(data[at]&15)
			at++
			if sets+values > n || (sets+values == 0 && n > 0) || at+sets+values*size > len(data) {
				return blocks, false
			}
			for ; sets > 0; sets-- {
				blocks[b] = append(blocks[b], Elem{true, uint32(data[at])})
				at++
				n--
			}
			for ; values > 0; values-- {
				v := uint32(data[at]) | uint32(data[at+1])<<8
				if wide {
					v |= uint32(data[at+2])<<16 | uint32(data[at+3])<<24
				}
				blocks[b] = append(blocks[b], Elem{false, v})
				at += size
				n--
			}
			if n == 0 {
				break
			}
		}
	}
	return blocks, at == len(data)
}

func CheckSet(t *pbt.T, what string, ranges [][2]uint32, list []uint32, want *Set) {
	if fmt.Sprint(ranges) != fmt.Sprint(want.Ranges) {
		t.Fatalf("%s EachRange gave %v, want %v", what, ranges, want.Ranges)
	}
	if fmt.Sprint(list) != fmt.Sprint(want.List) {
		t.Fatalf("%s list gave %v, want %v", what, list, want.List)
	}
}

// GlyphSetOf reads a glyph set through its accessors.
func GlyphSetOf(s ggfnt.GlyphRewriteSet) (out Set) {
	s.EachRange(func(r ggfnt.GlyphRange) error {
		out.Ranges = append(out.Ranges, [2]uint32{uint32(r.First), uint32(r.Last)})
		return nil
	})
	s.EachListGlyph(func(g ggfnt.GlyphIndex) error { out.List = append(out.List, uint32(g)); return nil })
	return
}

// RuneSetOf reads a rune set through its accessors.
func RuneSetOf(s ggfnt.Utf8RewriteSet) (out Set) {
	s.EachRange(func(a, b rune) error {
		out.Ranges = append(out.Ranges, [2]uint32{uint32(a), uint32(b)})
		return nil
	})
	s.EachListRune(func(g rune) error { out.List = append(out.List, uint32(g)); return nil })
	return
}

var errStop = errors.New("stop")

// checkStops checks that the iterations of a set stop at the first error of
// the callback, and return it.
func checkStops(t *pbt.T, what string, ranges, list int, eachRange, eachList func(func() error) error) {
	for i, each := range []func(func() error) error{eachRange, eachList} {
		n := []int{ranges, list}[i]
		if n == 0 {
			continue
		}
		calls, at := 0, (n+1)/2
		err := each(func() error {
			calls++
			if calls == at {
				return errStop
			}
			return nil
		})
		if err != errStop || calls != at {
			t.Fatalf("%s: iteration %d returned %v after %d of %d elements, the callback failed at %d", what, i, err, calls, n, at)
		}
	}
}

func CheckRewrites(t *pbt.T, f *ggfnt.Font, m *Font) {
	r := f.Rewrites()
	eq(t, "Rewrites.NumConditions", int(r.NumConditions()), len(m.Conditions))
	eq(t, "Rewrites.NumUTF8Sets", int(r.NumUTF8Sets()), len(m.RuneSets))
	eq(t, "Rewrites.NumGlyphSets", int(r.NumGlyphSets()), len(m.GlyphSets))
	eq(t, "Rewrites.NumUTF8Rules", int(r.NumUTF8Rules()), len(m.Utf8Rules))
	eq(t, "Rewrites.NumGlyphRules", int(r.NumGlyphRules()), len(m.GlyphRules))
	for i := range m.GlyphSets {
		t.NoPanic("GetGlyphSet", func() {
			set := r.GetGlyphSet(uint8(i))
			s := GlyphSetOf(set)
			checkStops(t, fmt.Sprintf("glyph set %d", i), len(s.Ranges), len(s.List), func(stop func() error) error {
				return set.EachRange(func(ggfnt.GlyphRange) error { return stop() })
			}, func(stop func() error) error {
				return set.EachListGlyph(func(ggfnt.GlyphIndex) error { return stop() })
			})
			CheckSet(t, fmt.Sprintf("glyph set %d", i), s.Ranges, s.List, &m.GlyphSets[i])
		})
	}
	for i := range m.RuneSets {
		t.NoPanic("GetUtf8Set", func() {
			set := r.GetUtf8Set(uint8(i))
			s := RuneSetOf(set)
			checkStops(t, fmt.Sprintf("rune set %d", i), len(s.Ranges), len(s.List), func(stop func() error) error {
				return set.EachRange(func(_, _ rune) error { return stop() })
			}, func(stop func() error) error {
				return set.EachListRune(func(rune) error { return stop() })
			})
			CheckSet(t, fmt.Sprintf("rune set %d", i), s.Ranges, s.List, &m.RuneSets[i])
		})
	}
	for i := range m.GlyphRules {
		t.NoPanic("glyph rule accessors", func() {
			g := r.GetGlyphRule(uint16(i))
			var out []uint32
			g.EachOut(func(v ggfnt.GlyphIndex) { out = append(out, uint32(v)) })
			CheckRule(t, fmt.Sprintf("glyph rule %d", i), g.Condition(), g.HeadLen(), g.BodyLen(), g.TailLen(), g.InLen(), g.OutLen(), out, g.Data, false, &m.GlyphRules[i])
		})
	}
	for i := range m.Utf8Rules {
		t.NoPanic("utf8 rule accessors", func() {
			g := r.GetUtf8Rule(uint16(i))
			var out []uint32
			g.EachOut(func(v rune) { out = append(out, uint32(v)) })
			CheckRule(t, fmt.Sprintf("utf8 rule %d", i), g.Condition(), g.HeadLen(), g.BodyLen(), g.TailLen(), g.InLen(), g.OutLen(), out, g.Data, true, &m.Utf8Rules[i])
		})
	}
}

// Dump renders the answers of every accessor of a font. It never uses
// accessors documented as unimplemented. Accessors panicking are rendered as
// such (fonts parsed from arbitrary bytes).
func Dump(f *ggfnt.Font, settings []uint8, probes []rune) string {
	var sb strings.Builder
	sec := func(name string, fn func()) {
		fmt.Fprintf(&sb, "[%s]\n", name)
		if p, _ := pbt.Catch(fn); p != nil {
			fmt.Fprintf(&sb, "panic: %v\n", p)
		}
	}
	w := func(format string, a ...any) { fmt.Fprintf(&sb, format, a...) }
	sec("header", func() {
		h := f.Header()
		w("%d %x %d %d %v %v %v\n%q\n%q\n%q\n%q\n", h.FormatVersion(), h.ID(), h.VersionMajor(), h.VersionMinor(),
			h.FirstVersionDate(), h.MajorVersionDate(), h.MinorVersionDate(), h.Name(), h.Family(), h.Author(), h.About())
	})
	sec("metrics", func() {
		x := f.Metrics()
		w("%d %v %d %v %d %d %d %d %d %d %d %d %d %d %d %d %d\n", x.NumGlyphs(), x.HasVertLayout(), x.MonoWidth(), x.Monospaced(),
			x.Ascent(), x.ExtraAscent(), x.Descent(), x.ExtraDescent(), x.UppercaseAscent(), x.MidlineAscent(),
			x.HorzInterspacing(), x.VertInterspacing(), x.LineGap(), x.VertLineWidth(), x.VertLineGap(), x.LineHeight(), x.VertLineFullWidth())
	})
	sec("color", func() {
		c := f.Color()
		w("%d %d %d %d %d %v\n", c.NumDyes(), c.NumPalettes(), c.NumDyeIndices(), c.NumPaletteIndices(), c.Count(), c.GoColorPalette())
		c.EachDye(func(k ggfnt.DyeKey, n string) {
			w("dye %d %s %d:", k, n, c.NumDyeAlphas(k))
			c.EachDyeAlpha(k, func(a uint8) { w(" %d", a) })
			w("\n")
		})
		c.EachPalette(func(k ggfnt.PaletteKey, n string) {
			w("pal %d %s %d:", k, n, c.NumPaletteColors(k))
			c.EachPaletteColor(k, func(a color.RGBA) { w(" %v", a) })
			w("\n")
		})
	})
	sec("glyphs", func() {
		g := f.Glyphs()
		n := int(g.Count())
		w("%d %d\n", n, g.NamedCount())
		for i := 0; i < n && i < 300; i++ {
			idx := ggfnt.GlyphIndex(i)
			m := g.RasterizeMask(idx)
			if m == nil {
				w("%d %v empty\n", g.Advance(idx), g.Placement(idx))
			} else {
				w("%d %v %v %v\n", g.Advance(idx), g.Placement(idx), m.Rect, m.Pix)
			}
		}
		for _, s := range []string{"", "a", "b", "z", "A", "Z", "q", "w"} {
			w("%d ", g.FindIndexByName(s))
		}
		w("\n")
	})
	sec("settings", func() {
		s := f.Settings()
		w("%d %d\n", s.Count(), s.NumWords())
		s.Each(func(k ggfnt.SettingKey, n string) {
			w("%d %s:", k, n)
			for o := 0; o < int(s.GetNumOptions(k)); o++ {
				w(" %s", s.GetOptionName(k, uint8(o)))
			}
			w("\n")
		})
		for i := 0; i < 256; i++ {
			w("%s ", s.GetWord(uint8(i)))
		}
		w("\n")
	})
	sec("mapping", func() {
		mp := f.Mapping()
		w("%d %d\n", mp.NumEntries(), mp.NumSwitchTypes())
		for i := 0; i < int(mp.NumSwitchTypes()); i++ {
			w("%d ", mp.EvaluateSwitch(uint8(i), settings))
		}
		for _, r := range probes {
			sec(fmt.Sprintf("mapping %d", r), func() {
				g, ok := mp.Utf8(r, settings)
				w("%v", ok)
				if ok {
					w(" %d %d %d", g.Size(), g.AnimationFlags(), g.CaseBranch())
					for i := 0; i < int(g.Size()); i++ {
						w(" %d", g.Select(uint8(i)))
					}
				}
				w("\n")
			})
		}
	})
	sec("rewrites", func() {
		r := f.Rewrites()
		w("%d %d %d %d %d\n", r.NumConditions(), r.NumUTF8Sets(), r.NumGlyphSets(), r.NumUTF8Rules(), r.NumGlyphRules())
		for i := 0; i < int(r.NumConditions()); i++ {
			sec("cond", func() { w("%v\n", r.EvaluateCondition(uint8(i), settings)) })
		}
		for i := 0; i < int(r.NumUTF8Sets()); i++ {
			w("%v\n", RuneSetOf(r.GetUtf8Set(uint8(i))))
		}
		for i := 0; i < int(r.NumGlyphSets()); i++ {
			w("%v\n", GlyphSetOf(r.GetGlyphSet(uint8(i))))
		}
		for i := 0; i < int(r.NumUTF8Rules()); i++ {
			g := r.GetUtf8Rule(uint16(i))
			w("%s %d %d %d %d %d:", g.String(), g.Condition(), g.HeadLen(), g.BodyLen(), g.TailLen(), g.OutLen())
			g.EachOut(func(v rune) { w(" %d", v) })
			w("\n")
		}
		for i := 0; i < int(r.NumGlyphRules()); i++ {
			g := r.GetGlyphRule(uint16(i))
			w("%v %d %d %d %d %d:", g.Data, g.Condition(), g.HeadLen(), g.BodyLen(), g.TailLen(), g.OutLen())
			g.EachOut(func(v ggfnt.GlyphIndex) { w(" %d", v) })
			w("\n")
		}
	})
	sec("kerning", func() {
		k := f.Kerning()
		w("%d %d\n", k.NumPairs(), k.NumVertPairs())
		n := min(int(f.Metrics().NumGlyphs()), 40)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, b := k.Get(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j)), k.GetVert(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j))
				if a != 0 || b != 0 {
					w("%d,%d:%d,%d ", i, j, a, b)
				}
			}
		}
		w("\n")
	})
	return sb.String()
}

// Probes lists the code points worth probing for a model.
func Probes(m *Font) []rune {
	out := []rune{0, 'a', ' ', 0x10FFFF}
	for i := range m.Mappings {
		out = append(out, m.Mappings[i].Rune)
	}
	return out
}
