package fm

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// Opt selects what a generated font contains.
type Opt struct {
	Builder bool   // only what the builder's public API can create
	Focus   string // section to generate at full size ("" for all, moderately)
}

// GenDate generates a valid date.
func GenDate(t *pbt.T) ggfnt.Date {
	switch t.Weighted(5, 1, 1, 1) {
	case 1:
		return ggfnt.Date{}
	case 2:
		return ggfnt.Date{Year: uint16(t.Int(1, 65535))}
	case 3:
		return ggfnt.Date{Year: uint16(t.Int(1, 65535)), Month: uint8(t.Int(1, 12))}
	}
	return ggfnt.Date{Year: uint16(1 + t.Int(0, 65534)), Month: uint8(t.Int(1, 12)), Day: uint8(t.Int(1, 28))}
}

var basicAlpha = "abzAZqw"
var basicTail = "aabbzzAZ019-"

// GenBasicName generates a well-formed basic name.
func GenBasicName(t *pbt.T) string {
	n := 1
	switch t.Weighted(6, 3, 1) {
	case 0:
		n = t.Int(1, 4)
	case 1:
		n = t.Int(1, 10)
	case 2:
		n = t.Int(20, 32)
	}
	var sb strings.Builder
	sb.WriteByte(basicAlpha[t.Int(0, len(basicAlpha)-1)])
	for sb.Len() < n {
		c := basicTail[t.Int(0, len(basicTail)-1)]
		s := sb.String()
		if c == '-' && (s[len(s)-1] == '-' || sb.Len() == n-1) {
			c = 'b'
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

// GenUniqueName generates a basic name not in used.
func GenUniqueName(t *pbt.T, used map[string]bool) string {
	name := GenBasicName(t)
	for i := 0; used[name]; i++ {
		suffix := "x" + string(rune('a'+i%26)) + strings.Repeat("y", i/26)
		base := name
		if len(base)+len(suffix) > 32 {
			base = base[:32-len(suffix)]
		}
		cand := base + suffix
		if strings.Contains(cand, "--") {
			cand = strings.ReplaceAll(cand, "--", "-q")
		}
		if !used[cand] {
			name = cand
			break
		}
	}
	used[name] = true
	return name
}

// genUniqueText generates a text not in used, not empty and of at most max bytes.
func genUniqueText(t *pbt.T, used map[string]bool, max int) string {
	name := GenText(t, max-4)
	if t.Prob(30) {
		name = strings.Repeat([]string{"é", "日", "😀"}[t.Int(0, 2)], t.Size(1, (max-4)/4))
	}
	for i := 0; name == "" || used[name]; i++ {
		if name == "" {
			name = "x"
			continue
		}
		if cand := name + fmt.Sprintf("%04d", i); !used[cand] {
			name = cand
		}
	}
	used[name] = true
	return name
}

// GenText generates valid text without control characters of at most max bytes.
func GenText(t *pbt.T, max int) string {
	switch t.Weighted(4, 3, 3, 1) {
	case 0:
		n := t.Int(0, min(max, 8))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.Int('A', 'Z'))
		}
		return string(b)
	case 1: // a unit repeated up to a length
		unit := "a" + string(rune('b'+t.Int(0, 9)))
		n := t.Size(0, max)
		s := strings.Repeat(unit, n/2+1)
		return s[:n]
	case 2: // near a limit
		n := max - t.Int(0, min(max, 3))
		if t.Bool() {
			n = min(max, t.Int(100, 256))
		}
		return strings.Repeat(string(rune('c'+t.Int(0, 9))), n)
	default:
		var sb strings.Builder
		n := t.Int(0, 20)
		for i := 0; i < n; i++ {
			r := []rune{' ', '~', 'é', '日', '😀', '\u00a0', 0x10FFFF, 0xFFFD}[t.Int(0, 7)]
			if sb.Len()+4 > max {
				break
			}
			sb.WriteRune(r)
		}
		return sb.String()
	}
}

// MakeID returns a font ID with enough entropy to be accepted.
func MakeID(t *pbt.T) uint64 {
	id := t.Choice(^uint64(0)) ^ 0x1B1B1B1B1B1B1B1B
	if idEntropy(id) < 0.27 {
		return 0x1B1B1B1B1B1B1B1B
	}
	return id
}

// idEntropy is the smallest evenness of the two bit patterns over the disjoint
// pairs of the value and over the overlapping pairs of each half, so that no
// reasonable reading of "too little entropy" can reject a generated ID.
func idEntropy(v uint64) float64 {
	lowest := 1.0
	for _, w := range [][3]int{{0, 2, 32}, {0, 1, 32}, {32, 1, 31}, {0, 1, 63}} {
		var counts [4]int
		for i := 0; i < w[2]; i++ {
			counts[v>>(w[0]+i*w[1])&3]++
		}
		d := 0.0
		for _, c := range counts {
			d += math.Abs(float64(c) - float64(w[2])/4)
		}
		lowest = min(lowest, 1-d/(1.5*float64(w[2])))
	}
	return lowest
}

// GenMetrics generates metrics that pass the builder's own consistency checks
// and the format's rules.
func GenMetrics(t *pbt.T) Metrics {
	var m Metrics
	b := func(hi int) uint8 {
		if t.Prob(20) {
			return uint8(t.Int(0, hi))
		}
		return uint8(t.Int(0, min(hi, 20)))
	}
	m.Ascent = 1 + b(254)
	m.ExtraAscent = b(int(m.Ascent) - 1)
	m.Descent = b(255)
	m.ExtraDescent = b(255)
	m.UppercaseAscent = b(int(m.Ascent))
	m.MidlineAscent = b(int(m.UppercaseAscent))
	m.HorzInterspacing = b(255)
	m.LineGap = b(255)
	m.Vert = t.Bool()
	if m.Vert {
		m.VertInterspacing = b(255)
		m.VertLineWidth = 1 + b(254)
		m.VertLineGap = b(255)
	}
	if t.Prob(25) {
		m.MonoWidth = 1 + b(254)
	}
	return m
}

// GenMask generates a mask with pixels only inside [x0,x1)x[y0,y1).
// It may be fully transparent; its rectangle may exceed the pixels.
func GenMask(t *pbt.T, x0, y0, x1, y1, maxSide int) *image.Alpha {
	w := t.Int(0, min(maxSide, x1-x0))
	h := t.Int(0, min(maxSide, y1-y0))
	ox := t.Int(0, x1-x0-w)
	oy := t.Int(0, y1-y0-h)
	if x0 < 0 && x1 > 0 && t.Prob(80) { // mostly near the origin
		ox = min(ox, -x0+t.Int(0, 2))
		if ox+w > x1-x0 {
			ox = x1 - x0 - w
		}
	}
	img := image.NewAlpha(image.Rect(x0+ox, y0+oy, x0+ox+w, y0+oy+h))
	FillMask(t, img)
	return img
}

// FillMask draws a generated pattern on the mask.
func FillMask(t *pbt.T, img *image.Alpha) {
	b := img.Bounds()
	w, h := b.Dx(), b.Dy()
	if w == 0 || h == 0 {
		return
	}
	nvals := t.Weighted(5, 2, 2)
	val := func() uint8 {
		switch nvals {
		case 0:
			return 255
		case 1:
			return []uint8{255, 128}[t.Int(0, 1)]
		}
		return uint8(1 + t.Int(0, 254))
	}
	set := func(x, y int, v uint8) {
		if x >= 0 && y >= 0 && x < w && y < h {
			img.Pix[y*img.Stride+x] = v
		}
	}
	n := 1 + t.Int(0, 2)
	for k := 0; k < n; k++ {
		switch t.Weighted(3, 3, 2, 2, 1) {
		case 0: // random pixels, dense or sparse
			den := []int{2, 3, 8}[t.Int(0, 2)]
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if t.Choice(uint64(den)) == 1 {
						set(x, y, val())
					}
				}
			}
		case 1: // rectangle
			rx, ry := t.Int(0, w-1), t.Int(0, h-1)
			rw, rh := 1+t.Int(0, w-1-rx), 1+t.Int(0, h-1-ry)
			v := val()
			for y := ry; y < ry+rh; y++ {
				for x := rx; x < rx+rw; x++ {
					set(x, y, v)
				}
			}
		case 2: // diagonals
			x, y, v := t.Int(0, w-1), t.Int(0, h-1), val()
			dir := 1
			if t.Bool() {
				dir = -1
			}
			l := 1 + t.Int(0, max(w, h))
			for i := 0; i < l; i++ {
				set(x+i, y+dir*i, v)
			}
		case 3: // lines
			v := val()
			if t.Bool() {
				y := t.Int(0, h-1)
				for x := t.Int(0, w-1); x < w; x++ {
					set(x, y, v)
				}
			} else {
				x := t.Int(0, w-1)
				for y := t.Int(0, h-1); y < h; y++ {
					set(x, y, v)
				}
			}
		case 4: // erase a rectangle
			rx, ry := t.Int(0, w-1), t.Int(0, h-1)
			for y := ry; y < min(h, ry+2); y++ {
				for x := rx; x < min(w, rx+3); x++ {
					set(x, y, 0)
				}
			}
		}
	}
}

func (o Opt) full(t *pbt.T, section string) bool { return o.Focus == section }

// count draws a section size: 0..small when out of focus.
func (o Opt) count(t *pbt.T, section string, small, big int) int {
	if o.Focus == section {
		return t.Size(0, big)
	}
	if o.Focus == "" {
		return t.Int(0, small)
	}
	return t.Int(0, min(small, 1))
}

// GenFont generates a font model.
func GenFont(t *pbt.T, o Opt) *Font {
	m := &Font{ID: MakeID(t)}
	full := o.Focus == "header"
	m.VMajor, m.VMinor = uint16(t.Int(0, 65535)), uint16(t.Int(0, 65535))
	for i := range m.Dates {
		m.Dates[i] = GenDate(t)
	}
	if full || o.Focus == "" {
		m.Name = GenText(t, 255)
		if m.Name == "" {
			m.Name = "n"
		}
		m.Family = GenText(t, 255)
		m.Author = GenText(t, 255)
		if t.Prob(10) {
			m.About = GenText(t, 65535)
		} else {
			m.About = GenText(t, 2000)
		}
	} else {
		m.Name, m.Family, m.Author, m.About = "N", "F", "A", "about"
		if t.Prob(1) { // every section starts after the first 64KiB
			m.About = strings.Repeat("about", 13107)
		}
	}
	if full || o.Focus == "" || t.Prob(60) {
		m.M = GenMetrics(t)
	} else {
		m.M = Metrics{Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5, HorzInterspacing: 1, LineGap: 1}
	}
	genColors(t, m, o)
	genGlyphs(t, m, o)
	genSettings(t, m, o)
	genMapping(t, m, o)
	genRewrites(t, m, o)
	genKerning(t, m, o)
	return m
}

func genColors(t *pbt.T, m *Font, o Opt) {
	used := map[string]bool{}
	left := 255
	sections := o.count(t, "color", 3, 60)
	// color section names can be any text of up to 255 bytes
	textNames := t.Prob(40)
	single := o.Focus == "color" && t.Prob(2)
	// all sections of a kind, or of both
	kinds := func() bool { return t.Bool() }
	long := 0   // every name is at least this long
	if single { // as many sections as possible
		sections = 255 - t.Int(0, 1)
		if pct := pbt.Pick(t, []int{0, 2, 50, 98, 100}); pct != 50 {
			kinds = func() bool { return t.Prob(pct) }
		}
		if textNames && t.Bool() {
			long = pbt.Pick(t, []int{130, 250, 255})
		}
	}
	for i := 0; i < sections && left > 0; i++ {
		n := min(left, t.Size(1, 40))
		if single {
			n = 1
		}
		if o.Focus == "color" && t.Prob(3) {
			n = left
		}
		left -= n
		var name string
		if textNames {
			name = genUniqueText(t, used, 255)
		} else {
			name = GenUniqueName(t, used)
		}
		if len(name) < long {
			name = longName(t, name, long, used)
		}
		if kinds() {
			alphas := make([]uint8, n)
			for j := range alphas {
				alphas[j] = t.Byte()
			}
			m.Dyes = append(m.Dyes, Dye{name, alphas})
		} else {
			colors := make([]color.RGBA, n)
			for j := range colors {
				a := t.Byte()
				colors[j] = color.RGBA{uint8(t.Int(0, int(a))), uint8(t.Int(0, int(a))), uint8(t.Int(0, int(a))), a}
			}
			m.Palettes = append(m.Palettes, Palette{name, colors})
		}
	}
	if len(m.Dyes)+len(m.Palettes) == 0 && o.Builder {
		// the builder adds this dye on its own
		m.Dyes = []Dye{{"main", []uint8{255}}}
	}
}

// longName makes a name longer, to between n and 255 bytes.
func longName(t *pbt.T, name string, n int, used map[string]bool) string {
	n = t.Int(n, 255)
	for {
		long := name + strings.Repeat(pbt.Pick(t, []string{"x", "-", "q", "7"}), max(0, n-len(name)))
		if !used[long] {
			used[long] = true
			return long
		}
		if n == 255 {
			return name
		}
		n++
	}
}

func genGlyphs(t *pbt.T, m *Font, o Opt) {
	n := 1
	switch o.Focus {
	case "glyphs":
		n = t.Size(1, 120)
	case "mapping", "kerning", "rewrites":
		n = t.Size(1, 400)
	case "":
		n = t.Size(1, 30)
	default:
		n = t.Int(1, 3)
	}
	used := map[string]bool{}
	namePct := []int{0, 30, 90}[t.Int(0, 2)]
	for i := 0; i < n; i++ {
		var g Glyph
		g.Placement.Advance = t.Byte()
		if m.M.Vert {
			g.Placement.TopAdvance, g.Placement.BottomAdvance, g.Placement.HorzCenter = t.Byte(), t.Byte(), t.Byte()
		}
		if o.Focus == "glyphs" || (o.Focus == "" && n < 15) {
			x0, x1 := -20, 40
			if m.M.MonoWidth > 0 {
				x0, x1 = 0, int(m.M.MonoWidth)
			}
			y0 := -(int(m.M.Ascent) + int(m.M.ExtraAscent))
			y1 := int(m.M.Descent) + int(m.M.ExtraDescent)
			g.Mask = GenMask(t, x0, max(y0, -60), x1, min(y1, 60), 12)
		} else {
			g.Mask = image.NewAlpha(image.Rect(0, -1, 1, 0))
			if t.Bool() {
				g.Mask.Pix[0] = 255
			}
		}
		if t.Prob(namePct) {
			g.Name = GenUniqueName(t, used)
		}
		m.Glyphs = append(m.Glyphs, g)
	}
}

func genSettings(t *pbt.T, m *Font, o Opt) {
	n := o.count(t, "settings", 3, 60)
	if o.Focus == "mapping" || o.Focus == "conditions" {
		n = t.Int(0, 5)
		if o.Focus == "conditions" {
			n = t.Size(1, 20)
		}
	}
	used := map[string]bool{}
	words := map[string]bool{}
	var wordList []string
	style := t.Weighted(3, 2, 2) // mixture, mostly predefined, mostly custom
	predefUsable := func(i int) bool {
		w := ggfnt.GetPredefinedWord(uint8(i))
		return w != "" && IsBasicName(w)
	}
	for i := 0; i < n; i++ {
		s := Setting{Name: GenUniqueName(t, used)}
		k := 1
		if o.Focus == "settings" {
			k = t.Size(1, 100)
			if t.Prob(2) {
				k = 255
			}
		} else {
			k = t.Int(1, 4)
			if o.Focus == "mapping" && t.Prob(10) {
				k = t.Int(1, 60)
			}
		}
		for j := 0; j < k; j++ {
			var w string
			reuse := len(wordList) >= 230 || (len(wordList) > 0 && t.Prob(25))
			predef := []int{50, 90, 10}[style]
			switch {
			case reuse:
				w = wordList[t.Int(0, len(wordList)-1)]
			case t.Prob(predef):
				x := t.Int(0, 254)
				for !predefUsable(x) {
					x = (x + 1) % 255
				}
				w = ggfnt.GetPredefinedWord(uint8(x))
			default:
				w = GenBasicName(t)
			}
			if !words[w] {
				words[w] = true
				wordList = append(wordList, w)
			}
			s.Options = append(s.Options, w)
		}
		m.Settings = append(m.Settings, s)
	}
	// spec encoder word table: custom words for everything the predefined
	// table (as overridden) cannot provide
	if !o.Builder {
		need := map[string]bool{}
		for _, w := range wordList {
			idx := -1
			for i := 0; i < 255; i++ {
				if ggfnt.GetPredefinedWord(uint8(i)) == w {
					idx = i
				}
			}
			if idx < 0 || t.Prob(15) {
				need[w] = true
			}
		}
		for {
			// predefined words below the number of custom words are hidden
			changed := false
			for _, w := range wordList {
				if need[w] {
					continue
				}
				ok := false
				for i := len(need); i < 255; i++ {
					if ggfnt.GetPredefinedWord(uint8(i)) == w {
						ok = true
					}
				}
				if !ok {
					need[w] = true
					changed = true
				}
			}
			if !changed {
				break
			}
		}
		for _, w := range wordList {
			if need[w] {
				m.CustomWords = append(m.CustomWords, w)
			}
		}
		for i := len(m.CustomWords) - 1; i > 0; i-- { // any order
			j := t.Int(0, i)
			m.CustomWords[i], m.CustomWords[j] = m.CustomWords[j], m.CustomWords[i]
		}
	}
}

// IsBasicName is the specification's basic-name rule:
// [a-zA-Z](-?[A-Za-z0-9]+)*, at most 32 characters.
func IsBasicName(s string) bool {
	if len(s) == 0 || len(s) > 32 {
		return false
	}
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	if !letter(s[0]) {
		return false
	}
	for i := 1; i < len(s); i++ {
		switch {
		case letter(s[i]), s[i] >= '0' && s[i] <= '9':
		case s[i] == '-':
			if s[i-1] == '-' || i == len(s)-1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// GenRune generates a mappable code point.
func GenRune(t *pbt.T) rune {
	switch t.Weighted(6, 2, 1, 1) {
	case 0:
		return rune(t.Int(' ', '~'))
	case 1:
		return rune(t.Int(' ', 0x500))
	case 2:
		return rune(t.Int(' ', 0x10FFFF))
	}
	return []rune{' ', 0x7F, 0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF, 0xE000, 0x1F600}[t.Int(0, 8)]
}

func genGroup(t *pbt.T, m *Font, o Opt, minSize, maxSize int) Group {
	n := len(m.Glyphs)
	var g Group
	size := minSize
	switch t.Weighted(5, 3, 1) {
	case 0:
		size = t.Int(minSize, max(minSize, min(maxSize, 3)))
	case 1:
		size = t.Int(minSize, max(minSize, min(maxSize, 12)))
	case 2:
		size = t.Int(minSize, maxSize)
	}
	if t.Bool() && size <= n { // consecutive
		first := t.Int(0, n-size)
		for i := 0; i < size; i++ {
			g.Glyphs = append(g.Glyphs, uint16(first+i))
		}
		g.Range = t.Prob(70)
	} else {
		for i := 0; i < size; i++ {
			g.Glyphs = append(g.Glyphs, uint16(t.Int(0, n-1)))
		}
	}
	if size > 1 {
		g.Flags = ggfnt.AnimationFlags(t.Byte())
	}
	return g
}

func genMapping(t *pbt.T, m *Font, o Opt) {
	if len(m.Settings) > 0 {
		n := o.count(t, "mapping", 2, 12)
		if o.Focus == "mapping" && !o.Builder && t.Prob(1) {
			n = 254
		}
		for i := 0; i < n; i++ {
			perm := make([]uint8, len(m.Settings))
			for j := range perm {
				perm[j] = uint8(j)
			}
			for j := len(perm) - 1; j > 0; j-- {
				k := t.Int(0, j)
				perm[j], perm[k] = perm[k], perm[j]
			}
			var sw []uint8
			cases := 1
			want := t.Int(1, min(len(perm), 5))
			for _, s := range perm {
				c := cases * len(m.Settings[s].Options)
				if c <= 254 && len(sw) < want {
					sw = append(sw, s)
					cases = c
				}
			}
			if len(sw) > 0 {
				m.Switches = append(m.Switches, sw)
			}
		}
	}
	n := o.count(t, "mapping", 6, 120)
	seen := map[rune]bool{}
	budget := 4000 // total glyph slots
	for i := 0; i < n; i++ {
		r := GenRune(t)
		if !o.Builder && t.Prob(3) { // the builder refuses these, the format doesn't
			r = rune(t.Int(0, 31))
		}
		if seen[r] {
			continue
		}
		seen[r] = true
		mp := Mapping{Rune: r, Kind: 255}
		kind := t.Weighted(3, 3, 4)
		if kind == 2 && len(m.Switches) == 0 {
			kind = 0
		}
		maxGroup := 128
		if o.Builder {
			maxGroup = 127
		}
		switch kind {
		case 0:
			mp.Cases = []Group{{Glyphs: []uint16{uint16(t.Int(0, len(m.Glyphs)-1))}}}
		case 1:
			mp.Kind = 254
			lo := 1
			if o.Builder {
				lo = 2
			}
			mp.Cases = []Group{genGroup(t, m, o, lo, maxGroup)}
		case 2:
			mp.Kind = uint8(t.Int(0, len(m.Switches)-1))
			nc := m.NumCases(mp.Kind)
			for c := 0; c < nc; c++ {
				mx := maxGroup
				if budget < 500 || nc > 20 {
					mx = 3
				}
				g := genGroup(t, m, o, 1, mx)
				budget -= len(g.Glyphs)
				mp.Cases = append(mp.Cases, g)
			}
		}
		m.Mappings = append(m.Mappings, mp)
		if budget < 0 {
			break
		}
	}
	if o.Focus == "mapping" && t.Prob(2) { // a block without gaps
		p := NewPrng(t)
		first := pbt.Pick(t, []int{0, ' ', ' ', 0x80, 0xFF, 0x3000, 0xFF00, 0xFFC0, 0x1F600, 0x10FF00})
		if o.Builder && first < ' ' {
			first = ' '
		}
		n := pbt.Pick(t, []int{95, 96, 128, 128, 224, 255, 256, 257, t.Int(10, 700)})
		for r := rune(first); r < rune(first+n) && r <= 0x10FFFF; r++ {
			if seen[r] {
				continue
			}
			seen[r] = true
			m.Mappings = append(m.Mappings, Mapping{Rune: r, Kind: 255, Cases: []Group{{Glyphs: []uint16{uint16(p.N(len(m.Glyphs)))}}}})
		}
		t.Label("code points without gaps")
	}
	sort.Slice(m.Mappings, func(a, b int) bool { return uint32(m.Mappings[a].Rune) < uint32(m.Mappings[b].Rune) })
}

func genRewrites(t *pbt.T, m *Font, o Opt) {
	nGlyphs := len(m.Glyphs)
	if !o.Builder && len(m.Settings) > 0 {
		n := o.count(t, "rewrites", 2, 20)
		if o.Focus == "conditions" {
			n = t.Size(1, 254)
		}
		size := 0
		for i := 0; i < n; i++ {
			c := GenCond(t, len(m.Settings), t.Int(0, 3))
			size += len(c.Encode(nil))
			if size > 65535 {
				break
			}
			m.Conditions = append(m.Conditions, c)
		}
	}
	// sets
	if !o.Builder {
		n := o.count(t, "rewrites", 2, 12)
		for i := 0; i < n; i++ {
			var s Set
			nr, nl := t.Size(0, 20), t.Size(0, 20)
			if t.Prob(1) {
				nr, nl = t.Int(0, 255), t.Int(0, 255)
			}
			for j := 0; j < nr; j++ {
				first := uint32(GenRune(t))
				s.Ranges = append(s.Ranges, [2]uint32{first, first + uint32(t.Int(0, 255))})
			}
			for j := 0; j < nl; j++ {
				s.List = append(s.List, uint32(GenRune(t)))
			}
			m.RuneSets = append(m.RuneSets, s)
		}
	}
	n := o.count(t, "rewrites", 2, 12)
	for i := 0; i < n; i++ {
		var s Set
		nr, nl := t.Size(0, 20), t.Size(0, 20)
		if t.Prob(2) {
			nr, nl = t.Int(0, 255), t.Int(0, 255)
		}
		dup := map[[2]uint32]bool{}
		for j := 0; j < nr; j++ {
			first := t.Int(0, nGlyphs-1)
			r := [2]uint32{uint32(first), uint32(first + t.Int(0, min(255, nGlyphs-1-first)))}
			if dup[r] {
				continue
			}
			dup[r] = true
			s.Ranges = append(s.Ranges, r)
		}
		dup2 := map[uint32]bool{}
		for j := 0; j < nl; j++ {
			g := uint32(t.Int(0, nGlyphs-1))
			if dup2[g] {
				continue
			}
			dup2[g] = true
			s.List = append(s.List, g)
		}
		m.GlyphSets = append(m.GlyphSets, s)
	}
	n = o.count(t, "rewrites", 3, 40)
	for i := 0; i < n; i++ {
		var r Rule
		if o.Builder { // simple rules only: one output, body only
			r.Cond = 255
			r.Body = genBlock(t, 1, blockMax(t), 0, func() uint32 { return uint32(GenRune(t)) })
			r.Out = []uint32{uint32(GenRune(t))}
		} else {
			r = genRule(t, m, len(m.RuneSets), func() uint32 { return uint32(GenRune(t)) })
		}
		m.Utf8Rules = append(m.Utf8Rules, r)
	}
	n = o.count(t, "rewrites", 3, 40)
	for i := 0; i < n; i++ {
		r := genRule(t, m, len(m.GlyphSets), func() uint32 { return uint32(t.Int(0, nGlyphs-1)) })
		if o.Builder {
			r.Cond = 255
		}
		m.GlyphRules = append(m.GlyphRules, r)
	}
}

func blockMax(t *pbt.T) int {
	switch t.Weighted(6, 3, 1) {
	case 0:
		return 3
	case 1:
		return 20
	}
	return 80
}

// SetRuns tells which elements of a block are sets: random ones, or in long
// blocks runs of around 15, which is how many are stored together.
func SetRuns(t *pbt.T, n, pct int) func(i int) bool {
	if n <= 14 || t.Bool() {
		return func(int) bool { return t.Prob(pct) }
	}
	isSet, left := t.Bool(), 0
	return func(int) bool {
		if left == 0 {
			isSet = !isSet
			left = pbt.Pick(t, []int{1, 2, 14, 15, 15, 16, 30, 31})
		}
		left--
		return isSet
	}
}

func genBlock(t *pbt.T, lo, hi, numSets int, val func() uint32) []Elem {
	n := t.Int(lo, max(lo, hi))
	var out []Elem
	isSet := SetRuns(t, n, 40)
	for i := 0; i < n; i++ {
		if numSets > 0 && isSet(i) {
			out = append(out, Elem{true, uint32(t.Int(0, numSets-1))})
		} else {
			out = append(out, Elem{false, val()})
		}
	}
	return out
}

func genRule(t *pbt.T, m *Font, numSets int, val func() uint32) Rule {
	var r Rule
	r.Cond = 255
	if len(m.Conditions) > 0 && t.Bool() {
		r.Cond = uint8(t.Int(0, len(m.Conditions)-1))
	}
	r.Body = genBlock(t, 1, blockMax(t), numSets, val)
	if t.Prob(40) {
		r.Head = genBlock(t, 0, blockMax(t), numSets, val)
	}
	if t.Prob(40) {
		r.Tail = genBlock(t, 0, blockMax(t), numSets, val)
	}
	if t.Prob(2) { // as long as a rule gets, mostly with one long block
		var n [3]int
		left := 254
		for _, i := range pbt.Pick(t, [][]int{{0, 1, 2}, {1, 0, 2}, {2, 0, 1}}) {
			n[i] = min(left, pbt.Pick(t, []int{0, t.Int(0, 80), t.Int(80, 254), 254}))
			left -= n[i]
		}
		if n[1] == 0 || t.Bool() {
			n[1]++
		}
		if t.Bool() { // fewer distinct values, so that long blocks can match
			few := make([]uint32, t.Int(1, 3))
			for i := range few {
				few[i] = val()
			}
			val = func() uint32 { return pbt.Pick(t, few) }
		}
		r.Head = genBlock(t, n[0], n[0], numSets, val)
		r.Body = genBlock(t, n[1], n[1], numSets, val)
		r.Tail = genBlock(t, n[2], n[2], numSets, val)
	}
	k := t.Int(1, len(r.Body))
	if t.Prob(10) {
		k = len(r.Body)
	}
	for i := 0; i < k; i++ {
		r.Out = append(r.Out, val())
	}
	return r
}

func genKerning(t *pbt.T, m *Font, o Opt) {
	n := len(m.Glyphs)
	gen := func(count int) []Kern {
		var ks []Kern
		seen := map[[2]uint16]bool{}
		for i := 0; i < count; i++ {
			a, b := uint16(t.Int(0, n-1)), uint16(t.Int(0, n-1))
			if seen[[2]uint16{a, b}] {
				continue
			}
			seen[[2]uint16{a, b}] = true
			v := int8(t.Byte())
			if v == 0 {
				v = 1
			}
			ks = append(ks, Kern{a, b, v})
		}
		return ks
	}
	m.HorzKern = gen(o.count(t, "kerning", 4, 300))
	if !o.Builder && m.M.Vert {
		m.VertKern = gen(o.count(t, "kerning", 4, 300))
	}
}
