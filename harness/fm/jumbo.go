package fm

import (
	"image"
	"sort"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// Prng expands a single drawn seed into the bulk of a big font.
type Prng uint64

func (p *Prng) Next() uint64 {
	*p += 0x9E3779B97F4A7C15
	z := uint64(*p)
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (p *Prng) N(n int) int { return int(p.Next() % uint64(n)) }

// NewPrng draws a seed.
func NewPrng(t *pbt.T) Prng { return Prng(t.Choice(1<<32 - 1)) }

// bigCount draws a count around the limits where index arithmetic in 16 bits
// (alone or multiplied by 2, 3, 4 or 5) overflows.
func bigCount(t *pbt.T, most int) int {
	base := pbt.Pick(t, []int{8192, 13107, 16384, 21845, 32768, 43690, most})
	n := base + t.Int(-40, 400)
	return max(1, min(n, most))
}

// Jumbo grows one section of the model to tens of thousands of elements.
func Jumbo(t *pbt.T, m *Font, o Opt, section string) {
	p := NewPrng(t)
	growGlyphs := func(n int) {
		used := map[string]bool{}
		for i := range m.Glyphs {
			used[m.Glyphs[i].Name] = true
		}
		pool := make([]*image.Alpha, 12)
		for i := range pool {
			x1 := 8
			if m.M.MonoWidth > 0 {
				x1 = min(8, int(m.M.MonoWidth))
			}
			pool[i] = GenMask(t, 0, -min(6, int(m.M.Ascent)), x1, 0, 6)
		}
		mod := 1 + p.N(3)
		if section != "glyphs" {
			mod = 1 << 30
		}
		for i := len(m.Glyphs); i < n; i++ {
			var g Glyph
			g.Mask = pool[p.N(len(pool))]
			g.Placement.Advance = uint8(p.Next())
			if m.M.Vert {
				v := p.Next()
				g.Placement.TopAdvance, g.Placement.BottomAdvance, g.Placement.HorzCenter = uint8(v), uint8(v>>8), uint8(v>>16)
			}
			if i%mod == mod-1 {
				name := []byte{'g'}
				for k := i; k > 0; k /= 26 {
					name = append(name, byte('a'+k%26))
				}
				if p.N(3) == 0 {
					name = append(name, "-some-longer-name"...)
				}
				if s := string(name); !used[s] {
					g.Name = s
					used[s] = true
				}
			}
			m.Glyphs = append(m.Glyphs, g)
		}
	}
	switch section {
	case "glyphs":
		growGlyphs(bigCount(t, ggfnt.MaxGlyphs))
	case "settings":
		growSettings(t, m, o, &p)
	case "mapping":
		if t.Prob(40) {
			growSwitches(t, m, o, &p)
			return
		}
		if t.Bool() {
			growGlyphs(bigCount(t, ggfnt.MaxGlyphs))
		}
		n := bigCount(t, ggfnt.MaxGlyphs)
		if !o.Builder && t.Bool() {
			n = bigCount(t, 65535)
		}
		seen := map[rune]bool{}
		for i := range m.Mappings {
			seen[m.Mappings[i].Rune] = true
		}
		span := pbt.Pick(t, []int{n + n/8 + 200, 0x10FFFF - 32})
		for len(m.Mappings) < n {
			r := rune(' ' + p.N(span))
			if seen[r] {
				continue
			}
			seen[r] = true
			mp := Mapping{Rune: r, Kind: 255, Cases: []Group{{Glyphs: []uint16{uint16(p.N(len(m.Glyphs)))}}}}
			if p.N(4) == 0 {
				mp.Kind = 254
				g := Group{Flags: ggfnt.AnimationFlags(p.Next())}
				for k := 2 + p.N(4); k > 0; k-- {
					g.Glyphs = append(g.Glyphs, uint16(p.N(len(m.Glyphs))))
				}
				mp.Cases = []Group{g}
			}
			m.Mappings = append(m.Mappings, mp)
		}
		sort.Slice(m.Mappings, func(a, b int) bool { return uint32(m.Mappings[a].Rune) < uint32(m.Mappings[b].Rune) })
	case "conditions":
		growConditions(t, m, &p)
	case "kerning":
		if t.Prob(70) {
			growGlyphs(bigCount(t, ggfnt.MaxGlyphs))
		} else {
			growGlyphs(600)
		}
		n := len(m.Glyphs)
		grow := func(ks []Kern) []Kern {
			want := bigCount(t, 90000)
			seen := map[[2]uint16]bool{}
			for _, k := range ks {
				seen[[2]uint16{k.A, k.B}] = true
			}
			spread := pbt.Pick(t, []int{n, min(n, 400)}) // few first glyphs, or all
			for len(ks) < want {
				a, b := uint16(n-1-p.N(spread)), uint16(p.N(n))
				if seen[[2]uint16{a, b}] {
					continue
				}
				seen[[2]uint16{a, b}] = true
				v := int8(p.Next())
				if v == 0 {
					v = -128
				}
				ks = append(ks, Kern{a, b, v})
			}
			return ks
		}
		if o.Builder || !m.M.Vert || t.Bool() {
			m.HorzKern = grow(m.HorzKern)
		} else {
			m.VertKern = grow(m.VertKern)
		}
	case "rewrites":
		if t.Prob(30) {
			growSets(t, m, o, &p)
			return
		}
		growGlyphs(pbt.Pick(t, []int{2, 300, 40000}))
		grow := func(rules []Rule, val func() uint32, one bool) []Rule {
			want := bigCount(t, 65535)
			if t.Bool() {
				want = t.Int(2000, 6000)
			}
			for len(rules) < want {
				r := Rule{Cond: 255}
				for k := 1 + p.N(3); k > 0; k-- {
					r.Body = append(r.Body, Elem{V: val()})
				}
				if !one {
					for k := p.N(3) - 1; k > 0; k-- {
						r.Head = append(r.Head, Elem{V: val()})
					}
					for k := p.N(3) - 1; k > 0; k-- {
						r.Tail = append(r.Tail, Elem{V: val()})
					}
				} else if len(r.Body) == 1 {
					r.Body = append(r.Body, Elem{V: val()})
				}
				r.Out = append(r.Out, val())
				if !one && len(r.Body) > 1 {
					r.Out = append(r.Out, val())
				}
				rules = append(rules, r)
			}
			return rules
		}
		if t.Bool() {
			m.Utf8Rules = grow(m.Utf8Rules, func() uint32 { return uint32(' ' + p.N(0x5000)) }, o.Builder)
		} else {
			m.GlyphRules = grow(m.GlyphRules, func() uint32 { return uint32(p.N(len(m.Glyphs))) }, false)
		}
	}
}

// growSettings brings the settings near their limits: 255 settings with up to
// 255 options each, out of up to 255 words.
func growSettings(t *pbt.T, m *Font, o Opt, p *Prng) {
	var words []string
	have := map[string]bool{}
	add := func(w string) {
		if len(words) < 255 && !have[w] {
			have[w] = true
			words = append(words, w)
		}
	}
	for _, s := range m.Settings {
		for _, w := range s.Options {
			add(w)
		}
	}
	custom := t.Int(0, 255)
	longest := t.Prob(40) // all words have the longest length
	if longest {
		custom = 255
	}
	for i := 0; i < custom; i++ {
		w := []byte{'w'}
		k := 1 + p.N(31)
		if longest {
			k = 31
		}
		for ; k > 0; k-- {
			w = append(w, byte('a'+p.N(26)))
		}
		add(string(w))
	}
	for i := 254; i >= 0 && len(words) < 255; i-- {
		if w := ggfnt.GetPredefinedWord(uint8(i)); w != "" && IsBasicName(w) && p.N(4) > 0 {
			add(w)
		}
	}
	used := map[string]bool{}
	for i := range m.Settings {
		used[m.Settings[i].Name] = true
	}
	n := 255 - pbt.Pick(t, []int{0, 0, 1, 2, 100})
	most := pbt.Pick(t, []int{1, 3, 255, 255})
	long := t.Bool()
	for i := 0; len(m.Settings) < n; i++ {
		name := []byte{'s', byte('a' + i/26%26), byte('a' + i%26)}
		for long && len(name) < 32 {
			name = append(name, byte('a'+p.N(26)))
		}
		if used[string(name)] {
			continue
		}
		used[string(name)] = true
		s := Setting{Name: string(name)}
		for k := max(1, most-p.N(3)); k > 0; k-- {
			s.Options = append(s.Options, words[p.N(len(words))])
		}
		m.Settings = append(m.Settings, s)
	}
	if !o.Builder { // every word in the table, in any order
		m.CustomWords = words
		for i := len(words) - 1; i > 0; i-- {
			j := p.N(i + 1)
			words[i], words[j] = words[j], words[i]
		}
	}
}

// growSwitches makes up to 254 switches of up to 255 settings, and mappings
// with up to 254 cases.
func growSwitches(t *pbt.T, m *Font, o Opt, p *Prng) {
	used := map[string]bool{}
	for i := range m.Settings {
		used[m.Settings[i].Name] = true
	}
	word := "pixel"
	for i := range m.Settings {
		word = m.Settings[i].Options[0] // in the word table for sure
	}
	if len(m.Settings) == 0 && !o.Builder {
		m.CustomWords = append(m.CustomWords, word)
	}
	n := t.Int(2, 255)
	if t.Prob(30) {
		n = 255
	}
	many := pbt.Pick(t, []int{6, 60, 600}) // one in many settings has several options
	for i := 0; len(m.Settings) < n; i++ {
		name := string([]byte{'s', byte('a' + i/26%26), byte('a' + i%26)})
		if used[name] {
			continue
		}
		k := 1
		if p.N(many) == 0 {
			k = 1 + p.N(3)
		}
		if p.N(4*many) == 0 {
			k = 1 + p.N(254)
		}
		s := Setting{Name: name}
		for ; k > 0; k-- {
			s.Options = append(s.Options, word)
		}
		m.Settings = append(m.Settings, s)
	}
	full := t.Bool() // all switches are as long as possible
	nsw := 254 - pbt.Pick(t, []int{0, 0, 1, 150, 240})
	for tries := 0; len(m.Switches) < nsw && tries < 1000; tries++ {
		perm := make([]uint8, len(m.Settings))
		for i := range perm {
			perm[i] = uint8(i)
		}
		for i := len(perm) - 1; i > 0; i-- {
			j := p.N(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		want, cases := 1+p.N(len(perm)), 1
		if full {
			want = len(perm)
		}
		var sw []uint8
		for _, s := range perm {
			if c := cases * len(m.Settings[s].Options); c <= 254 && len(sw) < want {
				sw = append(sw, s)
				cases = c
			}
		}
		if len(sw) == 0 {
			continue
		}
		m.Switches = append(m.Switches, sw)
	}
	seen := map[rune]bool{}
	for i := range m.Mappings {
		seen[m.Mappings[i].Rune] = true
	}
	for k := t.Int(50, 600); k > 0; k-- {
		r := rune(' ' + p.N(5000))
		if seen[r] {
			continue
		}
		seen[r] = true
		mp := Mapping{Rune: r, Kind: uint8(p.N(len(m.Switches)))}
		for c := m.NumCases(mp.Kind); c > 0; c-- {
			var g Group
			size := 1
			if p.N(5) == 0 {
				size = 2 + p.N(4)
				g.Flags = ggfnt.AnimationFlags(p.Next())
			}
			for ; size > 0; size-- {
				g.Glyphs = append(g.Glyphs, uint16(p.N(len(m.Glyphs))))
			}
			mp.Cases = append(mp.Cases, g)
		}
		m.Mappings = append(m.Mappings, mp)
	}
	sort.Slice(m.Mappings, func(a, b int) bool { return uint32(m.Mappings[a].Rune) < uint32(m.Mappings[b].Rune) })
}

// growSets makes up to 255 sets of each kind, with data close to the limit of
// 64KiB.
func growSets(t *pbt.T, m *Font, o Opt, p *Prng) {
	glyphs := 700
	if t.Prob(40) {
		glyphs = bigCount(t, ggfnt.MaxGlyphs)
	}
	for i := len(m.Glyphs); i < glyphs; i++ {
		m.Glyphs = append(m.Glyphs, Glyph{Mask: m.Glyphs[0].Mask, Placement: m.Glyphs[0].Placement})
	}
	fill := func(sets []Set, rangeSize, elemSize int, gen func() (uint32, uint32)) []Set {
		size := 0
		for _, s := range sets {
			size += 2 + len(s.Ranges)*rangeSize + len(s.List)*elemSize
		}
		many := t.Bool()
		limit := 65535 - pbt.Pick(t, []int{0, 0, 0, 1, 2, 3, 30000})
		for len(sets) < 255 && size+2 <= limit {
			var s Set
			nr, nl := 255-p.N(4), 255-p.N(4)
			if many {
				nr, nl = p.N(60), p.N(60)
			}
			size += 2
			seen, seen2 := map[uint32]bool{}, map[uint32]bool{}
			for ; nr > 0 && size+rangeSize <= limit; nr-- {
				a, b := gen()
				if seen[a] {
					continue
				}
				seen[a] = true
				s.Ranges = append(s.Ranges, [2]uint32{a, b})
				size += rangeSize
			}
			for ; nl > 0 && size+elemSize <= limit; nl-- {
				a, _ := gen()
				if seen2[a] {
					continue
				}
				seen2[a] = true
				s.List = append(s.List, a)
				size += elemSize
			}
			sets = append(sets, s)
		}
		return sets
	}
	m.GlyphSets = fill(m.GlyphSets, 3, 2, func() (uint32, uint32) {
		a := uint32(p.N(len(m.Glyphs)))
		return a, min(a+uint32(p.N(256)), uint32(len(m.Glyphs)-1))
	})
	if !o.Builder {
		m.RuneSets = fill(m.RuneSets, 5, 4, func() (uint32, uint32) {
			a := uint32(' ' + p.N(0x20000))
			return a, a + uint32(p.N(256))
		})
	}
}

// growConditions makes up to 254 conditions on up to 255 settings, with data
// close to the limit of 64KiB.
func growConditions(t *pbt.T, m *Font, p *Prng) {
	used := map[string]bool{}
	for i := range m.Settings {
		used[m.Settings[i].Name] = true
	}
	word := "pixel"
	for i := range m.Settings {
		word = m.Settings[i].Options[0] // in the word table for sure
	}
	if len(m.Settings) == 0 {
		m.CustomWords = append(m.CustomWords, word)
	}
	n := t.Int(100, 255)
	if t.Prob(30) {
		n = 255
	}
	for i := 0; len(m.Settings) < n; i++ {
		name := string([]byte{'s', byte('a' + i/26%26), byte('a' + i%26)})
		if used[name] {
			continue
		}
		s := Setting{Name: name}
		for k := 1 + p.N(5); k > 0; k-- {
			s.Options = append(s.Options, word)
		}
		m.Settings = append(m.Settings, s)
	}
	var gen func(terms, depth int) *Cond
	gen = func(terms, depth int) *Cond {
		if terms >= 2 && depth > 0 {
			c := &Cond{Op: p.N(2)}
			k := min(31, 2+p.N(30), terms)
			if depth == 1 {
				k = min(31, terms)
			}
			for i := 0; i < k; i++ {
				c.Terms = append(c.Terms, gen(terms/k, depth-1))
			}
			return c
		}
		c := &Cond{Op: 2 + p.N(6), Cmp: p.N(6), Setting: uint8(p.N(n)), Operand: uint8(p.N(5))}
		if c.Op > 3 {
			c.Cmp = 0
			if p.N(5) == 0 {
				c.Operand = uint8(p.N(32))
			}
		} else if c.Op == 2 {
			c.Operand = uint8(p.N(n))
		} else if p.N(5) == 0 {
			c.Operand = uint8(p.N(256))
		}
		return c
	}
	nconds := 254 - pbt.Pick(t, []int{0, 0, 1, 100, 250})
	terms := pbt.Pick(t, []int{1, 31, 100, 100, 900})
	size := 0
	for _, c := range m.Conditions {
		size += len(c.Encode(nil))
	}
	for len(m.Conditions) < nconds {
		c := gen(1+p.N(2*terms), 1+p.N(3))
		k := len(c.Encode(nil))
		if size+k > 65535 {
			if terms == 1 {
				break
			}
			terms = max(1, terms/2)
			continue
		}
		size += k
		m.Conditions = append(m.Conditions, c)
	}
}
