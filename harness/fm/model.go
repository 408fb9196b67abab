// Package fm has a plain-data model of a ggfnt font, generators for it, an
// encoder written from specification.md (independent of the builder), and
// checkers comparing a *ggfnt.Font with the model.
package fm

import (
	"sort"

	"image"
	"image/color"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

type Dye struct {
	Name   string
	Alphas []uint8
}

type Palette struct {
	Name   string
	Colors []color.RGBA
}

type Glyph struct {
	Placement ggfnt.GlyphPlacement
	Name      string
	Mask      *image.Alpha
}

type Setting struct {
	Name    string
	Options []string
}

type Group struct {
	Glyphs []uint16
	Flags  ggfnt.AnimationFlags
	Range  bool // encoded as a range (spec encoder)
}

type Mapping struct {
	Rune  rune
	Kind  uint8 // 255 direct, 254 single group, otherwise switch index
	Cases []Group
}

// Elem is an element of a rule block: a direct value or a set index.
type Elem struct {
	IsSet bool
	V     uint32
}

type Rule struct {
	Cond             uint8
	Head, Body, Tail []Elem
	Out              []uint32
}

func (r *Rule) In() []Elem {
	in := append([]Elem{}, r.Head...)
	in = append(in, r.Body...)
	return append(in, r.Tail...)
}

type Set struct {
	Ranges [][2]uint32 // first, last (inclusive)
	List   []uint32
}

func (s *Set) Contains(v uint32) bool {
	for _, r := range s.Ranges {
		if v >= r[0] && v <= r[1] {
			return true
		}
	}
	for _, e := range s.List {
		if e == v {
			return true
		}
	}
	return false
}

type Metrics struct {
	Vert                                       bool
	MonoWidth                                  uint8
	Ascent, ExtraAscent, Descent, ExtraDescent uint8
	UppercaseAscent, MidlineAscent             uint8
	HorzInterspacing, VertInterspacing         uint8
	LineGap, VertLineWidth, VertLineGap        uint8
}

type Font struct {
	ID                          uint64
	VMajor, VMinor              uint16
	Dates                       [3]ggfnt.Date
	Name, Family, Author, About string
	M                           Metrics
	Dyes                        []Dye
	Palettes                    []Palette
	Glyphs                      []Glyph
	Settings                    []Setting
	CustomWords                 []string // spec encoder: custom word table
	Switches                    [][]uint8
	Mappings                    []Mapping // sorted by uint32(rune), unique
	Conditions                  []*Cond
	RuneSets, GlyphSets         []Set
	Utf8Rules, GlyphRules       []Rule
	HorzKern, VertKern          []Kern // any order, unique pairs
}

type Kern struct {
	A, B uint16
	V    int8
}

// NumCases returns the number of cases of a switch.
func (m *Font) NumCases(sw uint8) int {
	n := 1
	for _, s := range m.Switches[sw] {
		n *= len(m.Settings[s].Options)
	}
	return n
}

// Case evaluates a switch: combinations are enumerated with the last setting
// varying fastest.
func (m *Font) Case(sw uint8, settings []uint8) int {
	c := 0
	for _, s := range m.Switches[sw] {
		c = c*len(m.Settings[s].Options) + int(settings[s])
	}
	return c
}

// GroupFor returns the group a mapping selects under the settings.
func (m *Font) GroupFor(mp *Mapping, settings []uint8) (*Group, int) {
	if mp.Kind >= 254 {
		return &mp.Cases[0], 0
	}
	c := m.Case(mp.Kind, settings)
	return &mp.Cases[c], c
}

func (m *Font) FindMapping(r rune) *Mapping {
	i := sort.Search(len(m.Mappings), func(i int) bool { return uint32(m.Mappings[i].Rune) >= uint32(r) })
	if i < len(m.Mappings) && m.Mappings[i].Rune == r {
		return &m.Mappings[i]
	}
	return nil
}

// --- conditions ---

type Cond struct {
	Op      int // 0 or, 1 and, 2 cmp settings, 3 cmp const, 4 quick ==, 5 quick !=, 6 quick <, 7 quick >
	Terms   []*Cond
	Cmp     int // 0 ==, 1 !=, 2 <, 3 >, 4 <=, 5 >=
	Setting uint8
	Operand uint8 // setting index or constant
}

func compare(op int, a, b uint8) bool {
	switch op {
	case 0:
		return a == b
	case 1:
		return a != b
	case 2:
		return a < b
	case 3:
		return a > b
	case 4:
		return a <= b
	case 5:
		return a >= b
	}
	panic("bad op")
}

func (c *Cond) Eval(settings []uint8) bool {
	switch c.Op {
	case 0:
		for _, t := range c.Terms {
			if t.Eval(settings) {
				return true
			}
		}
		return false
	case 1:
		for _, t := range c.Terms {
			if !t.Eval(settings) {
				return false
			}
		}
		return true
	case 2:
		return compare(c.Cmp, settings[c.Setting], settings[c.Operand])
	case 3:
		return compare(c.Cmp, settings[c.Setting], c.Operand)
	default:
		return compare(c.Op-4, settings[c.Setting], c.Operand)
	}
}

func (c *Cond) Encode(out []byte) []byte {
	switch c.Op {
	case 0, 1:
		out = append(out, uint8(c.Op<<5)|uint8(len(c.Terms)))
		for _, t := range c.Terms {
			out = t.Encode(out)
		}
		return out
	case 2:
		return append(out, 0b0100_0000|uint8(c.Cmp), c.Setting, c.Operand)
	case 3:
		return append(out, 0b0101_0000|uint8(c.Cmp), c.Setting, c.Operand)
	default:
		return append(out, uint8((c.Op-1)<<5)|c.Operand, c.Setting)
	}
}

// GenCond generates a condition over numSettings (>0) settings.
func GenCond(t *pbt.T, numSettings, depth int) *Cond {
	kind := 0
	if depth > 0 {
		kind = t.Weighted(5, 3, 3)
	}
	if kind > 0 {
		c := &Cond{Op: kind - 1}
		n := 2
		switch t.Weighted(6, 3, 1) {
		case 1:
			n = t.Int(2, 5)
		case 2:
			n = t.Int(2, 31)
		}
		d := depth - 1
		if n > 5 {
			d = 0
		}
		for i := 0; i < n; i++ {
			c.Terms = append(c.Terms, GenCond(t, numSettings, d))
		}
		return c
	}
	c := &Cond{Op: t.Int(2, 7), Setting: uint8(t.Int(0, numSettings-1))}
	switch c.Op {
	case 2:
		c.Cmp = t.Int(0, 5)
		c.Operand = uint8(t.Int(0, numSettings-1))
	case 3:
		c.Cmp = t.Int(0, 5)
		if t.Prob(80) {
			c.Operand = uint8(t.Int(0, 4))
		} else {
			c.Operand = t.Byte()
		}
	default:
		if t.Prob(80) {
			c.Operand = uint8(t.Int(0, 4))
		} else {
			c.Operand = uint8(t.Int(0, 31))
		}
	}
	return c
}
