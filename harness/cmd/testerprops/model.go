package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

const (
	glyphMissing = 56789
	glyphZilch   = 56790
)

// rule is a rule with its encoded bytes.
type rule struct {
	fm.Rule
	data []byte
}

func (r *rule) inLen() int { return len(r.Head) + len(r.Body) + len(r.Tail) }

// world is a font with settings, and an alphabet to make rules and inputs of.
type world struct {
	wide     bool
	m        *fm.Font
	sets     []fm.Set
	font     *ggfnt.Font
	cache    *ggfnt.SettingsCache
	settings []uint8
	alpha    []uint32 // values used by rules
	probes   []uint32 // further values to feed
	many     bool     // tens or hundreds of conditions
}

func (w *world) env() env { return env{w.font, w.cache} }

func (w *world) satisfied(cond uint8) bool {
	return cond == 255 || w.m.Conditions[cond].Eval(w.settings)
}

func (w *world) matches(e fm.Elem, v uint32) bool {
	if e.IsSet {
		return w.sets[e.V].Contains(v)
	}
	return e.V == v
}

func (w *world) matchesAt(r *rule, seq []uint32, pos int) bool {
	if pos+r.inLen() > len(seq) {
		return false
	}
	i := pos
	for _, blk := range [][]fm.Elem{r.Head, r.Body, r.Tail} {
		for _, e := range blk {
			if !w.matches(e, seq[i]) {
				return false
			}
			i++
		}
	}
	return true
}

// rewrite is the reference: seq is one unbroken run of elements. Among rules
// sharing a condition, the longest match wins and then the earliest rule;
// among different conditions, the earliest of those winners. Elements already
// emitted (the tail of the previous match) can only be part of a head. When a
// match can't be used because of that, the filterFirst variants ignore it from
// the beginning, and the others only when choosing the length; both readings
// are accepted.
func (w *world) rewrite(rules []*rule, seq []uint32, filterFirst bool) (out []uint32, applied []int) {
	conds := map[uint8][]int{}
	var order []uint8
	for i, r := range rules {
		if _, ok := conds[r.Cond]; !ok {
			order = append(order, r.Cond)
		}
		conds[r.Cond] = append(conds[r.Cond], i)
	}
	pos, done := 0, 0 // the first done elements from pos are already emitted
	for pos < len(seq) {
		winner := -1
		for _, c := range order {
			if !w.satisfied(c) {
				continue
			}
			best, bestLen := -1, 0
			byLen := map[int]int{}
			for _, i := range conds[c] {
				r := rules[i]
				if filterFirst && len(r.Head) < done {
					continue
				}
				if _, ok := byLen[r.inLen()]; ok || !w.matchesAt(r, seq, pos) {
					continue
				}
				byLen[r.inLen()] = i
			}
			for n, i := range byLen {
				if n > bestLen && len(rules[i].Head) >= done {
					best, bestLen = i, n
				}
			}
			if best >= 0 && (winner < 0 || best < winner) {
				winner = best
			}
		}
		if winner < 0 {
			if done > 0 {
				done--
			} else {
				out = append(out, seq[pos])
			}
			pos++
			continue
		}
		r := rules[winner]
		applied = append(applied, winner)
		out = append(out, seq[pos+done:pos+len(r.Head)]...)
		out = append(out, r.Out...)
		pos += len(r.Head) + len(r.Body)
		done = len(r.Tail)
		out = append(out, seq[pos:pos+done]...)
	}
	return out, applied
}

// accepts returns whether got is a right output for seq.
func (w *world) accepts(rules []*rule, seq, got []uint32) (bool, []uint32, []int) {
	want, applied := w.rewrite(rules, seq, false)
	if slices.Equal(want, got) {
		return true, want, applied
	}
	alt, _ := w.rewrite(rules, seq, true)
	return slices.Equal(alt, got), want, applied
}

// demanding returns whether the rules may reasonably exceed what a decision
// graph of under 255 states and transitions can hold.
func (w *world) demanding(rules []*rule) bool {
	byCond := map[uint8][]*rule{}
	for _, r := range rules {
		byCond[r.Cond] = append(byCond[r.Cond], r)
	}
	for _, rs := range byCond {
		if w.graphSize(rs) > 110 {
			return true
		}
	}
	return false
}

// graphSize counts the sets of rules that can be partially matched together,
// per depth; it returns a huge value if some of them needs many transitions.
func (w *world) graphSize(rules []*rule) int {
	type node struct{ members []int }
	all := make([]int, len(rules))
	in := make([][]fm.Elem, len(rules))
	for i, r := range rules {
		all[i] = i
		in[i] = r.In()
	}
	level := []node{{all}}
	total := 1
	for depth := 0; len(level) > 0; depth++ {
		seen := map[string]bool{}
		var next []node
		for _, n := range level {
			bounds := map[uint32]bool{0: true}
			pieces := 0
			for _, i := range n.members {
				if depth >= len(in[i]) {
					continue
				}
				e := in[i][depth]
				if !e.IsSet {
					bounds[e.V], bounds[e.V+1] = true, true
					pieces++
					continue
				}
				s := &w.sets[e.V]
				for _, r := range s.Ranges {
					bounds[r[0]], bounds[r[1]+1] = true, true
				}
				for _, v := range s.List {
					bounds[v], bounds[v+1] = true, true
				}
				pieces += len(s.Ranges) + len(s.List)
			}
			if 2*pieces+1 > 250 && len(bounds)+1 > 120 {
				return 1 << 20
			}
			for v := range bounds {
				var members []int
				key := make([]byte, 0, len(n.members))
				for _, i := range n.members {
					if depth+1 < len(in[i]) && w.matches(in[i][depth], v) {
						members = append(members, i)
						key = append(key, byte(i))
					}
				}
				if len(members) > 0 && !seen[string(key)] {
					seen[string(key)] = true
					next = append(next, node{members})
				}
			}
		}
		total += len(next)
		if total > 400 {
			return total
		}
		level = next
	}
	return total
}

// --- strict rule decoder ---

type verdict int

const (
	wellFormed verdict = iota
	badRule
	unspecified
)

// decode judges rule bytes from the format specification.
func (w *world) decode(data []byte) (*rule, verdict) {
	if len(data) < 5 {
		return nil, badRule
	}
	size := 2
	if w.wide {
		size = 4
	}
	r := &rule{data: data}
	r.Cond = data[0]
	lens := [3]int{int(data[1]), int(data[2]), int(data[3])}
	outs := int(data[4])
	open := false
	if lens[0]+lens[1]+lens[2] > 255 || lens[1] == 0 || outs > lens[1] || 5+outs*size > len(data) {
		return nil, badRule
	}
	if outs == 0 {
		open = true
	}
	if r.Cond != 255 && int(r.Cond) >= len(w.m.Conditions) {
		return nil, badRule
	}
	pos := 5
	read := func() uint32 {
		v := uint32(data[pos]) | uint32(data[pos+1])<<8
		if w.wide {
			v |= uint32(data[pos+2])<<16 | uint32(data[pos+3])<<24
		}
		pos += size
		return v
	}
	for i := 0; i < outs; i++ {
		v := read()
		if !w.validOutput(v) {
			open = true
		}
		r.Out = append(r.Out, v)
	}
	for blk := 0; blk < 3; blk++ {
		var elems []fm.Elem
		for first := true; first || len(elems) < lens[blk]; first = false {
			if pos >= len(data) {
				if blk == 2 && lens[2] == 0 {
					open = true // the final empty tail is missing
					continue
				}
				return nil, badRule
			}
			ctrl := data[pos]
			pos++
			sets, vals := int(ctrl>>4), int(ctrl&15)
			if sets+vals > lens[blk]-len(elems) || sets+vals == 0 && lens[blk] > 0 {
				return nil, badRule
			}
			if pos+sets+vals*size > len(data) {
				return nil, badRule
			}
			for i := 0; i < sets; i++ {
				if int(data[pos]) >= len(w.sets) {
					return nil, badRule
				}
				elems = append(elems, fm.Elem{IsSet: true, V: uint32(data[pos])})
				pos++
			}
			for i := 0; i < vals; i++ {
				v := read()
				if !w.wide && v >= glyphMissing {
					return nil, badRule
				}
				if !w.validInput(v) {
					open = true
				}
				elems = append(elems, fm.Elem{V: v})
			}
		}
		*[3]*[]fm.Elem{&r.Head, &r.Body, &r.Tail}[blk] = elems
	}
	if pos != len(data) {
		return nil, badRule
	}
	if open {
		return r, unspecified
	}
	return r, wellFormed
}

func (w *world) validInput(v uint32) bool {
	if !w.wide {
		return v < glyphMissing
	}
	return validRune(v)
}
func (w *world) validOutput(v uint32) bool { return w.validInput(v) }

func validRune(v uint32) bool {
	return v <= 0x10FFFF && (v < 0xD800 || v > 0xDFFF) && v != 0xFFFD
}

// --- descriptions ---

func elemsString(elems []fm.Elem) string {
	var parts []string
	for _, e := range elems {
		if e.IsSet {
			parts = append(parts, fmt.Sprintf("S%d", e.V))
		} else {
			parts = append(parts, fmt.Sprint(e.V))
		}
	}
	return "[" + strings.Join(parts, " ") + "]"
}

func (r *rule) String() string {
	cond := ""
	if r.Cond != 255 {
		cond = fmt.Sprintf("if c%d ", r.Cond)
	}
	return fmt.Sprintf("%s%s %s %s => %v", cond, elemsString(r.Head), elemsString(r.Body), elemsString(r.Tail), r.Out)
}

func (w *world) describe(t *pbt.T) {
	for i, s := range w.sets {
		t.Logf("set S%d: ranges %v, list %v", i, s.Ranges, s.List)
	}
	for i := range w.m.Conditions {
		t.Logf("condition c%d: %v", i, w.satisfied(uint8(i)))
	}
}

func describeRules(t *pbt.T, rules []*rule) {
	for i, r := range rules {
		if i == 40 {
			t.Logf("... %d more rules", len(rules)-i)
			break
		}
		t.Logf("rule %d: %s", i, r)
	}
}

func sortedValues(m map[uint32]bool) (out []uint32) {
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
