package main

import (
	"slices"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// top returns the highest value rules can use.
func (w *world) top() uint32 {
	if w.wide {
		return 0x10FFFF
	}
	return glyphMissing - 1
}

func (w *world) anyValue(t *pbt.T) uint32 {
	if w.wide {
		for {
			var v uint32
			switch t.Weighted(3, 3, 2, 1, 1, 1) {
			case 0:
				v = uint32(t.Int('a', 'z'))
			case 1:
				v = uint32(t.Int(0, 255))
			case 2:
				v = uint32(t.Int(0, 0xFFFF))
			case 3:
				v = uint32(t.Int(0, 0x10FFFF))
			case 4:
				v = pbt.Pick(t, []uint32{0, 1, 0xD7FF, 0xE000, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x10FFFE})
			case 5:
				v = uint32(t.Int(0xFF00, 0x10100))
			}
			if validRune(v) {
				return v
			}
		}
	}
	switch t.Weighted(4, 3, 1) {
	case 0:
		return uint32(t.Int(0, 40))
	case 1:
		return uint32(t.Int(0, glyphMissing-1))
	}
	return pbt.Pick(t, []uint32{0, 1, 254, 255, 256, 257, 511, 512, glyphMissing - 2, glyphMissing - 1})
}

// genWorld makes a font with sets and conditions; rules are made later.
func genWorld(t *pbt.T, wide bool) *world {
	w := &world{wide: wide, m: &fm.Font{ID: fm.MakeID(t), Name: "N", Family: "F", Author: "A", About: "about"}}
	w.m.M = fm.Metrics{Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5, HorzInterspacing: 1, LineGap: 1}
	w.m.CustomWords = []string{"auto"}
	w.m.Dyes = []fm.Dye{{Name: "main", Alphas: []uint8{255}}}
	w.m.Glyphs = []fm.Glyph{{Placement: ggfnt.GlyphPlacement{Advance: 1}}}

	// alphabet
	k := t.Int(1, 5)
	if t.Prob(15) {
		k = t.Int(1, 40)
	}
	base := w.anyValue(t)
	for i := 0; i < k; i++ {
		v := base + uint32(i)
		if !w.validInput(v) || t.Prob(15) {
			v = w.anyValue(t)
		}
		if !slices.Contains(w.alpha, v) {
			w.alpha = append(w.alpha, v)
		}
	}
	slices.Sort(w.alpha)

	// conditions
	if t.Prob(45) {
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			w.m.Settings = append(w.m.Settings, fm.Setting{Name: string(rune('a' + i)), Options: []string{"off", "on", "auto"}[:t.Int(1, 3)]})
		}
		n := t.Int(1, 4)
		if t.Prob(3) {
			n = t.Int(1, 254)
		}
		for i := 0; i < n; i++ {
			w.m.Conditions = append(w.m.Conditions, fm.GenCond(t, len(w.m.Settings), t.Int(0, 1)))
		}
		w.settings = fm.GenSettings(t, w.m)
	}

	// sets
	n := 0
	if t.Prob(70) {
		n = t.Int(1, 4)
		if t.Prob(2) {
			n = t.Int(1, 255)
		}
	}
	for i := 0; i < n; i++ {
		w.sets = append(w.sets, w.genSet(t))
	}
	if wide {
		w.m.RuneSets = w.sets
	} else {
		w.m.GlyphSets = w.sets
	}

	// values next to those of rules and sets
	near := map[uint32]bool{}
	add := func(v uint32) {
		if w.validInput(v) {
			near[v] = true
		}
	}
	for _, v := range w.alpha {
		add(v - 1)
		add(v)
		add(v + 1)
	}
	for i, s := range w.sets {
		if i == 8 {
			break
		}
		for _, r := range s.Ranges {
			add(r[0] - 1)
			add(r[0])
			add(r[1])
			add(r[1] + 1)
		}
		for _, v := range s.List {
			add(v)
			add(v + 1)
		}
	}
	w.probes = sortedValues(near)
	return w
}

func (w *world) genSet(t *pbt.T) fm.Set {
	var s fm.Set
	nr, nl := t.Size(0, 3), t.Size(0, 3)
	if t.Prob(3) {
		nr, nl = t.Size(0, 60), t.Size(0, 60)
		if t.Prob(30) {
			nr, nl = t.Size(0, 255), t.Size(0, 255)
		}
	}
	for j := 0; j < nr; j++ {
		first := pbt.Pick(t, w.alpha)
		if t.Prob(20) {
			first = w.anyValue(t)
		}
		if d := uint32(t.Int(0, 2)); t.Prob(40) && first >= d {
			first -= d
		}
		n := t.Int(0, 4)
		if t.Prob(10) {
			n = t.Int(0, 255)
		}
		s.Ranges = append(s.Ranges, [2]uint32{first, min(first+uint32(n), w.top())})
	}
	for j := 0; j < nl; j++ {
		v := pbt.Pick(t, w.alpha)
		if t.Prob(20) {
			v = w.anyValue(t)
		}
		s.List = append(s.List, v)
	}
	return s
}

// finish builds and parses the font, once sets (and maybe rules) are in place.
func (w *world) finish(t *pbt.T) {
	raw, _ := fm.Encode(t, w.m)
	w.font = fm.MustParse(t, fm.WrapSig("tggfnt", raw, 0))
	w.cache = ggfnt.NewSettingsCache(w.font)
	for i, v := range w.settings {
		w.cache.Set(ggfnt.SettingKey(i), v)
	}
}

func (w *world) genElem(t *pbt.T) fm.Elem {
	if len(w.sets) > 0 && t.Prob(35) {
		return fm.Elem{IsSet: true, V: uint32(t.Int(0, len(w.sets)-1))}
	}
	return fm.Elem{V: pbt.Pick(t, w.alpha)}
}

func (w *world) genOut(t *pbt.T, body int) []uint32 {
	n := t.Int(1, min(body, 3))
	if t.Prob(5) {
		n = t.Int(1, body)
	}
	var out []uint32
	for i := 0; i < n; i++ {
		if t.Prob(70) {
			out = append(out, pbt.Pick(t, w.alpha))
		} else {
			out = append(out, w.anyValue(t))
		}
	}
	return out
}

func cut(r *rule, in []fm.Elem, head, body int) {
	r.Head = in[:head:head]
	r.Body = in[head : head+body : head+body]
	r.Tail = in[head+body:]
}

func (w *world) genRule(t *pbt.T, prev []*rule) *rule {
	r := &rule{}
	r.Cond = 255
	if len(w.m.Conditions) > 0 && t.Prob(60) {
		r.Cond = uint8(t.Int(0, len(w.m.Conditions)-1))
	}
	var in []fm.Elem
	if len(prev) > 0 && t.Prob(60) { // derive from another rule
		p := pbt.Pick(t, prev)
		in = p.In()
		if t.Prob(70) {
			r.Cond = p.Cond
		}
		switch t.Weighted(3, 3, 3, 2, 1) {
		case 0:
			in = in[:t.Int(1, len(in))]
		case 1:
			for i, n := 0, t.Int(1, 2); i < n && len(in) < 255; i++ {
				in = append(in, w.genElem(t))
			}
		case 2:
			in[t.Int(0, len(in)-1)] = w.genElem(t)
		case 3:
			in = in[t.Int(0, len(in)-1):]
		}
	} else {
		n := t.Int(1, 3)
		switch {
		case t.Prob(10):
			n = t.Int(1, 8)
		case t.Prob(2):
			n = t.Int(1, 255)
		}
		for i := 0; i < n; i++ {
			in = append(in, w.genElem(t))
		}
	}
	head := 0
	if t.Prob(45) {
		head = t.Int(0, len(in)-1)
	}
	body := len(in) - head
	if t.Prob(45) {
		body = t.Int(1, len(in)-head)
	}
	cut(r, in, head, body)
	r.Out = w.genOut(t, body)
	r.data = fm.EncodeRule(t, nil, &r.Rule, w.wide)
	return r
}

// genLongRule makes a rule with over a hundred elements.
func (w *world) genLongRule(t *pbt.T) *rule {
	r := &rule{}
	r.Cond = 255
	if len(w.m.Conditions) > 0 && t.Prob(30) {
		r.Cond = uint8(t.Int(0, len(w.m.Conditions)-1))
	}
	n := t.Int(100, 255)
	if t.Prob(40) {
		n = t.Int(235, 255)
	}
	period := make([]fm.Elem, t.Int(1, 6))
	for i := range period {
		period[i] = w.genElem(t)
	}
	in := make([]fm.Elem, n)
	for i := range in {
		if in[i] = period[i%len(period)]; t.Prob(10) {
			in[i] = w.genElem(t)
		}
	}
	var head, body int
	switch t.Weighted(2, 2, 2, 2) { // which block is the long one
	case 0:
		head = n - 1 - t.Int(0, 8)
		body = t.Int(1, n-head)
	case 1:
		head = t.Int(0, 5)
		body = n - head - t.Int(0, 5)
	case 2:
		head = t.Int(0, 4)
		body = t.Int(1, 4)
	case 3:
		head = t.Int(0, n-1)
		body = t.Int(1, n-head)
	}
	cut(r, in, head, body)
	r.Out = w.genOut(t, body)
	if t.Prob(30) { // as long an output as possible
		for len(r.Out) < body {
			r.Out = append(r.Out, pbt.Pick(t, w.alpha))
		}
	}
	r.data = fm.EncodeRule(t, nil, &r.Rule, w.wide)
	return r
}

// genFan makes rules for many different values at the same point, up to what
// a state can hold and beyond.
func (w *world) genFan(t *pbt.T) []*rule {
	n := pbt.Pick(t, []int{t.Int(30, 118), t.Int(119, 124), t.Int(120, 254), t.Int(250, 254)})
	first, step := w.anyValue(t), uint32(pbt.Pick(t, []int{1, 1, 2, 3, 300}))
	lead := make([]fm.Elem, t.Weighted(5, 2, 1)) // what comes before
	for i := range lead {
		lead[i] = w.genElem(t)
	}
	follow := t.Prob(20)
	var rules []*rule
	for i := 0; i < n; i++ {
		v := first + uint32(i)*step
		if !w.validInput(v) || v > w.top() {
			continue
		}
		r := &rule{}
		r.Cond = 255
		in := append(slices.Clone(lead), fm.Elem{V: v})
		if follow && t.Bool() {
			in = append(in, w.genElem(t))
		}
		head := t.Int(0, len(in)-1)
		cut(r, in, head, t.Int(1, len(in)-head))
		r.Out = w.genOut(t, len(r.Body))
		r.data = fm.EncodeRule(t, nil, &r.Rule, w.wide)
		rules = append(rules, r)
		if len(w.probes) < 400 {
			w.probes = append(w.probes, v)
			if w.validInput(v + 1) {
				w.probes = append(w.probes, v+1)
			}
		}
	}
	if len(rules) == 0 {
		return []*rule{w.genRule(t, nil)}
	}
	for i, k := 0, t.Size(0, 4); i < k; i++ { // some that share values
		rules = append(rules, w.genRule(t, rules))
	}
	if t.Bool() {
		for i := range rules {
			j := t.Int(0, i)
			rules[i], rules[j] = rules[j], rules[i]
		}
	}
	t.Label("many values at one point")
	return rules[:min(len(rules), 254)]
}

func (w *world) genRules(t *pbt.T) []*rule {
	if t.Prob(3) {
		rules := []*rule{w.genLongRule(t)}
		for i, n := 0, t.Int(0, 2); i < n; i++ {
			if t.Prob(15) {
				rules = append(rules, w.genLongRule(t))
			} else {
				rules = append(rules, w.genRule(t, rules))
			}
		}
		return rules
	}
	if t.Prob(3) {
		return w.genFan(t)
	}
	n := t.Int(1, 5)
	switch t.Weighted(20, 4, 1) {
	case 1:
		n = t.Int(1, 20)
	case 2:
		n = t.Int(1, 254)
	}
	var rules []*rule
	for i := 0; i < n; i++ {
		rules = append(rules, w.genRule(t, rules))
	}
	return rules
}

// instance returns a value sequence matching the elements, or nil.
func (w *world) instance(t *pbt.T, elems []fm.Elem) []uint32 {
	var out []uint32
	for _, e := range elems {
		if !e.IsSet {
			out = append(out, e.V)
			continue
		}
		s := &w.sets[e.V]
		n := len(s.Ranges) + len(s.List)
		if n == 0 {
			return out
		}
		i := t.Int(0, n-1)
		var v uint32
		if i < len(s.Ranges) {
			v = uint32(t.Int(int(s.Ranges[i][0]), int(s.Ranges[i][1])))
		} else {
			v = s.List[i-len(s.Ranges)]
		}
		if !w.validInput(v) {
			return out
		}
		out = append(out, v)
	}
	return out
}

// genRun generates an unbroken run of elements to feed.
func (w *world) genRun(t *pbt.T, rules []*rule) []uint32 {
	var seq []uint32
	for i, n := 0, t.Int(0, 6); i < n; i++ {
		switch t.Weighted(6, 2, 3, 1) {
		case 0, 1:
			if len(rules) == 0 {
				continue
			}
			r := pbt.Pick(t, rules)
			v := w.instance(t, r.In())
			if len(v) > 1 && t.Prob(30) { // truncated, or overlapping the previous
				v = v[:t.Int(1, len(v)-1)]
			} else if len(v) > 1 && len(seq) > 0 && t.Prob(40) {
				v = v[t.Int(1, len(v)-1):]
			}
			seq = append(seq, v...)
		case 2:
			for j, k := 0, t.Int(1, 4); j < k; j++ {
				seq = append(seq, pbt.Pick(t, w.alpha))
			}
		case 3:
			if !w.wide && t.Prob(20) {
				seq = append(seq, glyphMissing)
			} else if t.Prob(60) {
				seq = append(seq, pbt.Pick(t, w.probes))
			} else {
				seq = append(seq, w.anyValue(t))
			}
		}
	}
	return seq
}

// genEndless generates a run of tens of thousands of elements out of a few
// pieces.
func (w *world) genEndless(t *pbt.T, rules []*rule) []uint32 {
	var pieces [][]uint32
	for i, n := 0, t.Int(1, 8); i < n; i++ {
		if p := w.genRun(t, rules); len(p) > 0 {
			pieces = append(pieces, p)
		}
	}
	if len(pieces) == 0 {
		pieces = [][]uint32{{w.alpha[0]}}
	}
	n := pbt.Pick(t, []int{256, 1024, 33000, 66000, 66000, 70000, 132000})
	p := fm.NewPrng(t)
	var seq []uint32
	for len(seq) < n {
		seq = append(seq, pieces[p.N(len(pieces))]...)
	}
	return seq
}
