package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"slices"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// veteran is a tester with a history, and what it should be equivalent to.
type veteran struct {
	name  string
	ts    tester
	rules []*rule // the decoded rule, or nil in rule for malformed ones
	datas [][]byte

	fresh     tester // same rules, made anew for the current sequence
	run       []uint32
	got       []uint32
	sequences int
	changed   bool
}

func (v *veteran) bad() bool { return slices.Contains(v.rules, nil) }

// history decides P19.
func history(t *pbt.T, wide bool) {
	w := genWorld(t, wide)
	bulk := t.Prob(4)
	if bulk { // rules under many different conditions
		w.moreConditions(t)
		t.Label("many conditions")
	}
	w.finish(t)
	w.describe(t)
	t.Logf("wide: %v", wide)
	var pool []*rule
	for i, n := 0, t.Int(1, 8); i < n; i++ {
		pool = append(pool, w.genRule(t, pool))
	}
	if t.Prob(5) {
		pool = append(pool[:t.Int(0, min(2, len(pool)))], w.genLongRule(t))
	}
	vets := []*veteran{{name: "A", ts: newTester(wide, w.env())}}
	if t.Prob(25) {
		vets = append(vets, &veteran{name: "B", ts: newTester(wide, w.env())})
	}
	steps := t.Int(5, 40)
	if t.Prob(20) {
		steps = t.Int(5, 120)
	}
	for i := 0; i < steps; i++ {
		v := vets[t.Int(0, len(vets)-1)]
		if w.step(t, v, vets, &pool) {
			return
		}
		if v.ts.NumRules() != len(v.rules) {
			t.Fatalf("NumRules() = %d, want %d", v.ts.NumRules(), len(v.rules))
		}
		if v.ts.IsOperating() != (v.fresh != nil) {
			t.Fatalf("IsOperating() = %v, want %v", v.ts.IsOperating(), v.fresh != nil)
		}
		if p := v.ts.Pending(); v.fresh == nil && p != 0 {
			t.Fatalf("%d pending elements without a sequence", p)
		} else if v.fresh != nil && p != v.fresh.Pending() {
			t.Fatalf("%d pending elements, a fresh tester has %d", p, v.fresh.Pending())
		}
	}
	for _, v := range vets {
		if v.fresh != nil {
			w.flush(t, v, true)
		}
	}
}

// moreConditions brings the world to tens or hundreds of conditions.
func (w *world) moreConditions(t *pbt.T) {
	w.many = true
	for i, n := len(w.m.Settings), t.Int(2, 9); i < n; i++ {
		w.m.Settings = append(w.m.Settings, fm.Setting{Name: string(rune('a' + i)), Options: []string{"off", "on", "auto"}})
	}
	for i, n := len(w.m.Conditions), t.Int(10, 254); i < n; i++ {
		w.m.Conditions = append(w.m.Conditions, fm.GenCond(t, len(w.m.Settings), 0))
	}
	w.settings = fm.GenSettings(t, w.m)
}

// recond makes a rule like another, but under any condition.
func (w *world) recond(t *pbt.T, of *rule) *rule {
	r := &rule{Rule: of.Rule}
	r.Cond = uint8(t.Int(0, len(w.m.Conditions)-1))
	r.data = fm.EncodeRule(t, nil, &r.Rule, w.wide)
	return r
}

func (w *world) step(t *pbt.T, v *veteran, vets []*veteran, pool *[]*rule) (stop bool) {
	if v.fresh != nil { // operating
		switch t.Weighted(10, 4, 3, 1, 2) {
		case 0:
			for _, x := range w.genRun(t, v.rules) {
				w.feedBoth(t, v, x)
			}
		case 1:
			w.flush(t, v, true)
		case 2:
			w.flush(t, v, false)
		case 3: // refused elements
			var x uint32
			if w.wide {
				x = pbt.Pick(t, []uint32{0xFFFD, 0xD800, 0xDFFF, 0x110000, 0xFFFFFFFF})
			} else {
				x = pbt.Pick(t, []uint32{glyphZilch + 1, 60000, 65535})
			}
			t.Logf("%s: feed refused %d", v.name, x)
			var err error
			t.NoPanic("Feed", func() { err = v.ts.Feed(x, func(u uint32) { t.Fatalf("feeding %d emitted %d", x, u) }) })
			if err == nil {
				t.Fatalf("Feed(%d) didn't fail", x)
			}
		case 4:
			w.changeSettings(t, vets)
		}
		return false
	}
	if t.Choice(1999) == 1999 {
		return w.cycles(t, v, vets, pool)
	}
	switch t.Weighted(6, 3, 3, 1, 1, 3, 1, 8) {
	case 0: // add a rule
		if w.many && t.Prob(25) {
			n := t.Int(5, 90)
			if t.Prob(15) {
				n = 254
			}
			for i := 0; i < n && len(v.rules) < 254; i++ {
				r := w.recond(t, pbt.Pick(t, *pool))
				w.add(t, v, r.data, r)
			}
			return false
		}
		var r *rule
		if t.Prob(50) {
			r = pbt.Pick(t, *pool)
		} else {
			r = w.genRule(t, *pool)
			*pool = append(*pool, r)
		}
		w.add(t, v, r.data, r)
	case 1: // remove one
		if len(v.rules) == 0 {
			return false
		}
		n := 1
		if w.many && t.Prob(25) { // or a lot of them
			n = t.Int(1, len(v.rules))
		}
		for ; n > 0; n-- {
			i := t.Int(0, len(v.rules)-1)
			w.remove(t, v, v.datas[i], true)
		}
	case 2: // add a bad one
		if t.Prob(60) {
			return false
		}
		d := w.damage(t, pbt.Pick(t, *pool))
		r, verdict := w.decode(d)
		if verdict == unspecified {
			return false
		}
		if verdict == badRule {
			r = nil
		}
		w.add(t, v, d, r)
	case 3: // remove an absent one
		r := pbt.Pick(t, *pool)
		w.remove(t, v, r.data, slices.ContainsFunc(v.datas, func(d []byte) bool { return slices.Equal(d, r.data) }))
	case 4:
		t.Logf("%s: remove all", v.name)
		t.NoPanic("RemoveAllRules", v.ts.RemoveAll)
		v.rules, v.datas = nil, nil
		v.changed = true
	case 5:
		w.changeSettings(t, vets)
	case 6:
		var err error
		t.NoPanic("Resync", func() { err = v.ts.Resync() })
		t.Logf("%s: resync: %v", v.name, err)
		return w.checkErr(t, v, err)
	case 7:
		var err error
		if t.Prob(3) { // fill it up
			r := pbt.Pick(t, *pool)
			for len(v.rules) < 254 {
				w.add(t, v, r.data, r)
			}
			t.NoPanic("AddRule", func() { err = v.ts.Add(r.data) })
			if !errors.Is(err, rerules.ErrTesterTooManyRules) {
				t.Fatalf("adding a 255th rule: got error %v", err)
			}
			t.Label("254 rules")
		}
		t.NoPanic("BeginSequence", func() { err = v.ts.Begin() })
		t.Logf("%s: begin: %v", v.name, err)
		if w.checkErr(t, v, err) {
			return true
		}
		if err != nil {
			return false
		}
		// an equivalent tester without history
		v.fresh = newTester(w.wide, w.env())
		for _, d := range v.datas {
			if err := v.fresh.Add(d); err != nil {
				t.Fatalf("a fresh tester refused a rule: %s", err)
			}
		}
		t.NoPanic("BeginSequence on a fresh tester", func() { err = v.fresh.Begin() })
		if err != nil {
			if w.demanding(v.rules) {
				t.Label("rules over the limits")
				return true
			}
			t.Fatalf("a fresh tester with the same rules can't begin: %s", err)
		}
		v.run, v.got = nil, nil
		v.sequences++
		t.NontrivialIf(v.sequences > 1 && v.changed)
	}
	return false
}

// cycles repeats a few operations many times.
func (w *world) cycles(t *pbt.T, v *veteran, vets []*veteran, pool *[]*rule) (stop bool) {
	if v.bad() {
		return false
	}
	n := pbt.Pick(t, []int{15, 16, 31, 32, 64, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 1100})
	if len(v.rules) < 10 && t.Prob(20) {
		n = 65536 + t.Int(-2, 2)
	}
	kind := t.Int(0, 3)
	if kind == 1 && len(v.rules) > 250 {
		kind = 0
	}
	p := pbt.Pick(t, *pool)
	run := w.genRun(t, v.rules)
	t.Logf("%s: %d cycles of kind %d with %s, feeding %v", v.name, n, kind, p, run)
	t.Label("many cycles")
	switch kind {
	case 0, 1: // sequences, maybe recompiling for each of them
		if kind == 1 {
			n = min(n, 1100)
		}
		var first []uint32
		for i := 0; i < n; i++ {
			if kind == 1 {
				var err error
				t.NoPanic("AddRule", func() { err = v.ts.Add(p.data) })
				if err != nil {
					t.Fatalf("AddRule failed on a valid rule: %s", err)
				}
				if i%2 == 0 {
					t.NoPanic("Resync", func() { err = v.ts.Resync() })
				}
				if err != nil {
					if !w.demanding(append(slices.Clone(v.rules), p)) {
						t.Fatalf("Resync failed with valid rules only: %s", err)
					}
					t.Label("rules over the limits")
					return true
				}
				var ok bool
				t.NoPanic("RemoveRule", func() { ok = v.ts.Remove(p.data) })
				if !ok {
					t.Fatalf("RemoveRule didn't find the rule just added")
				}
				// the first of equal rules goes, the order may change
				if at := slices.IndexFunc(v.datas, func(d []byte) bool { return slices.Equal(d, p.data) }); at >= 0 {
					r, d := v.rules[at], v.datas[at]
					v.rules = append(slices.Delete(slices.Clone(v.rules), at, at+1), r)
					v.datas = append(slices.Delete(slices.Clone(v.datas), at, at+1), d)
					first = nil
				}
				v.changed = true
			}
			var err error
			t.NoPanic("BeginSequence", func() { err = v.ts.Begin() })
			if err != nil {
				return w.checkErr(t, v, err)
			}
			var got []uint32
			emit := func(u uint32) { got = append(got, u) }
			for _, x := range run {
				w.feed(t, v.ts, x, emit)
			}
			t.NoPanic("FinishSequence", func() { v.ts.Finish(emit) })
			if first == nil {
				first = got
				if ok, want, applied := w.accepts(v.rules, run, got); !ok {
					t.Fatalf("wrong output for %v: got %v, want %v (by rules %v)", run, got, want, applied)
				}
			} else if !slices.Equal(first, got) {
				t.Fatalf("cycle %d: the output for %v is %v, it was %v before", i, run, got, first)
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			t.NoPanic("RefreshConditions", v.ts.Refresh)
		}
	case 3: // settings back and forth
		if len(w.settings) == 0 {
			return false
		}
		n = min(n, 1100)
		s := t.Int(0, len(w.settings)-1)
		for i := 0; i < n; i++ {
			w.settings[s] = uint8(i % len(w.m.Settings[s].Options))
			w.cache.Set(ggfnt.SettingKey(s), w.settings[s])
			t.NoPanic("RefreshConditions", v.ts.Refresh)
		}
		w.changeSettings(t, vets)
	}
	return false
}

// checkErr checks the result of a resync or begin.
func (w *world) checkErr(t *pbt.T, v *veteran, err error) (stop bool) {
	switch {
	case v.bad() && err == nil:
		t.Fatalf("malformed rules were accepted")
	case v.bad():
		t.Label("error in between")
		v.changed = true
		if t.Prob(70) { // take them out
			for i := 0; i < len(v.rules); {
				if v.rules[i] != nil {
					i++
				} else {
					w.remove(t, v, v.datas[i], true)
				}
			}
		}
	case err != nil && w.demanding(v.rules):
		t.Label("rules over the limits")
		return true
	case err != nil:
		t.Fatalf("failed with valid rules only: %s", err)
	}
	return false
}

func (w *world) add(t *pbt.T, v *veteran, data []byte, r *rule) {
	var err error
	full := len(v.rules) >= 254
	t.NoPanic("AddRule", func() { err = v.ts.Add(data) })
	if len(v.rules) < 20 {
		t.Logf("%s: add %s (%v): %v", v.name, hex.EncodeToString(data), r, err)
	}
	if full && r != nil && !errors.Is(err, rerules.ErrTesterTooManyRules) {
		t.Fatalf("adding a 255th rule: got error %v", err)
	}
	if err != nil && r != nil && !full {
		t.Fatalf("AddRule failed on a valid rule: %s", err)
	}
	if err == nil {
		v.rules = append(v.rules, r)
		v.datas = append(v.datas, data)
		v.changed = true
	}
}

func (w *world) remove(t *pbt.T, v *veteran, data []byte, present bool) {
	var ok bool
	data = slices.Clone(data)
	t.NoPanic("RemoveRule", func() { ok = v.ts.Remove(data) })
	t.Logf("%s: remove %s: %v", v.name, hex.EncodeToString(data), ok)
	if ok != present {
		t.Fatalf("RemoveRule returned %v, but the rule being present was %v", ok, present)
	}
	if ok {
		i := slices.IndexFunc(v.datas, func(d []byte) bool { return slices.Equal(d, data) })
		v.rules = slices.Delete(slices.Clone(v.rules), i, i+1)
		v.datas = slices.Delete(slices.Clone(v.datas), i, i+1)
		v.changed = true
	}
}

func (w *world) changeSettings(t *pbt.T, vets []*veteran) {
	for _, o := range vets { // every sequence sees the change at a boundary
		if o.fresh != nil {
			w.flush(t, o, false)
		}
	}
	if len(w.settings) > 0 {
		for i, n := 0, t.Int(0, 2); i < n; i++ {
			s := t.Int(0, len(w.settings)-1)
			w.settings[s] = uint8(t.Int(0, len(w.m.Settings[s].Options)-1))
			w.cache.Set(ggfnt.SettingKey(s), w.settings[s])
			t.Logf("setting %d = %d", s, w.settings[s])
		}
	}
	for _, v := range vets {
		t.NoPanic("RefreshConditions", v.ts.Refresh)
		if v.fresh != nil {
			t.NoPanic("RefreshConditions", v.fresh.Refresh)
		}
		v.changed = true
	}
	t.Logf("refresh, conditions: %s", w.condString())
}

func (w *world) condString() (s string) {
	for i := range w.m.Conditions {
		if i == 12 {
			return s + " ..."
		}
		s += fmt.Sprintf(" c%d=%v", i, w.satisfied(uint8(i)))
	}
	return s
}

func (w *world) feedBoth(t *pbt.T, v *veteran, x uint32) {
	var a, b []uint32
	w.feed(t, v.ts, x, func(u uint32) { a = append(a, u) })
	w.feed(t, v.fresh, x, func(u uint32) { b = append(b, u) })
	v.run = append(v.run, x)
	v.got = append(v.got, a...)
	t.Logf("%s: feed %d: %v", v.name, x, a)
	if !slices.Equal(a, b) {
		t.Fatalf("feeding %d emitted %v, a fresh tester emits %v", x, a, b)
	}
	if p, q := v.ts.Pending(), v.fresh.Pending(); p != q {
		t.Fatalf("after feeding %d there are %d pending elements, a fresh tester has %d", x, p, q)
	}
}

func (w *world) flush(t *pbt.T, v *veteran, end bool) {
	var a, b []uint32
	fa := func(u uint32) { a = append(a, u) }
	fb := func(u uint32) { b = append(b, u) }
	what := "break"
	if end {
		what = "finish"
		t.NoPanic("FinishSequence", func() { v.ts.Finish(fa) })
		t.NoPanic("FinishSequence", func() { v.fresh.Finish(fb) })
	} else {
		t.NoPanic("Break", func() { v.ts.Break(fa) })
		t.NoPanic("Break", func() { v.fresh.Break(fb) })
	}
	t.Logf("%s: %s: %v", v.name, what, a)
	if !slices.Equal(a, b) {
		t.Fatalf("%s emitted %v, a fresh tester emits %v", what, a, b)
	}
	if p := v.ts.Pending(); p != 0 {
		t.Fatalf("%d pending elements after a %s", p, what)
	}
	v.got = append(v.got, a...)
	if ok, want, applied := w.accepts(v.rules, v.run, v.got); !ok {
		t.Fatalf("wrong output for %v: got %v, want %v (by rules %v)", v.run, v.got, want, applied)
	}
	v.run, v.got = nil, nil
	if end {
		v.fresh = nil
	}
}
