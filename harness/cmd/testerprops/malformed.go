package main

import (
	"encoding/hex"
	"errors"
	"slices"

	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// damage changes the bytes of a valid rule, or makes some up.
func (w *world) damage(t *pbt.T, r *rule) []byte {
	size := 2
	if w.wide {
		size = 4
	}
	d := slices.Clone(r.data)
	for i, n := 0, t.Int(1, 2); i < n; i++ {
		if len(d) == 0 {
			return d
		}
		switch t.Weighted(4, 3, 3, 3, 3, 2, 1, 2) {
		case 0: // truncate
			d = d[:t.Int(0, len(d)-1)]
			if t.Bool() {
				d = d[:len(d):len(d)] // no hidden bytes behind
			}
		case 1: // truncate a little
			d = d[:max(0, len(d)-t.Int(1, 3))]
		case 2: // change a length
			if len(d) > 4 {
				j := t.Int(1, 4)
				switch t.Int(0, 2) {
				case 0:
					d[j]++
				case 1:
					d[j]--
				case 2:
					d[j] = t.Byte()
				}
			}
		case 3: // change some byte after the outputs (controls, values, sets)
			if len(d) > 5+len(r.Out)*size {
				j := t.Int(5+len(r.Out)*size, len(d)-1)
				switch t.Int(0, 3) {
				case 0:
					d[j] ^= 1 << t.Int(0, 7)
				case 1:
					d[j] = t.Byte()
				case 2:
					d[j] = 0
				case 3:
					d[j] = 255
				}
			}
		case 4: // extra bytes
			j := len(d)
			if t.Bool() {
				j = t.Int(0, len(d))
			}
			extra := make([]byte, t.Int(1, 4))
			for k := range extra {
				if t.Bool() {
					extra[k] = t.Byte()
				}
			}
			d = slices.Insert(d, j, extra...)
		case 5: // remove bytes
			j := t.Int(0, len(d)-1)
			d = slices.Delete(d, j, min(len(d), j+t.Int(1, size)))
		case 6: // made up
			d = make([]byte, t.Size(0, 60))
			for k := range d {
				if t.Bool() {
					d[k] = uint8(t.Int(0, 3))
				} else {
					d[k] = t.Byte()
				}
			}
			if len(d) > 0 && t.Bool() {
				d[0] = 255
			}
		case 7: // undefined references, consistently encoded
			c := &rule{}
			c.Cond, c.Out = r.Cond, r.Out
			c.Head, c.Body, c.Tail = slices.Clone(r.Head), slices.Clone(r.Body), slices.Clone(r.Tail)
			if t.Bool() {
				c.Cond = uint8(t.Int(min(len(w.m.Conditions), 254), 254))
			} else {
				blocks := [][]fm.Elem{c.Head, c.Body, c.Tail}
				blk := blocks[t.Int(0, 2)]
				if len(blk) == 0 {
					blk = c.Body
				}
				blk[t.Int(0, len(blk)-1)] = fm.Elem{IsSet: true, V: uint32(t.Int(len(w.sets), 255))}
			}
			d = fm.EncodeRule(t, nil, &c.Rule, w.wide)
		}
	}
	return d
}

// malformed decides P18.
func malformed(t *pbt.T, wide bool) {
	w := genWorld(t, wide)
	w.finish(t)
	w.describe(t)
	kind := "glyph"
	if wide {
		kind = "utf8"
	}
	t.Logf("%s tester", kind)
	ts := newTester(wide, w.env())
	if t.Prob(1) {
		w.tooMany(t, ts)
		return
	}

	type entry struct {
		data []byte
		good *rule // nil for bad and unspecified ones
		v    verdict
	}
	var entries, added []entry
	var good []*rule
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		r := w.genRule(t, good)
		good = append(good, r)
		entries = append(entries, entry{r.data, r, wellFormed})
	}
	long := 11
	if wide {
		long = 13
	}
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		d := w.damage(t, pbt.Pick(t, good))
		r, v := w.decode(d)
		if v == wellFormed {
			t.Label("still valid")
		} else {
			r = nil
		}
		if v == badRule && len(d) >= long {
			t.Nontrivial()
		}
		j := t.Int(0, len(entries))
		entries = slices.Insert(entries, j, entry{d, r, v})
	}
	names := []string{"valid", "malformed", "unspecified"}
	for _, e := range entries {
		var err error
		before := ts.NumRules()
		t.NoPanic("AddRule("+hex.EncodeToString(e.data)+")", func() { err = ts.Add(e.data) })
		t.Logf("add %s rule %s: %v", names[e.v], hex.EncodeToString(e.data), err)
		if e.good != nil {
			t.Logf("  %s", e.good)
		}
		if err != nil && e.v == wellFormed {
			t.Fatalf("AddRule failed on a valid rule: %s", err)
		}
		if err == nil {
			added = append(added, e)
			before++
		}
		if ts.NumRules() != before {
			t.Fatalf("AddRule returned %v, but the number of rules is %d (expected %d)", err, ts.NumRules(), before)
		}
	}
	has := func(v verdict) bool {
		return slices.ContainsFunc(added, func(e entry) bool { return e.v == v })
	}
	rulesOf := func() (out []*rule) {
		for _, e := range added {
			out = append(out, e.good)
		}
		return out
	}
	var other tester
	otherRules := good[:1]
	if t.Bool() { // a tester with good rules of its own
		other = newTester(wide, w.env())
		if err := other.Add(good[0].data); err != nil {
			t.Fatalf("AddRule failed on a valid rule: %s", err)
		}
	}
	checkOther := func() {
		if other != nil && !w.begin(t, other, otherRules) {
			t.Logf("other tester:")
			w.run(t, other, otherRules, w.genRun(t, otherRules), true)
		}
	}
	// try, then remove offending rules (in any order) until it works
	for {
		var err error
		how := "BeginSequence"
		if t.Bool() {
			how = "Resync"
			t.NoPanic(how, func() { err = ts.Resync() })
		} else {
			t.NoPanic(how, func() { err = ts.Begin() })
		}
		t.Logf("%s: %v", how, err)
		if err != nil && ts.IsOperating() {
			t.Fatalf("the tester is operating after %s failed: %s", how, err)
		}
		if has(badRule) {
			if err == nil {
				t.Fatalf("%s accepted malformed rules", how)
			}
			if t.Prob(30) {
				t.NoPanic("repeated Resync", func() { err = ts.Resync() })
				if err == nil {
					t.Fatalf("a repeated Resync accepted malformed rules")
				}
			}
			if t.Prob(20) {
				t.NoPanic("RefreshConditions", func() { ts.Refresh() })
			}
			checkOther()
		} else if !has(unspecified) {
			if err != nil {
				if w.demanding(rulesOf()) {
					t.Label("rules over the limits")
					return
				}
				t.Fatalf("%s failed with valid rules only: %s", how, err)
			}
			break
		}
		if ts.IsOperating() { // unspecified rules accepted
			t.NoPanic("FinishSequence", func() { ts.Finish(func(uint32) {}) })
		}
		// remove one of the bad ones
		var idx []int
		for i, e := range added {
			if e.v != wellFormed {
				idx = append(idx, i)
			}
		}
		i := pbt.Pick(t, idx)
		d := added[i].data
		i = slices.IndexFunc(added, func(e entry) bool { return slices.Equal(e.data, d) })
		var removed bool
		t.NoPanic("RemoveRule", func() { removed = ts.Remove(slices.Clone(d)) })
		t.Logf("remove %s: %v", hex.EncodeToString(d), removed)
		if !removed {
			t.Fatalf("RemoveRule didn't find rule %s", hex.EncodeToString(d))
		}
		added = slices.Delete(added, i, i+1)
		if ts.NumRules() != len(added) {
			t.Fatalf("%d rules after RemoveRule, want %d", ts.NumRules(), len(added))
		}
	}
	rules := rulesOf()
	if !ts.IsOperating() && w.begin(t, ts, rules) {
		t.Fatalf("unexpected limits error after a successful resync")
	}
	t.Logf("rules left:")
	describeRules(t, rules)
	n := t.Int(1, 3)
	for i := 0; i < n; i++ {
		w.run(t, ts, rules, w.genRun(t, rules), i == n-1)
	}
	checkOther()
}

// tooMany adds more rules than a tester can hold. The ones over the limit must
// be refused, and the others must be applied.
func (w *world) tooMany(t *pbt.T, ts tester) {
	var pool []*rule
	for i, n := 0, t.Int(2, 30); i < n; i++ {
		pool = append(pool, w.genRule(t, pool))
	}
	describeRules(t, pool)
	var rules []*rule
	add := func(r *rule) {
		var err error
		t.NoPanic("AddRule", func() { err = ts.Add(r.data) })
		switch {
		case len(rules) >= 254 && !errors.Is(err, rerules.ErrTesterTooManyRules):
			t.Fatalf("adding a rule to a tester with %d: got error %v", len(rules), err)
		case len(rules) < 254 && err != nil:
			t.Fatalf("AddRule failed on a valid rule: %s", err)
		case err == nil:
			rules = append(rules, r)
		}
		if ts.NumRules() != len(rules) {
			t.Fatalf("NumRules() = %d after adding %d rules", ts.NumRules(), len(rules))
		}
	}
	for i, n := 0, t.Int(250, 300); i < n; i++ {
		add(pbt.Pick(t, pool))
	}
	for round, n := 0, t.Int(1, 3); round < n; round++ {
		if w.begin(t, ts, rules) {
			return
		}
		w.run(t, ts, rules, w.genRun(t, rules), true)
		for i, n := 0, t.Int(0, 4); i < n; i++ { // make some place
			k := t.Int(0, len(rules)-1)
			k = slices.IndexFunc(rules, func(r *rule) bool { return slices.Equal(r.data, rules[k].data) })
			if !ts.Remove(rules[k].data) {
				t.Fatalf("RemoveRule didn't find rule %s", rules[k])
			}
			rules = slices.Delete(rules, k, k+1)
		}
		for i, n := 0, t.Int(0, 6); i < n; i++ {
			add(pbt.Pick(t, pool))
		}
	}
	t.Nontrivial()
	t.Label("more rules than allowed")
}
