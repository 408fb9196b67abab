package main

import (
	"slices"

	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// apply decides P16 and P17.
func apply(t *pbt.T, wide bool) {
	w := genWorld(t, wide)
	var rules []*rule
	if t.Prob(1) {
		w.moreConditions(t)
		for i, n := 0, t.Int(2, 150); i < n; i++ {
			r := w.genRule(t, rules)
			if t.Bool() {
				r = w.recond(t, r)
			}
			rules = append(rules, r)
		}
		t.Label("many conditions")
	} else {
		rules = w.genRules(t)
	}
	w.describe(t)
	describeRules(t, rules)

	viaFont := t.Prob(30)
	if viaFont {
		var list []fm.Rule
		for _, r := range rules {
			list = append(list, r.Rule)
		}
		if wide {
			w.m.Utf8Rules = list
		} else {
			w.m.GlyphRules = list
		}
	}
	w.finish(t)
	ts := newTester(wide, w.env())
	for i, r := range rules {
		data := r.data
		if viaFont {
			if wide {
				data = w.font.Rewrites().GetUtf8Rule(uint16(i)).Data
			} else {
				data = w.font.Rewrites().GetGlyphRule(uint16(i)).Data
			}
		}
		var err error
		t.NoPanic("AddRule", func() { err = ts.Add(data) })
		if err != nil {
			t.Fatalf("AddRule failed on rule %d: %s", i, err)
		}
	}
	if w.begin(t, ts, rules) {
		return
	}
	overlapping := false
	for i := range rules {
		for j := range rules[:i] {
			if rules[i].Cond == rules[j].Cond && w.share(rules[i].In()[0], rules[j].In()[0]) {
				overlapping = true
			}
		}
	}
	long := 0
	for _, r := range rules {
		if r.inLen() > 100 {
			long++
		}
	}
	nruns := t.Int(1, 4)
	total := 0
	var endless bool
	if len(rules) <= 20 && t.Choice(4999) == 4999 {
		endless = true
		t.Label("tens of thousands of elements")
	}
	for i := 0; i < nruns; i++ {
		seq := w.genRun(t, rules)
		if endless {
			seq = w.genEndless(t, rules)
			endless = false
		}
		total += w.run(t, ts, rules, seq, i == nruns-1)
	}
	t.NontrivialIf(total > 0 && overlapping)
	t.LabelIf(total > 1, "several rewrites")
	t.LabelIf(len(rules) > 20, "many rules")
	t.LabelIf(long > 0 && total > 0, "rules with over 100 elements")
	t.LabelIf(viaFont, "rules from the font")
}

// share returns whether some value satisfies both elements.
func (w *world) share(a, b fm.Elem) bool {
	for _, v := range w.probes {
		if w.matches(a, v) && w.matches(b, v) {
			return true
		}
	}
	return false
}

// begin starts a sequence, maybe resyncing first. It returns true if the rules
// exceed what the tester can handle.
func (w *world) begin(t *pbt.T, ts tester, rules []*rule) (over bool) {
	var err error
	if t.Prob(30) {
		t.NoPanic("Resync", func() { err = ts.Resync() })
	}
	if err == nil {
		t.NoPanic("BeginSequence", func() { err = ts.Begin() })
	}
	if err != nil {
		if ts.IsOperating() {
			t.Fatalf("the tester is operating after failing to begin: %s", err)
		}
		if !w.demanding(rules) {
			t.Fatalf("can't begin a sequence: %s", err)
		}
		t.Label("rules over the limits")
		return true
	}
	if !ts.IsOperating() {
		t.Fatalf("the tester isn't operating after BeginSequence")
	}
	return false
}

// run feeds a sequence up to a break or the end and checks the output. It
// returns the number of rewrites.
func (w *world) run(t *pbt.T, ts tester, rules []*rule, seq []uint32, last bool) int {
	if len(seq) > 4000 {
		t.Logf("feed %v ... (%d elements)", seq[:400], len(seq))
	} else {
		t.Logf("feed %v", seq)
	}
	var got []uint32
	emit := func(v uint32) { got = append(got, v) }
	for _, v := range seq {
		if !w.wide && t.Prob(5) {
			n := len(got)
			w.feed(t, ts, glyphZilch, emit)
			if len(got) != n {
				t.Fatalf("feeding a zilch glyph emitted %v", got[n:])
			}
		}
		w.feed(t, ts, v, emit)
	}
	if last {
		t.NoPanic("FinishSequence", func() { ts.Finish(emit) })
	} else {
		t.NoPanic("Break", func() { ts.Break(emit) })
	}
	ok, want, applied := w.accepts(rules, seq, got)
	if !ok {
		if len(seq) > 4000 {
			k := 0
			for k < min(len(got), len(want)) && got[k] == want[k] {
				k++
			}
			t.Fatalf("wrong output for a sequence of %d elements: from the output element %d on, got %v, want %v", len(seq), k, got[k:min(len(got), k+20)], want[k:min(len(want), k+20)])
		}
		t.Fatalf("wrong output for %v: got %v, want %v (by rules %v)", seq, got, want, applied)
	}
	if !slices.Equal(want, got) {
		t.Label("alternative reading")
	}
	return len(applied)
}

func (w *world) feed(t *pbt.T, ts tester, v uint32, emit func(uint32)) {
	var err error
	t.NoPanic("Feed", func() { err = ts.Feed(v, emit) })
	if err != nil {
		t.Fatalf("Feed(%d) failed: %s", v, err)
	}
}
