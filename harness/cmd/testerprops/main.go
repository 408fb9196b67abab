// testerprops decides the properties about rewrite rule testers.
package main

import "github.com/tinne26/ggfnt/zzverif/pbt"

const (
	ruleApply   = "a font with 0-4 sets (overlapping ranges, duplicates, empty ones), 0-4 conditions and settings, 1-254 rules over a small alphabet (biased to share prefixes and overlap), and segments of 0-60 elements planted with rule instances, separated by breaks; the tester's output is compared with the reference rewriter. Non-trivial: at least one rewrite applied and at least two rules able to match a common prefix"
	ruleBadData = "1-6 valid rules mixed with 1-3 damaged ones (truncated, extended, bytes and lengths changed, undefined sets or conditions, random bytes), judged by a strict reference decoder; the expected refusals, their repeatability, a second tester in between and the recovery after removing the bad rules are checked. Non-trivial: some damaged rule is malformed by the decoder but long enough to pass the minimum length check"
	ruleHistory = "histories of 5-120 tester operations (adding and removing rules, also bad ones, resyncs, settings changes and refreshes, sequences with feeds, breaks, refused elements and finishes) on one or two testers, in lockstep with a fresh tester and the reference rewriter. Non-trivial: at least two sequences with a rule change, error or condition change in between"
)

func main() {
	pbt.Main([]*pbt.Prop{
		{ID: "P16", Quick: 400000, Deep: 8000000, Rule: ruleApply, Body: func(t *pbt.T) { apply(t, false) }},
		{ID: "P17", Quick: 400000, Deep: 8000000, Rule: ruleApply, Body: func(t *pbt.T) { apply(t, true) }},
		{ID: "P18", Quick: 500000, Deep: 10000000, Rule: ruleBadData, Body: func(t *pbt.T) { malformed(t, t.Bool()) }},
		{ID: "P19", Quick: 100000, Deep: 2500000, Rule: ruleHistory, Body: func(t *pbt.T) { history(t, t.Bool()) }},
	})
}
