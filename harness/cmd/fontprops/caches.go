package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

// world is a font with a settings cache and the plain settings values.
type world struct {
	mk       made
	cache    *ggfnt.SettingsCache
	settings []uint8
}

func newWorld(mk made) *world {
	return &world{mk: mk, cache: ggfnt.NewSettingsCache(mk.f), settings: make([]uint8, len(mk.m.Settings))}
}

func usesSetting(c *fm.Cond, s uint8) bool {
	for _, x := range c.Terms {
		if usesSetting(x, s) {
			return true
		}
	}
	if c.Op < 2 {
		return false
	}
	return c.Setting == s || c.Op == 2 && c.Operand == s
}

func init() {
	register(&pbt.Prop{
		ID: "P13", Quick: 50000, Deep: 400000,
		Rule: "histories of 1-120 operations on one or two mapping caches (in use at once) of 1-200 entries over one or two fonts with switches: lookups of mapped (hot and cold) and unmapped code points, setting changes followed by a drop, changes of settings cache, resets, font changes; every lookup is compared with the model. Non-trivial: at least one setting change between two lookups, and more distinct code points than entries",
		Body: func(t *pbt.T) {
			var worlds []*world
			for i, n := 0, t.Int(1, 2); i < n; i++ {
				mk := makeFont(t, "mapping")
				describe(t, &mk)
				worlds = append(worlds, newWorld(mk))
				if i == 0 && t.Prob(30) { // two settings assignments of one font
					worlds = append(worlds, newWorld(mk))
				}
			}
			type slot struct { // a mapping cache and what it is used with
				mc      *ggfnt.MappingCache
				cur     *world
				size    int
				seen    map[rune]bool
				changed bool
			}
			var slots []*slot
			var cur *world
			var mc *ggfnt.MappingCache
			var seen map[rune]bool
			newSlot := func(cur *world) *slot {
				size := t.Int(1, 4)
				switch t.Weighted(6, 2, 1) {
				case 1:
					size = t.Int(1, 12)
				case 2:
					size = t.Int(1, 200)
				}
				if len(cur.mk.m.Mappings) > 5000 && t.Bool() {
					size = t.Int(30000, 65000)
				}
				mc := ggfnt.NewMappingCache(cur.mk.f, size)
				t.Logf("cache of %d entries", size)
				seen := map[rune]bool{}
				if size >= 30000 { // fill it
					for k := range cur.mk.m.Mappings {
						mp := &cur.mk.m.Mappings[k]
						g, found := mc.Get(mp.Rune, cur.cache)
						if !found {
							t.Fatalf("cached lookup of %q: not found", mp.Rune)
						}
						want, c := cur.mk.m.GroupFor(mp, cur.settings)
						fm.CheckGroup(t, "cached lookup", &g, want, c, cur.mk.builder)
						seen[mp.Rune] = true
					}
				}
				return &slot{mc: mc, cur: cur, size: size, seen: seen}
			}
			slots = append(slots, newSlot(worlds[0]))
			if t.Prob(40) {
				slots = append(slots, newSlot(pbt.Pick(t, worlds)))
			}
			sl := slots[0]
			// a change of the settings affects all the caches they are used with
			drop := func() {
				t.Logf("drop")
				for _, x := range slots {
					if x.cur == sl.cur {
						x.mc.Drop()
					}
				}
			}
			n := t.Int(8, 120)
			var hot []rune
			for i, k := 0, t.Int(1, 10); i < k; i++ {
				w := pbt.Pick(t, worlds)
				if len(w.mk.m.Mappings) > 0 {
					hot = append(hot, pbt.Pick(t, w.mk.m.Mappings).Rune)
				}
			}
			for i := 0; i < n; i++ {
				if len(slots) > 1 {
					if k := t.Int(0, 2); k < 2 && slots[k] != sl {
						t.Logf("mapping cache %d", k)
						sl = slots[k]
					}
				}
				cur, mc, seen = sl.cur, sl.mc, sl.seen
				switch t.Weighted(24, 6, 2, 2, 2, 1) {
				case 0: // lookup
					r := fm.GenProbe(t, cur.mk.m)
					if len(hot) > 0 && t.Prob(80) {
						r = pbt.Pick(t, hot)
					}
					mp := cur.mk.m.FindMapping(r)
					var g ggfnt.GlyphMappingGroup
					var found bool
					what := fmt.Sprintf("cached lookup %d of %q under %v", i, r, cur.settings)
					t.Logf("%s", what)
					t.NoPanic(what, func() { g, found = mc.Get(r, cur.cache) })
					if found != (mp != nil) {
						t.Fatalf("%s: found = %v, want %v", what, found, mp != nil)
					}
					if mp != nil {
						want, c := cur.mk.m.GroupFor(mp, cur.settings)
						fm.CheckGroup(t, what, &g, want, c, cur.mk.builder)
						seen[r] = true
						t.NontrivialIf(sl.changed && len(seen) > sl.size)
					}
				case 1: // settings
					if len(cur.settings) == 0 {
						continue
					}
					affected := false
					for j, k := 0, t.Int(1, 3); j < k; j++ {
						s := t.Int(0, len(cur.settings)-1)
						v := uint8(t.Int(0, len(cur.mk.m.Settings[s].Options)-1))
						t.Logf("set %d = %d", s, v)
						a, _ := cur.cache.Set(ggfnt.SettingKey(s), v)
						cur.settings[s] = v
						affected = affected || a
					}
					if affected || t.Bool() {
						drop()
					}
					sl.changed = sl.changed || len(seen) > 0
				case 2:
					t.Logf("drop")
					mc.Drop()
				case 5: // many drops, ending in settings that may differ
					k := pbt.Pick(t, []int{1, 15, 16, 100, 127, 128, 255, 256, 256, 257, 512, 1024, 32768, 65535, 65536, 65536}) - 1
					t.Logf("%d drops", k)
					for ; k > 0; k-- {
						mc.Drop()
					}
					for s := range cur.settings {
						v := uint8(t.Int(0, len(cur.mk.m.Settings[s].Options)-1))
						t.Logf("set %d = %d", s, v)
						cur.cache.Set(ggfnt.SettingKey(s), v)
						cur.settings[s] = v
						if s > 8 {
							break
						}
					}
					drop()
					t.Label("many drops in a row")
				case 3:
					t.Logf("reset")
					mc.Reset(cur.mk.f)
					sl.seen = map[rune]bool{}
				case 4: // other settings or other font
					next := pbt.Pick(t, worlds)
					if next.mk.f != cur.mk.f {
						t.Logf("reset to another font")
						t.Label("font change")
						mc.Reset(next.mk.f)
						sl.seen = map[rune]bool{}
					} else if next != cur {
						t.Logf("other settings, drop")
						t.Label("other settings cache")
						mc.Drop()
						sl.changed = true
					}
					sl.cur = next
				}
			}
			t.LabelIf(len(sl.seen) > sl.size, "more code points than entries")
			t.LabelIf(sl.changed, "settings changed")
			t.LabelIf(len(slots) > 1, "several mapping caches")
		},
	})

	register(&pbt.Prop{
		ID: "P14", Quick: 100000, Deep: 4000000,
		Rule: "histories of 1-150 operations on 1-3 settings caches in use at once, over one or two generated fonts (0-60 settings, up to 254 switches and conditions): sets, gets (also of undefined keys), storing and querying switch cases and conditions, lookups through the cache; each compared with its own model, that forgets stored values on every set. Non-trivial: a query after a set after a store",
		Body: func(t *pbt.T) {
			type state struct {
				m             *fm.Font
				f             *ggfnt.Font
				sc            *ggfnt.SettingsCache
				vals          []uint8
				cases         map[uint8]uint8
				forged        map[uint8]bool // stored cases that aren't the true ones
				conds         map[uint8]bool
				stored, after bool
			}
			newState := func(m *fm.Font, f *ggfnt.Font) *state {
				return &state{m: m, f: f, sc: ggfnt.NewSettingsCache(f), vals: make([]uint8, len(m.Settings)),
					cases: map[uint8]uint8{}, forged: map[uint8]bool{}, conds: map[uint8]bool{}}
			}
			foci := []string{"mapping", "conditions", "settings", ""}
			m := fm.GenFont(t, fm.Opt{Focus: pbt.Pick(t, foci)})
			mk := finishFont(t, made{m: m}, 2)
			states := []*state{newState(m, mk.f)}
			for n := t.Weighted(2, 2, 1); n > 0; n-- {
				if t.Prob(25) {
					m2 := fm.GenFont(t, fm.Opt{Focus: pbt.Pick(t, foci)})
					mk2 := finishFont(t, made{m: m2}, 2)
					states = append(states, newState(m2, mk2.f))
				} else {
					states = append(states, newState(m, mk.f))
				}
			}
			cur := states[0]
			setAfterStore := false
			checkCase := func(i uint8) {
				v, cached := cur.sc.GetMappingCase(i)
				if i >= 254 {
					if v != 0 || !cached {
						t.Fatalf("GetMappingCase(%d) = %d, %v for a default switch", i, v, cached)
					}
					return
				}
				want, ok := cur.cases[i]
				if cached && !ok {
					t.Fatalf("GetMappingCase(%d) answers %d, but nothing was stored since the last change", i, v)
				}
				if cached && v != want {
					t.Fatalf("GetMappingCase(%d) = %d, stored %d", i, v, want)
				}
				t.NontrivialIf(cur.after)
			}
			checkCond := func(i uint8) {
				v, cached := cur.sc.GetRewriteCondition(i)
				if i == 255 {
					if !v || !cached {
						t.Fatalf("GetRewriteCondition(255) = %v, %v for the default condition", v, cached)
					}
					return
				}
				want, ok := cur.conds[i]
				if cached && !ok {
					t.Fatalf("GetRewriteCondition(%d) answers %v, but nothing was stored since the last change", i, v)
				}
				if cached && v != want {
					t.Fatalf("GetRewriteCondition(%d) = %v, stored %v", i, v, want)
				}
				t.NontrivialIf(cur.after)
			}
			for i, n := 0, t.Size(1, 150); i < n; i++ {
				if len(states) > 1 && t.Prob(25) {
					k := t.Int(0, len(states)-1)
					cur = states[k]
					t.Logf("cache %d", k)
				}
				m := cur.m
				nsw, ncond := len(m.Switches), len(m.Conditions)
				t.NoPanic("settings cache operation", func() {
					switch t.Weighted(3, 3, 3, 3, 2, 2, 1) {
					case 0:
						if len(cur.vals) == 0 {
							return
						}
						s := t.Int(0, len(cur.vals)-1)
						v := uint8(t.Int(0, len(m.Settings[s].Options)-1))
						t.Logf("Set(%d, %d)", s, v)
						a, b := cur.sc.Set(ggfnt.SettingKey(s), v)
						if cur.vals[s] == v { // not a change: what was stored may still be served
							t.Label("set to the same value")
							return
						}
						cur.vals[s] = v
						cur.cases, cur.conds = map[uint8]uint8{}, map[uint8]bool{}
						for _, sw := range m.Switches {
							for _, x := range sw {
								if int(x) == s && !a {
									t.Fatalf("Set(%d) reports that no mapping is affected, but a switch uses the setting", s)
								}
							}
						}
						for _, c := range m.Conditions {
							if usesSetting(c, uint8(s)) && !b {
								t.Fatalf("Set(%d) reports that no condition is affected, but one uses the setting", s)
							}
						}
						cur.after = cur.after || cur.stored
						setAfterStore = setAfterStore || cur.after
					case 1:
						if nsw == 0 {
							return
						}
						i, v := uint8(t.Int(0, nsw-1)), t.Byte()
						t.Logf("CacheMappingCase(%d, %d)", i, v)
						// a lookup through the font would store the true case;
						// the cache itself must serve back whatever was stored
						cur.sc.CacheMappingCase(i, v)
						cur.cases[i] = v
						cur.forged[i] = true
						cur.stored = true
						checkCase(i)
					case 2:
						if ncond == 0 {
							return
						}
						i, v := uint8(t.Int(0, ncond-1)), t.Bool()
						t.Logf("CacheRewriteCondition(%d, %v)", i, v)
						cur.sc.CacheRewriteCondition(i, v)
						cur.conds[i] = v
						cur.stored = true
						checkCond(i)
					case 3:
						if nsw > 0 {
							checkCase(uint8(t.Int(0, nsw-1)))
						}
						if ncond > 0 {
							checkCond(uint8(t.Int(0, ncond-1)))
						}
						checkCase(254)
						checkCase(255)
						checkCond(255)
					case 4:
						k := t.Int(0, 255)
						want := uint8(0)
						if k < len(cur.vals) {
							want = cur.vals[k]
						}
						if got := cur.sc.Get(ggfnt.SettingKey(k)); got != want {
							t.Fatalf("Get(%d) = %d, want %d", k, got, want)
						}
					case 5: // everything, in all caches
						back := cur
						defer func() { cur = back }()
						for _, cur = range states {
							nsw, ncond := len(cur.m.Switches), len(cur.m.Conditions)
							for j := 0; j < nsw; j++ {
								checkCase(uint8(j))
							}
							for j := 0; j < ncond; j++ {
								checkCond(uint8(j))
							}
							for j := range cur.vals {
								if got := cur.sc.Get(ggfnt.SettingKey(j)); got != cur.vals[j] {
									t.Fatalf("Get(%d) = %d, want %d", j, got, cur.vals[j])
								}
							}
							if got := cur.sc.UnsafeSlice(); string(got) != string(cur.vals) {
								t.Fatalf("UnsafeSlice() = %v, want %v", got, cur.vals)
							}
						}
					case 6: // a lookup stores the true case; only when no forged case is stored
						if len(m.Mappings) == 0 {
							return
						}
						mp := &m.Mappings[t.Int(0, len(m.Mappings)-1)]
						if mp.Kind < 254 {
							if _, ok := cur.cases[mp.Kind]; ok && cur.forged[mp.Kind] {
								return
							}
						}
						t.Logf("lookup of %q", mp.Rune)
						fm.CheckMappingAt(t, cur.f, m, cur.sc, cur.vals, mp.Rune, false)
						if mp.Kind < 254 {
							cur.cases[mp.Kind] = uint8(m.Case(mp.Kind, cur.vals))
							cur.forged[mp.Kind] = false
							cur.stored = true
						}
					}
				})
			}
			t.LabelIf(setAfterStore, "set after store")
			t.LabelIf(len(states) > 1, "several caches")
			t.LabelIf(len(m.Switches) > 8, "more than 8 switches")
			t.LabelIf(len(m.Conditions) > 8, "more than 8 conditions")
		},
	})
}
