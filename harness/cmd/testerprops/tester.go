package main

import (
	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"
)

// tester hides the differences between glyph and utf8 testers.
type tester interface {
	NumRules() int
	IsOperating() bool
	Pending() int
	Resync() error
	Add(data []byte) error
	Remove(data []byte) bool
	RemoveAll()
	Refresh()
	Begin() error
	Feed(v uint32, fn func(uint32)) error
	Break(fn func(uint32))
	Finish(fn func(uint32))
}

type env struct {
	font  *ggfnt.Font
	cache *ggfnt.SettingsCache
}

func newTester(wide bool, e env) tester {
	if wide {
		return &utf8T{env: e}
	}
	return &glyphT{env: e}
}

type glyphT struct {
	env
	t rerules.GlyphTester
}

func glyphFn(fn func(uint32)) func(ggfnt.GlyphIndex) {
	return func(g ggfnt.GlyphIndex) { fn(uint32(g)) }
}

func (g *glyphT) NumRules() int     { return g.t.NumRules() }
func (g *glyphT) IsOperating() bool { return g.t.IsOperating() }
func (g *glyphT) Pending() int      { return g.t.NumPendingGlyphs() }
func (g *glyphT) Resync() error     { return g.t.Resync(g.font, g.cache) }
func (g *glyphT) Add(data []byte) error {
	return g.t.AddRule(ggfnt.GlyphRewriteRule{Data: data})
}
func (g *glyphT) Remove(data []byte) bool {
	return g.t.RemoveRule(ggfnt.GlyphRewriteRule{Data: data})
}
func (g *glyphT) RemoveAll()   { g.t.RemoveAllRules() }
func (g *glyphT) Refresh()     { g.t.RefreshConditions(g.font, g.cache) }
func (g *glyphT) Begin() error { return g.t.BeginSequence(g.font, g.cache) }
func (g *glyphT) Feed(v uint32, fn func(uint32)) error {
	return g.t.Feed(ggfnt.GlyphIndex(v), glyphFn(fn))
}
func (g *glyphT) Break(fn func(uint32))  { g.t.Break(glyphFn(fn)) }
func (g *glyphT) Finish(fn func(uint32)) { g.t.FinishSequence(glyphFn(fn)) }

type utf8T struct {
	env
	t rerules.Utf8Tester
}

func runeFn(fn func(uint32)) func(rune) { return func(r rune) { fn(uint32(r)) } }

func (u *utf8T) NumRules() int     { return u.t.NumRules() }
func (u *utf8T) IsOperating() bool { return u.t.IsOperating() }
func (u *utf8T) Pending() int      { return u.t.NumPendingRunes() }
func (u *utf8T) Resync() error     { return u.t.Resync(u.font, u.cache) }
func (u *utf8T) Add(data []byte) error {
	return u.t.AddRule(ggfnt.Utf8RewriteRule{Data: data})
}
func (u *utf8T) Remove(data []byte) bool {
	return u.t.RemoveRule(ggfnt.Utf8RewriteRule{Data: data})
}
func (u *utf8T) RemoveAll()   { u.t.RemoveAllRules() }
func (u *utf8T) Refresh()     { u.t.RefreshConditions(u.font, u.cache) }
func (u *utf8T) Begin() error { return u.t.BeginSequence(u.font, u.cache) }
func (u *utf8T) Feed(v uint32, fn func(uint32)) error {
	return u.t.Feed(rune(v), runeFn(fn))
}
func (u *utf8T) Break(fn func(uint32))  { u.t.Break(runeFn(fn)) }
func (u *utf8T) Finish(fn func(uint32)) { u.t.FinishSequence(runeFn(fn)) }
