// nameprops decides the properties about dates, names and strings.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

func main() {
	pbt.Main([]*pbt.Prop{{
		ID:    "P21",
		Quick: 60000,
		Deep:  1500000,
		Rule:  "a whole year (every month and day value from 0 to 63 plus larger ones, or every value), or some dates of 128 years in a row, compared with the time package's calendar, or a single triple passed to the builder and through a built font; always non-trivial, since each case contains valid and invalid dates",
		Body:  dates,
	}, {
		ID:    "P22",
		Quick: 300000,
		Deep:  6000000,
		Rule:  "a name or string at or around the limits (length, first, last and repeated characters, character classes, encoding) given to the builder or placed in a font file, or every byte at one place of a name. Non-trivial: it is within one change of the opposite verdict (mutated from a valid one) or at a length limit",
		Body:  names,
	}})
}

// --- dates ---

// valid is the oracle: real calendar dates, or dates missing trailing parts.
func valid(y uint16, m, d uint8) bool {
	switch {
	case y == 0:
		return m == 0 && d == 0
	case m == 0:
		return d == 0
	case d == 0:
		return m <= 12
	}
	if m > 12 || d > 31 {
		return false
	}
	at := time.Date(int(y), time.Month(m), int(d), 12, 0, 0, 0, time.UTC)
	return at.Year() == int(y) && at.Month() == time.Month(m) && at.Day() == int(d)
}

func text(y uint16, m, d uint8) string {
	var parts []string
	if y == 0 && m == 0 && d == 0 {
		return "(Unknown Date)"
	}
	if d != 0 {
		parts = append(parts, fmt.Sprint(d))
	}
	if m != 0 {
		parts = append(parts, time.Month(m).String())
	}
	return strings.Join(append(parts, fmt.Sprintf("%04d", y)), " ")
}

func genYear(t *pbt.T) uint16 {
	switch t.Weighted(6, 2, 2, 1) {
	case 1:
		return uint16(t.Int(0, 655) * 100)
	case 2:
		return uint16(t.Int(1890, 2110))
	case 3:
		return pbt.Pick(t, []uint16{0, 1, 2, 3, 4, 65535, 65534, 65532, 65500, 65200, 400, 100})
	}
	return uint16(t.Choice(65535))
}

func dates(t *pbt.T) {
	t.Nontrivial()
	y := genYear(t)
	if t.Prob(80) {
		t.Label("year")
		if t.Prob(60) {
			y &^= 127
			t.Logf("dates of years %d to %d", y, y+127)
			for k := 0; k < 128; k++ {
				yy := y + uint16(k)
				for _, md := range [][2]uint8{{0, 0}, {1, 0}, {12, 0}, {13, 0}, {1, 1}, {2, 28}, {2, 29}, {2, 30}, {4, 30}, {4, 31}, {12, 31}, {12, 32}, {0, 1}, {uint8(k + 1), uint8(yy>>7) + 1}} {
					checkDate(t, ggfnt.Date{Year: yy, Month: md[0], Day: md[1]})
				}
			}
			return
		}
		if t.Prob(10) {
			t.Logf("all the triples of year %d", y)
			for md := 0; md < 65536; md++ {
				checkDate(t, ggfnt.Date{Year: y, Month: uint8(md >> 8), Day: uint8(md)})
			}
			return
		}
		t.Logf("the dates of year %d", y)
		for m := 0; m < 256; m++ {
			if m == 64 {
				m = 250
			}
			for d := 0; d < 256; d++ {
				if d == 64 {
					d = 250
				}
				checkDate(t, ggfnt.Date{Year: y, Month: uint8(m), Day: uint8(d)})
			}
		}
		return
	}
	t.Label("builder")
	var b *builder.Font
	t.NoPanic("New", func() { b = builder.New() })
	for i := 0; i < 3; i++ {
		genDate := func() ggfnt.Date {
			date := ggfnt.Date{Year: genYear(t), Month: uint8(t.Int(0, 14)), Day: uint8(t.Int(26, 33))}
			switch t.Weighted(4, 1, 1, 1, 1) {
			case 1:
				date.Day = 0
			case 2:
				date.Day, date.Month = 0, 0
			case 3:
				date.Year = 0
			case 4:
				date.Month, date.Day = t.Byte(), t.Byte()
			}
			return date
		}
		date := genDate()
		set := []func(ggfnt.Date) error{b.SetFirstVerDate, b.SetMajorVerDate, b.SetMinorVerDate}[i]
		get := []func() ggfnt.Date{b.GetFirstVerDate, b.GetMajorVerDate, b.GetMinorVerDate}
		before := []ggfnt.Date{get[0](), get[1](), get[2]()}
		checkDate(t, date)
		var err error
		t.Logf("setting date %d to %v", i, date)
		t.NoPanic("Set*VerDate", func() { err = set(date) })
		ok := valid(date.Year, date.Month, date.Day)
		if (err == nil) != ok {
			t.Fatalf("date %+v: error %v", date, err)
		}
		if ok {
			before[i] = date
		}
		for j := range before {
			if get[j]() != before[j] {
				t.Fatalf("after setting date %d to %+v (error %v), date %d is %+v, expected %+v", i, date, err, j, get[j](), before[j])
			}
		}
	}
}

func checkDate(t *pbt.T, date ggfnt.Date) {
	y, m, d := date.Year, date.Month, date.Day
	var ok, complete bool
	if p, stack := pbt.Catch(func() { ok, complete = date.IsValid(), date.IsComplete() }); p != nil {
		t.Fatalf("IsValid of %+v panicked: %v\n%s", date, p, stack)
	}
	if ok != valid(y, m, d) {
		t.Fatalf("IsValid of %+v is %v", date, ok)
	}
	if complete != (y != 0 && m != 0 && d != 0) {
		t.Fatalf("IsComplete of %+v is %v", date, complete)
	}
	if date.HasYear() != (y != 0) || date.HasMonth() != (m != 0) || date.HasDay() != (d != 0) {
		t.Fatalf("Has* of %+v: %v %v %v", date, date.HasYear(), date.HasMonth(), date.HasDay())
	}
	if !ok && !(m < 14 && d < 34 || m&d == 255) {
		return // enough text forms of invalid dates
	}
	var str, name string
	if p, stack := pbt.Catch(func() { str, name = date.String(), date.MonthName() }); p != nil {
		t.Fatalf("text of %+v panicked: %v\n%s", date, p, stack)
	}
	if ok && str != text(y, m, d) {
		t.Fatalf("text of %+v is %q, expected %q", date, str, text(y, m, d))
	}
	if m >= 1 && m <= 12 && name != time.Month(m).String() {
		t.Fatalf("month name of %+v is %q", date, name)
	}
	if !ok && (d != 0 && !strings.HasPrefix(str, fmt.Sprint(d)+" ") || !strings.HasSuffix(str, fmt.Sprintf("%04d", y))) {
		t.Fatalf("text of the invalid %+v is %q", date, str)
	}
}

// --- names ---

var nameRule = regexp.MustCompile(`^[a-zA-Z0-9]+(-[a-zA-Z0-9]+)*$`)

// wellFormed returns whether a basic name is well-formed. Names that start
// with a digit are left out: the specification doesn't allow them, but it
// predefines some words that do it ("75", "100").
func wellFormed(name string) (ok, unspecified bool) {
	if len(name) > 32 || !nameRule.MatchString(name) || strings.HasSuffix(name, "\n") {
		return false, false
	}
	return true, name[0] >= '0' && name[0] <= '9'
}

var oddChars = []string{"-", "-", "--", " ", "_", ".", "/", ":", "@", "[", "`", "{", "\x00", "\n", "\x1f", "\x7f", "\x80", "\xff", "é", "K", "0", "9", "a", "z", "A", "Z", "ª", "٣"}

func genName(t *pbt.T) string {
	name := fm.GenBasicName(t)
	if t.Prob(35) { // at the length limit
		n := t.Int(30, 34)
		if t.Prob(10) {
			n = pbt.Pick(t, []int{64, 255, 256, 257, 288, 300})
		}
		for len(name) < n {
			name += "abcdefgh"
		}
		name = name[:n]
		t.Nontrivial()
	}
	for i, n := 0, t.Weighted(3, 5, 1); i < n; i++ {
		t.Nontrivial()
		odd := pbt.Pick(t, oddChars)
		at := pbt.Pick(t, []int{0, len(name), t.Int(0, len(name)), max(0, len(name)-1), min(1, len(name))})
		if t.Bool() && at < len(name) { // replace, else insert
			name = name[:at] + odd + name[at+1:]
		} else {
			name = name[:at] + odd + name[at:]
		}
	}
	if t.Prob(2) {
		name = ""
	}
	return name
}

func genString(t *pbt.T, max int) string {
	str := fm.GenText(t, max)
	if len(str) >= max-1 {
		t.Nontrivial()
	}
	if t.Prob(30) { // move the length around the limit
		t.Nontrivial()
		n := max + t.Int(-2, 3)
		unit := pbt.Pick(t, []string{"a", "é", "日", "😀"})
		str = strings.Repeat(unit, n/len(unit))
		for len(str) < n {
			str += "z"
		}
	}
	for i, n := 0, t.Weighted(3, 5, 1); i < n; i++ {
		t.Nontrivial()
		odd := pbt.Pick(t, []string{"\x00", "\n", "\t", "\x1f", " ", "!", "\x80", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\ufffd", "é", "\U0010FFFF", "\u00a0", "\r"})
		at := pbt.Pick(t, []int{0, len(str), t.Int(0, len(str))})
		if t.Bool() && at < len(str) {
			str = str[:at] + odd + str[at+1:]
		} else {
			str = str[:at] + odd + str[at:]
		}
	}
	return str
}

func stringOK(str string, min, max int) bool {
	if len(str) < min || len(str) > max || !utf8.ValidString(str) {
		return false
	}
	return strings.IndexFunc(str, func(r rune) bool { return r < ' ' }) < 0
}

// newBuilder returns a builder with the least that builds.
func newBuilder(t *pbt.T) (b *builder.Font, uid uint64) {
	t.NoPanic("New", func() {
		b = builder.New()
		var err error
		if uid, err = b.AddGlyph(image.NewAlpha(image.Rect(0, -1, 1, 0))); err != nil {
			t.Fatalf("AddGlyph: %v", err)
		}
	})
	fm.FillMetrics(t, b, &fm.Metrics{Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5})
	b.SetName("font")
	return b, uid
}

func build(t *pbt.T, b *builder.Font) *ggfnt.Font {
	var f *ggfnt.Font
	var err error
	t.NoPanic("Build", func() { f, err = b.Build() })
	if err != nil {
		t.Fatalf("Build: %v", err)
	}
	return fm.MustParse(t, fm.Export(t, f))
}

func verdict(t *pbt.T, what, name string, err error, ok bool) {
	t.LabelIf(ok, "valid")
	if (err == nil) != ok {
		t.Fatalf("%s %q (%d bytes): error %v, expected accepted: %v", what, name, len(name), err, ok)
	}
}

// sweep tries every byte, or many code points, at one place of a valid name.
func sweep(t *pbt.T) {
	t.Label("every byte at one place")
	t.Nontrivial()
	b, uid := newBuilder(t)
	name := fm.GenBasicName(t)
	at := t.Int(0, len(name))
	rest := name[at:]
	if rest != "" && (t.Bool() || len(name) == 32) {
		rest = rest[1:]
	}
	kind := t.Int(0, 4)
	t.Logf("kind %d: every byte between %q and %q", kind, name[:at], rest)
	for c := 0; c < 256; c++ {
		str := name[:at] + string([]byte{byte(c)}) + rest
		if kind >= 3 {
			str = name[:at] + string(rune(c)) + rest
		}
		var err error
		ok, skip := wellFormed(str)
		t.NoPanic("setting a name", func() {
			switch kind {
			case 0:
				err = b.SetGlyphName(uid, str)
			case 1:
				_, err = b.AddSetting(str, "on", "off")
			case 2:
				_, err = b.AddSetting(fmt.Sprintf("set-%d", c%200), str)
				if c%200 == 199 {
					b, uid = newBuilder(t)
				}
			case 3:
				ok, skip = stringOK(str, 1, 255), false
				err = b.SetName(str)
			case 4:
				ok, skip = stringOK(str, 1, 65535), false
				err = b.SetAbout(str)
			}
		})
		if skip {
			continue
		}
		verdict(t, "name", str, err, ok)
	}
}

func names(t *pbt.T) {
	if t.Prob(3) {
		sweep(t)
		return
	}
	switch t.Weighted(3, 3, 3, 4, 3, 2) {
	case 0:
		t.Label("glyph name")
		b, uid := newBuilder(t)
		var err error
		last := ""
		for i := 0; i < 2; i++ {
			name := genName(t)
			t.Logf("glyph name %q", name)
			t.NoPanic("SetGlyphName", func() { err = b.SetGlyphName(uid, name) })
			ok, skip := wellFormed(name)
			if skip {
				ok = err == nil
			}
			verdict(t, "glyph name", name, err, ok)
			if ok {
				last = name
			} else if t.Prob(3) && name != "" {
				if idx := build(t, b).Glyphs().FindIndexByName(name); idx != ggfnt.GlyphMissing {
					t.Fatalf("refused name %q is in the font", name)
				}
			}
		}
		if last != "" && t.Prob(10) && (last[0] < '0' || last[0] > '9') {
			if idx := build(t, b).Glyphs().FindIndexByName(last); idx != 0 {
				t.Fatalf("accepted name %q isn't in the font (found %d)", last, idx)
			}
		}
	case 1:
		t.Label("setting name")
		b, _ := newBuilder(t)
		name := genName(t)
		t.Logf("setting name %q", name)
		var err error
		var key ggfnt.SettingKey
		t.NoPanic("AddSetting", func() { key, err = b.AddSetting(name, "on", "off") })
		ok, skip := wellFormed(name)
		if skip {
			ok = err == nil
		}
		verdict(t, "setting name", name, err, ok)
		afterSetting(t, b, ok, key, name, []string{"on", "off"}, skip)
	case 2:
		t.Label("option name")
		b, _ := newBuilder(t)
		n := t.Int(1, 4)
		options := make([]string, n)
		for i := range options {
			options[i] = "opt" + string(rune('a'+i))
		}
		at := t.Int(0, n-1)
		options[at] = genName(t)
		if t.Prob(10) {
			options[at] = ggfnt.GetPredefinedWord(uint8(t.Int(0, 255)))
		}
		t.Logf("options %q", options)
		var err error
		var key ggfnt.SettingKey
		t.NoPanic("AddSetting", func() { key, err = b.AddSetting("set", options...) })
		ok, skip := wellFormed(options[at])
		if skip && !predefined(options[at]) {
			ok = err == nil
		}
		verdict(t, "option name", options[at], err, ok)
		afterSetting(t, b, ok, key, "set", options, skip && !predefined(options[at]))
	case 3:
		t.Label("font string")
		b := builder.New()
		i := t.Int(0, 3)
		set := []func(string) error{b.SetName, b.SetFamily, b.SetAuthor, b.SetAbout}[i]
		get := []func() string{b.GetName, b.GetFamily, b.GetAuthor, b.GetAbout}
		limit := 255
		low := 0
		if i == 3 {
			limit = 65535
			if t.Prob(60) {
				limit = 300 // stay short most of the time
			}
		}
		if i == 0 {
			low = 1
		}
		before := []string{get[0](), get[1](), get[2](), get[3]()}
		for j := 0; j < 2; j++ {
			str := genString(t, limit)
			if t.Prob(3) {
				str = ""
			}
			real := limit
			if i == 3 {
				real = 65535
			}
			ok := stringOK(str, low, real)
			var err error
			t.Logf("string %d with %d bytes: %.80q", i, len(str), str)
			t.NoPanic("setter", func() { err = set(str) })
			verdict(t, "font string", clip(str), err, ok)
			if ok {
				before[i] = str
			}
			for k := range get {
				if get[k]() != before[k] {
					t.Fatalf("after setting string %d (error %v), string %d is %.80q, expected %.80q", i, err, k, get[k](), before[k])
				}
			}
		}
	case 4:
		t.Label("file name")
		m := &fm.Font{ID: 0x1B1B1B1B1B1B1B1B, Name: "n", M: fm.Metrics{Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5}}
		m.Glyphs = append(m.Glyphs, fm.Glyph{})
		name := genName(t)
		ok, skip := wellFormed(name)
		if skip {
			return
		}
		if name == "" {
			return // an unnamed glyph
		}
		if len(name) > 255 {
			return
		}
		if t.Bool() {
			m.Glyphs[0].Name = name
		} else {
			m.Settings = append(m.Settings, fm.Setting{Name: name, Options: []string{"on"}})
		}
		t.Logf("name %q in a file", name)
		raw, _ := fm.Encode(t, m)
		var err error
		t.NoPanic("Parse", func() { _, err = ggfnt.Parse(bytes.NewReader(fm.Wrap(raw))) })
		if ok && err != nil { // the other direction is left to strict validation
			t.Fatalf("name %q in a file: %v", name, err)
		}
	case 5:
		t.Label("color section name")
		b, _ := newBuilder(t)
		str := genString(t, 255)
		if t.Prob(5) {
			str = ""
		}
		if !utf8.ValidString(str) || strings.IndexFunc(str, func(r rune) bool { return r < ' ' }) >= 0 {
			return // only the length is specified
		}
		ok := len(str) >= 1 && len(str) <= 255
		var err error
		t.Logf("color section %.80q", str)
		if t.Bool() {
			t.NoPanic("AddDye", func() { err = b.AddDye(str, 255) })
		} else {
			t.NoPanic("AddPalette", func() { err = b.AddPalette(str, color.RGBA{1, 2, 3, 255}) })
		}
		verdict(t, "color section name", clip(str), err, ok)
	}
}

func clip(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}

func predefined(word string) bool {
	for i := 0; i < 256; i++ {
		if ggfnt.GetPredefinedWord(uint8(i)) == word {
			return true
		}
	}
	return false
}

// afterSetting checks that accepted settings reach the font and refused ones
// don't take a key.
func afterSetting(t *pbt.T, b *builder.Font, ok bool, key ggfnt.SettingKey, name string, options []string, skip bool) {
	if ok && key != 0 {
		t.Fatalf("the first setting has key %d", key)
	}
	var next ggfnt.SettingKey
	var err error
	t.NoPanic("AddSetting", func() { next, err = b.AddSetting("next-one", "x", "y") })
	if name == "next-one" && ok {
		return
	}
	want := 0
	if ok {
		want = 1
	}
	if err != nil || int(next) != want {
		t.Fatalf("after adding %q (accepted %v), the next setting has key %d, error %v", name, ok, next, err)
	}
	if skip || !t.Prob(10) {
		return
	}
	f := build(t, b)
	if n := f.Settings().Count(); int(n) != want+1 {
		t.Fatalf("the font has %d settings, expected %d", n, want+1)
	}
	if ok {
		if n := f.Settings().GetNumOptions(0); int(n) != len(options) {
			t.Fatalf("the setting has %d options, expected %d", n, len(options))
		}
		for i, opt := range options {
			if got := f.Settings().GetOptionName(0, uint8(i)); got != opt {
				t.Fatalf("option %d is %q, expected %q", i, got, opt)
			}
		}
	}
}
