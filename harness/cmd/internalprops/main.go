// internalprops decides the properties about the internal containers.
package main

import (
	"slices"

	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

func main() {
	pbt.Main([]*pbt.Prop{{
		ID:    "P24",
		Rule:  "a history that wraps the buffer or changes capacity while non-empty, that pushes into a non-empty flag list, or a helper call on at least two elements",
		Quick: 300000,
		Deep:  8000000,
		Body: func(t *pbt.T) {
			switch t.Weighted(12, 4, 3, 2) {
			case 0:
				circular(t)
			case 1:
				boolList(t)
			case 2:
				sequences(t)
			case 3:
				integers(t)
			}
		},
	}})
}

// --- circular buffer ---

func expectPanic(t *pbt.T, what string, fn func()) {
	if p, _ := pbt.Catch(fn); p == nil {
		t.Fatalf("%s did not panic", what)
	}
}

func circular(t *pbt.T) {
	var buf internal.CircularBufferU16[int]
	var model []int
	capacity, peeks, next := 0, 0, 1
	pushed, first := 0, 0 // pushes since the last capacity change, for the wrap label

	check := func(what string) {
		if int(buf.Capacity()) != capacity {
			t.Fatalf("%s: capacity is %d, expected %d", what, buf.Capacity(), capacity)
		}
		if int(buf.Size()) != len(model) || buf.IsEmpty() != (len(model) == 0) {
			t.Fatalf("%s: size is %d (empty %v), expected %d", what, buf.Size(), buf.IsEmpty(), len(model))
		}
		if len(model) == 0 {
			return
		}
		if h := buf.Head(); h != model[0] {
			t.Fatalf("%s: head is %d, expected %d", what, h, model[0])
		}
		if h := buf.Tail(); h != model[len(model)-1] {
			t.Fatalf("%s: tail is %d, expected %d", what, h, model[len(model)-1])
		}
	}
	// walk peeks the whole contents (only without pending peeks)
	walk := func(what string) {
		if peeks != 0 || len(model) == 0 {
			return
		}
		for i := 1; i < len(model); i++ {
			if v, ok := buf.PeekAhead(); !ok || v != model[i] {
				t.Fatalf("%s: element %d is %d (found %v), expected %d", what, i, v, ok, model[i])
			}
		}
		if _, ok := buf.PeekAhead(); ok {
			t.Fatalf("%s: peek beyond the last element", what)
		}
		buf.DiscardPeeks()
	}
	setCap := func(n int, min bool) {
		name := "SetCapacity"
		want := n >= len(model)
		var ok bool
		if min {
			name = "SetMinCapacity"
			want = true // it can only grow
			t.NoPanic(name, func() { ok = buf.SetMinCapacity(uint16(n)) })
		} else {
			t.NoPanic(name, func() { ok = buf.SetCapacity(uint16(n)) })
		}
		t.Logf("%s(%d) with %d elements, capacity %d -> %v", name, n, len(model), capacity, ok)
		if ok != want {
			t.Fatalf("%s(%d) returned %v", name, n, ok)
		}
		if ok && (!min || n > capacity) {
			if n != capacity && len(model) > 0 {
				t.Nontrivial()
				t.Label("resize")
			}
			capacity = n
			pushed, first = 0, 0
		}
	}
	maxCap := 12
	big := t.Prob(1)
	if big {
		// up to the limits of the 16 bits of the indices
		t.Label("big")
		setCap(t.Int(65520, 65535), false)
		fill := t.Int(0, 3)
		for i := 0; i < capacity-fill; i++ {
			buf.Push(next)
			model = append(model, next)
			next++
		}
		drop := len(model) - t.Int(0, 20)
		for i := 0; i < drop; i++ {
			if v := buf.PopHead(); v != model[i] {
				t.Fatalf("pop %d is %d, expected %d", i, v, model[i])
			}
		}
		model = slices.Clone(model[drop:])
		maxCap = 65535
		if t.Bool() && len(model) == 0 {
			setCap(65535, false)
		}
		if t.Bool() {
			n := min(capacity-len(model), pbt.Pick(t, []int{capacity, 40}))
			for i := 0; i < n; i++ {
				buf.Push(next)
				model = append(model, next)
				next++
				if i < 60 || i+10 > n {
					check("push")
				}
			}
			t.Nontrivial()
		}
		check("after filling")
		walk("after filling")
	}

	newCap := func() int {
		if big && t.Bool() { // near the limits
			return t.Int(capacity, 65535)
		}
		return t.Int(0, maxCap)
	}
	n := t.Size(1, 60)
	for i := 0; i < n; i++ {
		switch t.Weighted(8, 5, 2, 4, 2, 2, 3, 1, 1, 2) {
		case 0:
			if len(model) == capacity {
				t.Logf("Push on full")
				expectPanic(t, "Push on a full buffer", func() { buf.Push(0) })
			} else {
				t.Logf("Push(%d)", next)
				t.NoPanic("Push", func() { buf.Push(next) })
				model = append(model, next)
				next++
				pushed++
				if pushed > capacity-first && len(model) > 1 {
					t.Nontrivial()
				}
			}
		case 1: // pops are only specified without pending peeks
			if peeks != 0 {
				buf.DiscardPeeks()
				peeks = 0
			}
			if len(model) == 0 {
				expectPanic(t, "PopHead on an empty buffer", func() { buf.PopHead() })
				expectPanic(t, "Head on an empty buffer", func() { buf.Head() })
			} else {
				var v int
				t.Logf("PopHead")
				t.NoPanic("PopHead", func() { v = buf.PopHead() })
				if v != model[0] {
					t.Fatalf("PopHead is %d, expected %d", v, model[0])
				}
				model = model[1:]
			}
		case 2:
			if peeks != 0 {
				buf.DiscardPeeks()
				peeks = 0
			}
			if len(model) == 0 {
				expectPanic(t, "PopTail on an empty buffer", func() { buf.PopTail() })
				expectPanic(t, "Tail on an empty buffer", func() { buf.Tail() })
			} else {
				var v int
				t.Logf("PopTail")
				t.NoPanic("PopTail", func() { v = buf.PopTail() })
				if v != model[len(model)-1] {
					t.Fatalf("PopTail is %d, expected %d", v, model[len(model)-1])
				}
				model = model[:len(model)-1]
			}
		case 3:
			v, ok := buf.PeekAhead()
			t.Logf("PeekAhead -> %d, %v", v, ok)
			wantOk := len(model) > 0 && peeks < len(model)-1
			if ok != wantOk {
				t.Fatalf("PeekAhead with %d peeks out of %d elements returned %v", peeks, len(model), ok)
			}
			if ok {
				peeks++
			}
			if len(model) > 0 && v != model[peeks] {
				t.Fatalf("PeekAhead returned %d, expected %d", v, model[peeks])
			}
		case 4:
			t.Logf("DiscardPeeks")
			buf.DiscardPeeks()
			peeks = 0
		case 5:
			t.Logf("ConfirmPeeks (%d)", peeks)
			buf.ConfirmPeeks()
			model = model[peeks:]
			peeks = 0
		case 6:
			setCap(newCap(), false)
		case 7:
			setCap(newCap(), true)
		case 8:
			t.Logf("Clear")
			buf.Clear()
			model, peeks = nil, 0
		case 9: // exactly what fits
			setCap(len(model), false)
		}
		check("after the operation")
		if t.Prob(30) {
			walk("contents")
		}
	}
	buf.DiscardPeeks()
	peeks = 0
	walk("final contents")
}

// --- flag lists ---

func boolList(t *pbt.T) {
	size := t.Size(0, 40)
	list := internal.NewBoolList(size - t.Int(0, 1)*2*size) // negative sizes are empty
	if t.Bool() {
		list = internal.NewBoolList(size)
	} else {
		size = 0
		list = internal.BoolList{}
	}
	model := make([]bool, size)
	for i, n := 0, t.Size(1, 60); i < n; i++ {
		switch t.Weighted(6, 6, 1, 1, 2) {
		case 0:
			v := t.Bool()
			t.Logf("Push(%v)", v)
			t.NoPanic("Push", func() { list.Push(v) })
			if len(model) > 0 {
				t.Nontrivial()
			}
			model = append(model, v)
		case 1:
			if len(model) == 0 {
				continue
			}
			at, v := t.Int(0, len(model)-1), t.Bool()
			t.Logf("Set(%d, %v)", at, v)
			model[at] = v
			if at < 256 && t.Bool() {
				list.SetU8(uint8(at), v)
			} else {
				list.Set(at, v)
			}
		case 2:
			t.Logf("SetAllFalse")
			list.SetAllFalse()
			clear(model)
		case 3:
			t.Logf("SetAllTrue")
			list.SetAllTrue()
			for i := range model {
				model[i] = true
			}
		case 4:
			at := pbt.Pick(t, []int{-1, len(model), len(model) + 1, len(model) + 8})
			expectPanic(t, "Get out of bounds", func() { list.Get(at) })
			expectPanic(t, "Set out of bounds", func() { list.Set(at, true) })
		}
		for j, want := range model {
			if list.Get(j) != want || list.IsSet(j) != want || list.IsUnset(j) == want {
				t.Fatalf("flag %d is %v, expected %v", j, list.Get(j), want)
			}
			if j < 256 {
				u := uint8(j)
				w, m := list.GetWordAndBitMaskU8(u)
				if list.GetU8(u) != want || list.IsSetU8(u) != want || list.IsUnsetU8(u) == want || list.RawGetU8(w, m) != want {
					t.Fatalf("flag %d is not %v on its 8-bit accessors", j, want)
				}
			}
		}
	}
}

// --- slices ---

func sequences(t *pbt.T) {
	switch t.Int(0, 2) {
	case 0: // sorted insertion and search
		var got []uint16
		model := map[uint16]bool{}
		top, step := 60, uint16(1)
		if t.Prob(3) { // hundreds of elements
			top, step = 600, uint16(t.Int(1, 100))
			for j, k := 0, t.Int(100, 500); j < k; j++ {
				model[uint16(j)*step] = true
				got = append(got, uint16(j)*step)
			}
			t.Label("hundreds of elements")
		}
		for i, n := 0, t.Size(1, 40); i < n; i++ {
			v := uint16(t.Size(0, 60))
			if top > 60 {
				v = uint16(t.Int(0, 65535))
			}
			model[v] = true
			got = internal.BasicOrderedNonRepeatInsert(got, v)
			var want []uint16
			for k := range model {
				want = append(want, k)
			}
			slices.Sort(want)
			if !slices.Equal(got, want) {
				t.Fatalf("after inserting %d: %v, expected %v", v, got, want)
			}
			x := uint16(t.Size(0, 62))
			if top > 60 {
				x = uint16(t.Int(0, top)) * step
			}
			at, found := internal.BadBinarySearch(got, x)
			wantAt, wantFound := slices.BinarySearch(want, x)
			if at != wantAt || found != wantFound {
				t.Fatalf("searching %d in %v: %d, %v", x, got, at, found)
			}
			t.NontrivialIf(len(want) > 1)
			if t.Prob(20) {
				got = got[:len(got)-1]
				delete(model, want[len(want)-1])
			}
		}
	case 1: // deletion
		var got, want []int
		if t.Prob(8) { // hundreds of elements
			for j, k := 0, t.Int(100, 600); j < k; j++ {
				got = internal.GrowSliceByOne(got)
				got[j] = 1000 + j
				want = append(want, 1000+j)
			}
			t.Label("hundreds of elements")
		}
		for i, n := 0, t.Size(1, 40); i < n; i++ {
			if len(want) == 0 || t.Prob(60) {
				got = internal.GrowSliceByOne(got)
				got[len(got)-1] = i
				want = append(slices.Clone(want), i)
			} else {
				at := t.Int(0, len(want))
				t.Logf("delete %d of %v", at, want)
				t.NoPanic("DeleteElementAt", func() { got = internal.DeleteElementAt(got, at) })
				if at < len(want) {
					want = slices.Delete(slices.Clone(want), at, at+1)
				}
				t.NontrivialIf(len(want) > 1)
			}
			if !slices.Equal(got, want) {
				t.Fatalf("got %v, expected %v", got, want)
			}
		}
	case 2: // growth
		var got, want []int
		for i, n := 0, t.Size(1, 20); i < n; i++ {
			switch t.Int(0, 2) {
			case 0:
				k := t.Size(0, 9)
				got = internal.GrowSliceByN(got, k)
				for j := len(want); j < len(got); j++ {
					got[j] = i*100 + j
				}
				for j := 0; j < k; j++ {
					want = append(want, i*100+len(want))
				}
			case 1:
				k := t.Size(0, 20)
				got = internal.SetSliceSize(got, k)
				want = make([]int, k)
				for j := range want {
					want[j] = i*100 + j
				}
				if len(got) == k {
					copy(got, want)
				}
			case 2:
				if len(want) > 0 {
					k := t.Int(0, len(want))
					got, want = got[:k], slices.Clone(want[:k])
				}
			}
			t.NontrivialIf(len(want) > 1)
			if !slices.Equal(got, want) {
				t.Fatalf("got %v, expected %v", got, want)
			}
		}
	}
}

// --- integers and short encodings ---

func integers(t *pbt.T) {
	t.Nontrivial()
	v := uint64(t.Choice(^uint64(0)))
	want := make([]byte, 8)
	for i := range want {
		want[i] = byte(v >> (8 * i))
	}
	pre := make([]byte, t.Size(0, 5))
	eq := func(what string, got []byte, n int) {
		if !slices.Equal(got, append(slices.Clone(pre), want[:n]...)) {
			t.Fatalf("%s(%#x) is % x", what, v, got)
		}
	}
	eq("AppendUint8", internal.AppendUint8(slices.Clone(pre), byte(v)), 1)
	eq("AppendUint16LE", internal.AppendUint16LE(slices.Clone(pre), uint16(v)), 2)
	eq("AppendUint24LE", internal.AppendUint24LE(slices.Clone(pre), uint32(v)&0xFFFFFF), 3)
	eq("AppendUint32LE", internal.AppendUint32LE(slices.Clone(pre), uint32(v)), 4)
	eq("AppendUint64LE", internal.AppendUint64LE(slices.Clone(pre), v), 8)
	enc := func(n int, fn func(b []byte)) {
		b := make([]byte, n+len(pre))
		fn(b)
		if !slices.Equal(b[:n], want[:n]) {
			t.Fatalf("encoding the low %d bytes of %#x: % x", n, v, b)
		}
	}
	enc(2, func(b []byte) { internal.EncodeUint16LE(b, uint16(v)) })
	enc(3, func(b []byte) { internal.EncodeUint24LE(b, uint32(v)&0xFFFFFF) })
	enc(4, func(b []byte) { internal.EncodeUint32LE(b, uint32(v)) })
	if d := internal.DecodeUint16LE(want); d != uint16(v) {
		t.Fatalf("DecodeUint16LE(% x) is %#x", want, d)
	}
	if d := internal.DecodeUint24LE(want); d != uint32(v)&0xFFFFFF {
		t.Fatalf("DecodeUint24LE(% x) is %#x", want, d)
	}
	if d := internal.DecodeUint32LE(want); d != uint32(v) {
		t.Fatalf("DecodeUint32LE(% x) is %#x", want, d)
	}
	if d := internal.DecodeUint64LE(want); d != v {
		t.Fatalf("DecodeUint64LE(% x) is %#x", want, d)
	}
	if y, m, d := internal.DecodeDate(want); y != uint16(v) || m != want[2] || d != want[3] {
		t.Fatalf("DecodeDate(% x) is %d %d %d", want, y, m, d)
	}
	str := make([]byte, t.Size(0, 300))
	for i := range str {
		str[i] = 'a' + byte(i%26)
	}
	if len(str) <= 255 {
		if got := internal.AppendShortString(slices.Clone(pre), string(str)); !slices.Equal(got, append(append(slices.Clone(pre), byte(len(str))), str...)) {
			t.Fatalf("AppendShortString of %d bytes: % x", len(str), got)
		}
	}
	if got := internal.AppendString(slices.Clone(pre), string(str)); !slices.Equal(got, append(append(slices.Clone(pre), byte(len(str)), byte(len(str)>>8)), str...)) {
		t.Fatalf("AppendString of %d bytes: % x", len(str), got)
	}
	if got, w := string(internal.AppendByteDigits(byte(v), slices.Clone(pre))), string(pre)+itoa(byte(v)); got != w {
		t.Fatalf("AppendByteDigits(%d): %q", byte(v), got)
	}
}

func itoa(v byte) string {
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + itoa(v%10)
}
