// maskprops decides the properties about mask encoding and rasterization.
package main

import (
	"bytes"
	"fmt"
	"image"

	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

func main() { pbt.Main(props) }

// genAnyMask generates masks of any shape, size and storage layout.
func genAnyMask(t *pbt.T) *image.Alpha {
	var img *image.Alpha
	switch t.Weighted(6, 3, 1, 1) {
	case 0: // small, around the origin
		img = fm.GenMask(t, -20, -20, 20, 20, 12)
	case 1: // small, anywhere
		x, y := t.Int(-400, 400), t.Int(-400, 400)
		img = fm.GenMask(t, x, y, x+30, y+30, 20)
	case 2: // few big or distant shapes
		img = image.NewAlpha(image.Rect(-t.Int(0, 300), -t.Int(0, 300), t.Int(0, 600), t.Int(0, 600)))
		b := img.Bounds()
		if b.Empty() {
			return img
		}
		for i, n := 0, t.Int(1, 4); i < n; i++ {
			v := uint8(255)
			if t.Bool() {
				v = uint8(t.Int(1, 255))
			}
			x, y := t.Int(b.Min.X, b.Max.X-1), t.Int(b.Min.Y, b.Max.Y-1)
			w, h := 1, 1
			switch t.Int(0, 3) {
			case 1:
				w = t.Int(1, 600)
			case 2:
				h = t.Int(1, 600)
			case 3:
				w, h = t.Int(1, 300), t.Int(1, 300)
			}
			diag := t.Int(0, 4)
			if diag == 1 || diag == 2 {
				l := max(w, h)
				for j := 0; j < l; j++ {
					yy := y + j
					if diag == 2 {
						yy = y - j
					}
					if image.Pt(x+j, yy).In(b) {
						img.Pix[img.PixOffset(x+j, yy)] = v
					}
				}
				continue
			}
			for yy := y; yy < min(y+h, b.Max.Y); yy++ {
				for xx := x; xx < min(x+w, b.Max.X); xx++ {
					img.Pix[img.PixOffset(xx, yy)] = v
				}
			}
		}
	case 3: // a handful of pixels, every connectivity
		w, h := t.Int(1, 5), t.Int(1, 5)
		x, y := t.Int(-3, 3), t.Int(-3, 3)
		img = image.NewAlpha(image.Rect(x, y, x+w, y+h))
		for i := range img.Pix {
			img.Pix[i] = []uint8{0, 255, 255, 7}[t.Int(0, 3)]
		}
	}
	if t.Choice(9999) >= 9985 { // as much data as a glyph can have, or more
		img = image.NewAlpha(image.Rect(0, 0, t.Int(40, 110), t.Int(40, 110)).Add(image.Pt(t.Int(-90, 10), t.Int(-90, 10))))
		p := fm.NewPrng(t)
		holes, levels := pbt.Pick(t, []int{2, 3, 10, 1 << 20}), pbt.Pick(t, []int{1, 2, 255})
		for i := range img.Pix {
			if p.N(holes) > 0 {
				img.Pix[i] = uint8(255 - p.N(levels))
			}
		}
		t.Label("big noise")
	}
	if t.Prob(25) { // same pixels as a part of a bigger, dirty image
		b := img.Bounds()
		big := image.NewAlpha(image.Rect(b.Min.X-t.Int(0, 3), b.Min.Y-t.Int(0, 3), b.Max.X+t.Int(0, 3), b.Max.Y+t.Int(0, 3)))
		for i := range big.Pix {
			big.Pix[i] = 200
		}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				big.SetAlpha(x, y, img.AlphaAt(x, y))
			}
		}
		t.Label("sub-image with its own stride")
		img = big.SubImage(b).(*image.Alpha)
	}
	return img
}

// genLongOps generates tens of thousands of well-formed raster operations
// that stay within 120 pixels from the origin.
func genLongOps(t *pbt.T) []op {
	p := fm.NewPrng(t)
	n := pbt.Pick(t, []int{t.Int(20, 2000), t.Int(8000, 12000), t.Int(15000, 40000)})
	most := pbt.Pick(t, []int{1, 3, 8}) // pixels per operation
	x, y := 0, 0
	move := func(at int, flip bool) int { // never 0
		d := 1 + p.N(6)
		if p.N(40) == 0 {
			d = 1 + p.N(100)
		}
		if flip || p.N(2) == 0 {
			d = -d
		}
		if at+d > 100 || at+d < -100 {
			d = -d
		}
		return d
	}
	enc := func(d int) byte { // skips 0
		if d > 0 {
			d--
		}
		return byte(int8(d))
	}
	var ops []op
	for i := 0; i < n; i++ {
		var o op
		if p.N(4) == 0 {
			o.ctrl |= 1
			o.payload = append(o.payload, uint8(1+p.N(255)))
		}
		if x > 80 || p.N(2) == 0 {
			d := move(x, x > 80)
			if x > 80 {
				d = -1 - p.N(127)
			}
			x += d
			o.ctrl |= 2
			o.payload = append(o.payload, enc(d))
		}
		if k := p.N(4); k == 0 || y >= 95 {
			d := move(y, y >= 95)
			y += d
			o.ctrl |= 4
			o.payload = append(o.payload, enc(d))
		} else if k == 1 {
			o.ctrl |= 8
			y++
		}
		w := 1 + p.N(most)
		switch p.N(6) {
		case 0:
			o.ctrl |= 0x80
			x++
		case 1:
			o.ctrl |= 0x20
			o.payload = append(o.payload, byte(w-1))
			x += w
		case 2:
			o.ctrl |= 0x40
			o.payload = append(o.payload, byte(w-1))
			x++
		case 3:
			o.ctrl |= 0x60
			o.payload = append(o.payload, byte(w-1), byte(p.N(most)))
			x += w
		case 4:
			o.ctrl |= 0x30
			o.payload = append(o.payload, byte(w-1))
			x += w
		case 5:
			o.ctrl |= 0x70
			o.payload = append(o.payload, byte(w-1))
			x += w
		}
		ops = append(ops, o)
	}
	return ops
}

func render(m *image.Alpha) []string {
	var out []string
	b := m.Bounds()
	for y := b.Min.Y; y < b.Max.Y && len(out) < 40; y++ {
		line := fmt.Sprintf("%4d: ", y)
		for x := b.Min.X; x < b.Max.X && x < b.Min.X+60; x++ {
			line += fmt.Sprintf("%02x ", m.AlphaAt(x, y).A)
		}
		out = append(out, line)
	}
	return out
}

// op is one raster operation.
type op struct {
	ctrl    byte
	payload []byte
}

// genOps generates raster operations: mostly well-formed, small moves.
func genOps(t *pbt.T) []op {
	n := t.Size(0, 20)
	var ops []op
	wild := t.Prob(15) // forbidden flag combinations allowed
	for i := 0; i < n; i++ {
		var o op
		val := func(small int) byte {
			if t.Prob(10) {
				return t.Byte()
			}
			v := t.Int(-small, small)
			return byte(int8(v))
		}
		if t.Prob(30) {
			o.ctrl |= 1
			o.payload = append(o.payload, uint8(1+t.Int(0, 254)))
		}
		if t.Bool() {
			o.ctrl |= 2
			o.payload = append(o.payload, val(6))
		}
		switch t.Int(0, 2) {
		case 1:
			o.ctrl |= 4
			o.payload = append(o.payload, val(6))
		case 2:
			o.ctrl |= 8
		}
		if wild && t.Prob(10) {
			o.ctrl |= 8
		}
		size := func() byte {
			if t.Prob(5) {
				return t.Byte()
			}
			return byte(t.Int(0, 5))
		}
		switch t.Int(0, 6) {
		case 0: // no draw
		case 1:
			o.ctrl |= 0x80
		case 2:
			o.ctrl |= 0x20
			o.payload = append(o.payload, size())
		case 3:
			o.ctrl |= 0x40
			o.payload = append(o.payload, size())
		case 4:
			o.ctrl |= 0x60
			o.payload = append(o.payload, size(), size())
		case 5:
			o.ctrl |= 0x30
			o.payload = append(o.payload, size())
		case 6:
			o.ctrl |= 0x70
			o.payload = append(o.payload, size())
		}
		if wild && t.Prob(15) {
			o.ctrl |= 0x80
		}
		if wild && t.Prob(10) {
			o.ctrl |= 0x10
		}
		ops = append(ops, o)
	}
	return ops
}

type pixels struct {
	at   map[image.Point]uint8
	rect image.Rectangle
}

// interpret is the specification of raster operations.
func interpret(data []byte) (p pixels, bad string) {
	p.at = map[image.Point]uint8{}
	x, y, color := 0, 0, uint8(255)
	i := 0
	draw := func(x, y int) {
		p.at[image.Pt(x, y)] = color
		p.rect = p.rect.Union(image.Rect(x, y, x+1, y+1))
	}
	for i < len(data) {
		ctrl := data[i]
		i++
		truncated := false
		next := func() int {
			if i >= len(data) {
				truncated = true
				return 0
			}
			i++
			return int(data[i-1])
		}
		nzint := func() int { // non-zero int8: -128..-1, 1..128
			v := next()
			if v >= 128 {
				return v - 256
			}
			return v + 1
		}
		if ctrl&1 != 0 {
			color = uint8(next())
		}
		if ctrl&2 != 0 {
			x += nzint()
		}
		if ctrl&4 != 0 {
			y += nzint()
			if ctrl&8 != 0 {
				return p, "row advance with vertical move"
			}
		}
		if ctrl&8 != 0 {
			y++
		}
		if ctrl&0x10 != 0 {
			if ctrl&0x80 != 0 {
				return p, "single pixel in diagonal mode"
			}
			if ctrl&0x20 == 0 {
				return p, "diagonal without length"
			}
			n := next() + 1
			if truncated {
				return p, "truncated"
			}
			for k := 0; k < n; k++ {
				if ctrl&0x40 != 0 {
					draw(x+k, y+n-1-k)
				} else {
					draw(x+k, y+k)
				}
			}
			x += n
			continue
		}
		if ctrl&0x80 != 0 && ctrl&0x60 != 0 {
			return p, "single pixel with draw sizes"
		}
		w, h := 0, 0
		if ctrl&0x20 != 0 {
			w, h = next()+1, 1
		}
		if ctrl&0x40 != 0 {
			h = next() + 1
			if w == 0 {
				w = 1
			}
		}
		if ctrl&0x80 != 0 {
			w, h = 1, 1
		}
		if truncated {
			return p, "truncated"
		}
		for dy := 0; dy < h; dy++ {
			for dx := 0; dx < w; dx++ {
				draw(x+dx, y+dy)
			}
		}
		x += w
	}
	return p, ""
}

var props = []*pbt.Prop{
	{
		ID: "P11", Quick: 120000, Deep: 1500000,
		Rule: "alpha masks (random, rectangles, lines, diagonals, several levels, distant and large shapes, off-origin, sub-images with their own stride) encoded by a reused encoder and rasterized again; pixels, bounding rectangle, appended prefix and the untouched input compared. Non-trivial: at least 4 non-zero pixels",
		Body: func(t *pbt.T) {
			var enc mask.Encoder
			var prev, prevImg *image.Alpha
			n := t.Int(1, 3) // the encoder is reused
			var masks []*image.Alpha
			if t.Choice(2999) == 2999 { // for a long time
				n = pbt.Pick(t, []int{20, 128, 256, 257, 300})
				t.Label("hundreds of masks in a row")
			}
			p := fm.NewPrng(t)
			for i := 0; i < n; i++ {
				var img *image.Alpha
				if len(masks) < 12 {
					img = genAnyMask(t)
					if n > 12 {
						masks = append(masks, img)
					}
				} else {
					img = masks[p.N(len(masks))]
				}
				if t.Verbose() {
					t.Logf("mask %v stride %d", img.Bounds(), img.Stride)
					for _, l := range render(img) {
						t.Logf("%s", l)
					}
				}
				ink := 0
				levels := map[uint8]bool{}
				b := img.Bounds()
				for y := b.Min.Y; y < b.Max.Y; y++ {
					for x := b.Min.X; x < b.Max.X; x++ {
						if v := img.AlphaAt(x, y).A; v != 0 {
							ink++
							levels[v] = true
						}
					}
				}
				t.NontrivialIf(ink >= 4)
				t.LabelIf(len(levels) > 1, "several alpha levels")
				tight := fm.TightRect(img)
				t.LabelIf(tight.Dx() > 128 || tight.Dy() > 128, "distances over 128 pixels")
				before := append([]uint8(nil), img.Pix...)

				var rect image.Rectangle
				t.NoPanic("ComputeRect", func() { rect = mask.ComputeRect(img) })
				if rect != tight && !(rect.Empty() && tight.Empty()) {
					t.Fatalf("ComputeRect gave %v, want %v", rect, tight)
				}
				prefix := []byte("pre")[:t.Int(0, 3)]
				var data []byte
				t.NoPanic("AppendRasterOps", func() { data = enc.AppendRasterOps(append(make([]byte, 0, 64), prefix...), img) })
				if !bytes.Equal(before, img.Pix) {
					t.Fatalf("encoding changed the mask")
				}
				if !bytes.HasPrefix(data, prefix) {
					t.Fatalf("AppendRasterOps changed the data it appends to")
				}
				data = data[len(prefix):]
				if tight.Empty() {
					if len(data) != 0 {
						t.Fatalf("empty mask encoded as % x", data)
					}
					t.Label("empty mask")
				}
				var got *image.Alpha
				var err error
				t.NoPanic("Rasterize", func() { got, err = mask.Rasterize(data) })
				if err != nil {
					t.Fatalf("Rasterize failed on encoded data % x: %v", clip(data), err)
				}
				if d := fm.MaskDiff(got, img); d != "" {
					t.Fatalf("round trip: %s (data % x)", d, clip(data))
				}
				if prev != nil {
					if d := fm.MaskDiff(prev, prevImg); d != "" {
						t.Fatalf("the mask rasterized before changed: %s", d)
					}
				}
				prev, prevImg = got, img
				if tight.Empty() {
					if got != nil && !got.Bounds().Empty() {
						t.Fatalf("an empty mask rasterizes with bounds %v", got.Bounds())
					}
				} else if got.Bounds() != tight {
					t.Fatalf("round trip bounds %v, want %v", got.Bounds(), tight)
				}
			}
		},
	},
	{
		ID: "P12", Quick: 1600000, Deep: 60000000,
		Rule: "sequences of 0-20 raster operations generated from the format's grammar (all flags, small and extreme moves and sizes), possibly with forbidden flag combinations, cut short at any byte, with bytes replaced, or entirely random; the rasterized pixels are compared with an interpreter of the specification. Non-trivial: at least 2 drawing operations",
		Body: func(t *pbt.T) {
			var data []byte
			var ops []op
			if t.Choice(99999) >= 99960 {
				ops = genLongOps(t)
				t.Label("long")
			} else {
				ops = genOps(t)
			}
			draws := 0
			for _, o := range ops {
				data = append(append(data, o.ctrl), o.payload...)
				if o.ctrl&0xF0 != 0 {
					draws++
				}
			}
			t.NontrivialIf(draws >= 2)
			switch t.Weighted(6, 2, 1, 1) {
			case 1:
				data = data[:t.Int(0, len(data))]
				t.Label("cut short")
			case 2:
				for i, n := 0, t.Int(0, 3); i < n && len(data) > 0; i++ {
					data[t.Int(0, len(data)-1)] = t.Byte()
				}
			case 3:
				data = data[:0]
				for i, n := 0, t.Int(0, 12); i < n; i++ {
					data = append(data, t.Byte())
				}
			}
			t.Logf("operations (%d bytes) % x", len(data), data[:min(len(data), 400)])
			before := append([]byte(nil), data...)
			data = data[:len(data):len(data)]
			want, bad := interpret(data)
			var got *image.Alpha
			var err error
			t.NoPanic("Rasterize", func() { got, err = mask.Rasterize(data) })
			if !bytes.Equal(before, data) {
				t.Fatalf("Rasterize changed its input")
			}
			if bad != "" {
				t.Label("malformed: " + bad)
				if err == nil {
					t.Fatalf("no error for malformed operations (%s): % x", bad, clip(data))
				}
				return
			}
			if err != nil {
				t.Fatalf("error on well-formed operations % x: %v", clip(data), err)
			}
			if len(want.at) == 0 {
				if got != nil && !got.Bounds().Empty() {
					t.Fatalf("operations % x draw nothing but give a mask with bounds %v", clip(data), got.Bounds())
				}
				return
			}
			if got == nil {
				t.Fatalf("operations % x give no mask, want %d pixels", clip(data), len(want.at))
			}
			if !want.rect.In(got.Bounds()) {
				t.Fatalf("mask bounds %v don't hold the drawn pixels %v (% x)", got.Bounds(), want.rect, clip(data))
			}
			if t.Prob(10) { // every mask is its own
				t.NoPanic("Rasterize", func() {
					other, err := mask.Rasterize(data)
					if err != nil || other == nil || other.Bounds() != got.Bounds() {
						t.Fatalf("operations % x give a mask once, and %v, %v later", clip(data), other, err)
					}
					for i := range other.Pix {
						other.Pix[i] ^= 0x5A
					}
				})
			}
			b := got.Bounds()
			inked := 0
			for y := b.Min.Y; y < b.Max.Y; y++ {
				row := got.Pix[(y-b.Min.Y)*got.Stride:]
				for x := b.Min.X; x < b.Max.X; x++ {
					v := row[x-b.Min.X]
					if v == 0 {
						continue
					}
					inked++
					if w := want.at[image.Pt(x, y)]; w != v {
						t.Fatalf("pixel (%d,%d) is %d, want %d (% x)", x, y, v, w, clip(data))
					}
				}
			}
			n := 0
			for _, v := range want.at {
				if v != 0 { // index zero is not a valid palette index
					n++
				}
			}
			if n != inked {
				t.Fatalf("%d pixels drawn, want %d (% x)", inked, n, clip(data))
			}
		},
	},
}

func clip(b []byte) []byte { return b[:min(len(b), 200)] }
