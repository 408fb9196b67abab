// parseprops decides the properties about parsing arbitrary and damaged data.
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/zzverif/fm"
	"github.com/tinne26/ggfnt/zzverif/pbt"
)

func main() { pbt.Main(props) }

var focuses = []string{"", "header", "color", "glyphs", "settings", "mapping", "conditions", "rewrites", "kerning"}

func genRaw(t *pbt.T) ([]byte, []fm.Section) {
	if t.Choice(999) >= 985 {
		t.Label("tens of thousands of elements")
		m := fm.GenFont(t, fm.Opt{Focus: "settings"})
		fm.Jumbo(t, m, fm.Opt{}, pbt.Pick(t, []string{"glyphs", "mapping", "kerning", "rewrites", "conditions"}))
		return fm.Encode(t, m)
	}
	m := fm.GenFont(t, fm.Opt{Focus: pbt.Pick(t, focuses)})
	raw, secs := fm.Encode(t, m)
	if t.Choice(999) >= 970 {
		raw, secs = roundSize(t, raw, secs)
	}
	return raw, secs
}

// roundSize extends the description so that the data ends right where the
// buffers of the parser (1KiB) or of the decompressor (32KiB) do, or nearby.
func roundSize(t *pbt.T, raw []byte, secs []fm.Section) ([]byte, []fm.Section) {
	at := 28
	for i := 0; i < 3; i++ {
		at += 1 + int(raw[at])
	}
	n := int(raw[at]) | int(raw[at+1])<<8
	unit := pbt.Pick(t, []int{1024, 32768})
	add := (unit-len(raw)%unit)%unit + pbt.Pick(t, []int{0, 0, 0, -1, 1})
	if add < 0 || n+add > 65535 {
		return raw, secs
	}
	t.Label("round size")
	out := append([]byte(nil), raw[:at]...)
	out = append(out, byte(n+add), byte((n+add)>>8))
	out = append(out, raw[at+2:at+2+n]...)
	out = append(out, bytes.Repeat([]byte{'x'}, add)...)
	out = append(out, raw[at+2+n:]...)
	secs = append([]fm.Section(nil), secs...)
	for i := range secs {
		if secs[i].At >= at+2 {
			secs[i].At += add
		}
	}
	return out, secs
}

var interesting = []byte{0, 1, 2, 127, 128, 254, 255}

// mutate damages uncompressed font data, mostly at section starts, where the
// counts and end offsets are.
func mutate(t *pbt.T, raw []byte, secs []fm.Section) []byte {
	raw = append([]byte(nil), raw...)
	for i, n := 0, t.Int(1, 4); i < n && len(raw) > 0; i++ {
		at := t.Int(0, len(raw)-1)
		if s := pbt.Pick(t, secs); t.Prob(70) && s.At < len(raw) {
			at = min(len(raw)-1, s.At+t.Size(0, 40))
		}
		switch t.Weighted(4, 2, 1, 1, 1, 1) {
		case 0:
			raw[at] = pbt.Pick(t, interesting)
		case 1:
			raw[at] += byte(t.Int(1, 2)*2 - 3) // one more or one less
		case 2:
			raw[at] = t.Byte()
		case 3: // delete
			n := min(len(raw)-at, t.Size(1, 40))
			raw = append(raw[:at], raw[at+n:]...)
		case 4: // insert
			ins := make([]byte, t.Size(1, 40))
			if t.Bool() {
				for j := range ins {
					ins[j] = t.Byte()
				}
			}
			raw = append(raw[:at], append(ins, raw[at:]...)...)
		case 5: // cut
			raw = raw[:at]
		}
	}
	return raw
}

// outcome of parsing: the font data, or nil on errors.
func outcome(t *pbt.T, r io.Reader) ([]byte, *ggfnt.Font, error) {
	var f *ggfnt.Font
	var err error
	t.NoPanic("Parse", func() { f, err = ggfnt.Parse(r) })
	if err != nil {
		return nil, nil, err
	}
	if f == nil {
		t.Fatalf("Parse returned neither a font nor an error")
	}
	raw, uerr := fm.Unwrap(fm.Export(t, f))
	if uerr != nil {
		t.Fatalf("exported stream is broken: %v", uerr)
	}
	return raw, f, nil
}

// checkAny parses a file in two ways and checks that the results agree.
func checkAny(t *pbt.T, file []byte) bool {
	a, f, errA := outcome(t, fm.GenReader(t, file))
	b, _, errB := outcome(t, bytes.NewReader(file))
	if (errA == nil) != (errB == nil) {
		t.Fatalf("outcome depends on the reader: %v vs %v", errA, errB)
	}
	if errA != nil {
		t.Label("rejected")
		return false
	}
	t.Label("accepted")
	if !bytes.Equal(a, b) {
		t.Fatalf("font data depends on the reader")
	}
	if in, err := fm.Unwrap(file); err != nil || !bytes.Equal(in, a) {
		t.Fatalf("the accepted font's data is not the file's (err %v)", err)
	}
	if f.RawSize() != len(a) {
		t.Fatalf("RawSize is %d, the data has %d bytes", f.RawSize(), len(a))
	}
	var err error
	t.NoPanic("Validate", func() { err = f.Validate(ggfnt.FmtDefault) })
	if err != nil {
		t.Fatalf("accepted font does not validate: %v", err)
	}
	c, _, err := outcome(t, bytes.NewReader(fm.Export(t, f)))
	if err != nil {
		t.Fatalf("accepted font does not parse after exporting it: %v", err)
	}
	if !bytes.Equal(a, c) {
		t.Fatalf("exporting and parsing an accepted font changes its data")
	}
	return true
}

// --- huge fonts ---

var hugeBase []byte // up to the horizontal kerning count, for 3000 glyphs
const hugeGlyphs = 3000

func hugePrefix() []byte {
	if hugeBase != nil {
		return hugeBase
	}
	m := &fm.Font{ID: 0x1B1B1B1B1B1B1B1B, Name: "n", M: fm.Metrics{Ascent: 9, Descent: 5, UppercaseAscent: 9, MidlineAscent: 5}}
	for i := 0; i < hugeGlyphs; i++ {
		m.Glyphs = append(m.Glyphs, fm.Glyph{})
	}
	raw, _ := fm.Encode(nil, m)
	hugeBase = raw[:len(raw)-6]
	return hugeBase
}

// hugeRaw is a font with n horizontal kerning pairs.
func hugeRaw(n int) []byte {
	raw := append([]byte(nil), hugePrefix()...)
	raw = append(raw, byte(n), byte(n>>8), byte(n>>16))
	at := len(raw)
	raw = append(raw, make([]byte, n*5+3)...)
	for i := 0; i < n; i++ {
		p := uint32(i/hugeGlyphs)<<16 | uint32(i%hugeGlyphs)
		raw[at], raw[at+1], raw[at+2], raw[at+3] = byte(p), byte(p>>8), byte(p>>16), byte(p>>24)
		at += 4
	}
	for i := 0; i < n; i++ {
		raw[at+i] = 1
	}
	return raw
}

// endless delivers a signature and a never-ending gzip stream that starts
// with the given data and goes on with zeros, counting what is taken.
type endless struct {
	head  []byte
	data  []byte
	taken int
	limit int
}

func newEndless(data []byte, limit int) *endless {
	return &endless{head: append([]byte("tggfnt"), 0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255), data: data, limit: limit}
}

func (e *endless) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(e.head) == 0 {
		if e.taken > e.limit {
			return 0, errors.New("limit")
		}
		const n = 40000 // a stored block
		block := make([]byte, n)
		k := copy(block, e.data)
		e.data = e.data[k:]
		e.head = append([]byte{0, n & 255, n >> 8, ^byte(n & 255), ^byte(n >> 8)}, block...)
	}
	n := copy(p, e.head)
	e.head = e.head[n:]
	e.taken += n
	return n, nil
}

// --- file systems ---

type memFS struct {
	data    []byte
	statErr error
	size    int64
	readErr bool
	opened  int
	closed  int
}

func (m *memFS) Open(name string) (fs.File, error) {
	if name != "font.ggfnt" {
		return nil, fs.ErrNotExist
	}
	m.opened++
	r := &fm.Reader{Data: m.data}
	if m.readErr {
		r.Err, r.ErrAt = errors.New("read failed"), len(m.data)/2
	}
	return &memFile{m, r}, nil
}

type memFile struct {
	m *memFS
	r *fm.Reader
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.m.statErr != nil {
		return nil, f.m.statErr
	}
	return memInfo{f.m.size}, nil
}
func (f *memFile) Read(p []byte) (int, error) { return f.r.Read(p) }
func (f *memFile) Close() error               { f.m.closed++; return nil }

type memInfo struct{ size int64 }

func (i memInfo) Name() string       { return "font.ggfnt" }
func (i memInfo) Size() int64        { return i.size }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

func checkFS(t *pbt.T, file []byte) {
	m := &memFS{data: file, size: int64(len(file))}
	mustFail := true
	switch t.Int(0, 3) {
	case 0:
		mustFail = false
	case 1:
		m.statErr = errors.New("stat failed")
	case 2:
		m.size = ggfnt.MaxFontDataSize + 1
	case 3:
		m.readErr = true
	}
	want, _, wantErr := outcome(t, bytes.NewReader(file))
	var f *ggfnt.Font
	var err error
	t.NoPanic("ParseFromFS", func() { f, err = ggfnt.ParseFromFS(m, "font.ggfnt") })
	if mustFail && err == nil {
		t.Fatalf("ParseFromFS returned a font despite an error of the file system")
	}
	if !mustFail && (err == nil) != (wantErr == nil) {
		t.Fatalf("ParseFromFS: %v, Parse: %v", err, wantErr)
	}
	if err == nil {
		if got, _ := fm.Unwrap(fm.Export(t, f)); !bytes.Equal(got, want) {
			t.Fatalf("ParseFromFS gives a different font than Parse")
		}
	}
	if m.opened != 1 || m.closed != 1 {
		t.Fatalf("ParseFromFS opened %d files and closed %d (error %v)", m.opened, m.closed, err)
	}
	if _, err := ggfnt.ParseFromFS(m, "other"); err == nil {
		t.Fatalf("ParseFromFS of a missing file gives no error")
	}
}

// padded returns a file of the given size with the font data: behind the
// gzip header come as many empty blocks as needed.
func padded(raw []byte, size int) []byte {
	file := fm.WrapSig("tggfnt", raw, gzip.BestSpeed)
	const head = 6 + 10
	pad := size - len(file)
	name := pad % 5
	if name == 0 {
		name = 5
	}
	out := make([]byte, 0, size)
	out = append(out, file[:head]...)
	out[6+3] |= 8 // with a name
	for i := 1; i < name; i++ {
		out = append(out, 'n')
	}
	out = append(out, 0)
	for len(out) < head+pad {
		out = append(out, 0, 0, 0, 255, 255)
	}
	return append(out, file[head:]...)
}

// checkSize checks the file size limit of file systems with a real file.
func checkSize(t *pbt.T) {
	raw, _ := genRaw(t)
	size := ggfnt.MaxFontDataSize - t.Size(0, 5000000)
	over := t.Prob(30)
	if over {
		size = ggfnt.MaxFontDataSize + t.Size(1, 1000000)
	}
	file := padded(raw, size)
	if got, err := fm.Unwrap(file); err != nil || !bytes.Equal(got, raw) || len(file) != size {
		panic("wrong padding")
	}
	m := &memFS{data: file, size: int64(size)}
	t.Logf("file of %d bytes for %d bytes of data", size, len(raw))
	var f *ggfnt.Font
	var err error
	t.NoPanic("ParseFromFS", func() { f, err = ggfnt.ParseFromFS(m, "font.ggfnt") })
	if over && err == nil {
		t.Fatalf("ParseFromFS accepted a file of %d bytes", size)
	}
	if !over && err != nil {
		t.Fatalf("ParseFromFS refused a file of %d bytes: %v", size, err)
	}
	if err == nil {
		if got, _ := fm.Unwrap(fm.Export(t, f)); !bytes.Equal(got, raw) {
			t.Fatalf("ParseFromFS gives other data than the file's")
		}
	}
	if m.opened != 1 || m.closed != 1 {
		t.Fatalf("ParseFromFS opened %d files and closed %d (error %v)", m.opened, m.closed, err)
	}
}

// openFiles counts the open descriptors of a file.
func openFiles(path string) (n int) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && to == path {
			n++
		}
	}
	return n
}

func checkPath(t *pbt.T, file []byte) {
	dir, err := os.MkdirTemp("", "ggfntparse")
	if err != nil {
		t.Discard()
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "font.ggfnt")
	if os.WriteFile(path, file, 0o600) != nil {
		t.Discard()
	}
	want, _, wantErr := outcome(t, bytes.NewReader(file))
	var f *ggfnt.Font
	t.NoPanic("ParseFromPath", func() { f, err = ggfnt.ParseFromPath(path) })
	if openFiles(path) > 0 {
		t.Fatalf("ParseFromPath leaves the file open (error %v)", err)
	}
	if (err == nil) != (wantErr == nil) {
		t.Fatalf("ParseFromPath: %v, Parse: %v", err, wantErr)
	}
	if err == nil {
		if got, _ := fm.Unwrap(fm.Export(t, f)); !bytes.Equal(got, want) {
			t.Fatalf("ParseFromPath gives a different font than Parse")
		}
	}
	if _, err := ggfnt.ParseFromPath(filepath.Join(dir, "missing")); err == nil {
		t.Fatalf("ParseFromPath of a missing file gives no error")
	}
}

var errIO = errors.New("injected I/O error")

var props = []*pbt.Prop{
	{
		ID: "P09", Quick: 60000, Deep: 1500000,
		Rule: "valid fonts encoded from the specification (some with tens of thousands of elements), the same with 1-4 mutations of the uncompressed data (interesting values, off-by-one counts and offsets, insertions, deletions, cuts, mostly near section starts), two fonts spliced at section starts, random data behind a valid stream, random files, fonts around the 32MiB limit and endless streams; parsed through two readers, from file systems (also files at and beyond the size limit) and from paths; accepted fonts are exported and parsed back. Non-trivial: mutated or spliced data",
		Body: func(t *pbt.T) {
			kind := t.Weighted(2500, 300, 100, 400, 100, 50, 5, 1, 1, 1)
			switch kind {
			case 0, 3, 4: // mutated data
				t.Nontrivial()
				raw, secs := genRaw(t)
				if kind == 0 {
					raw = mutate(t, raw, secs)
				}
				t.Logf("raw data (%d bytes): % x", len(raw), raw[:min(len(raw), 2000)])
				file := fm.WrapSig("tggfnt", raw, gzip.BestSpeed)
				switch kind {
				case 0:
					t.Label("mutated")
					checkAny(t, file)
				case 3:
					t.Label("valid")
					if !checkAny(t, file) {
						t.Fatalf("Parse rejected a valid font")
					}
				case 4:
					t.Label("file systems")
					checkFS(t, file)
				}
			case 1: // spliced fonts
				t.Nontrivial()
				t.Label("spliced")
				a, sa := genRaw(t)
				b, sb := genRaw(t)
				i := t.Int(0, min(len(sa), len(sb))-1)
				raw := append(append([]byte(nil), a[:sa[i].At]...), b[sb[i].At:]...)
				checkAny(t, fm.WrapSig("tggfnt", raw, gzip.BestSpeed))
			case 2: // random data
				t.Label("random")
				raw := make([]byte, t.Size(0, 300))
				for i := range raw {
					raw[i] = t.Byte()
				}
				if t.Bool() { // behind a valid beginning
					good, secs := genRaw(t)
					raw = append(append([]byte(nil), good[:pbt.Pick(t, secs).At]...), raw...)
				}
				switch t.Int(0, 2) {
				case 0:
					checkAny(t, fm.WrapSig("tggfnt", raw, gzip.BestSpeed))
				case 1:
					if _, _, err := outcome(t, bytes.NewReader(raw)); err == nil {
						t.Label("random bytes accepted")
					}
				case 2:
					if _, _, err := outcome(t, bytes.NewReader(append([]byte("tggfnt"), raw...))); err == nil {
						t.Label("random bytes accepted")
					}
				}
			case 5:
				t.Label("paths")
				raw, secs := genRaw(t)
				if t.Bool() {
					raw = mutate(t, raw, secs)
				}
				checkPath(t, fm.WrapSig("tggfnt", raw, gzip.BestSpeed))
			case 6: // compressed streams that are damaged
				raw, _ := genRaw(t)
				file := fm.Wrap(raw)
				for i, n := 0, t.Int(1, 3); i < n; i++ {
					file[t.Int(0, len(file)-1)] ^= 1 << t.Int(0, 7)
				}
				checkDamaged(t, file, raw)
			case 9: // file sizes
				t.Label("files around 32MiB")
				checkSize(t)
			case 7: // around the size limit
				t.Label("around the 32MiB limit")
				over := t.Bool()
				n := (ggfnt.MaxFontDataSize - len(hugePrefix()) - 6) / 5
				if over {
					n += t.Int(1, 20)
				} else {
					n -= t.Int(0, 20)
				}
				raw := hugeRaw(n)
				_, err := func() (*ggfnt.Font, error) {
					var f *ggfnt.Font
					var err error
					t.NoPanic("Parse", func() { f, err = ggfnt.Parse(bytes.NewReader(fm.WrapSig("tggfnt", raw, gzip.NoCompression))) })
					return f, err
				}()
				if over && err == nil {
					t.Fatalf("Parse accepted %d bytes of font data", len(raw))
				}
				if !over && err != nil {
					t.Fatalf("Parse rejected a font with %d bytes of data: %v", len(raw), err)
				}
			case 8: // never-ending streams
				t.Label("endless stream")
				var data []byte
				switch t.Int(0, 2) {
				case 0: // the declared size exceeds the limit
					data = append([]byte(nil), hugePrefix()...)
					n := hugeGlyphs * hugeGlyphs
					data = append(data, byte(n), byte(n>>8), byte(n>>16))
				case 1: // a complete font, followed by zeros
					data, _ = genRaw(t)
				case 2:
				}
				e := newEndless(data, 48<<20)
				if _, _, err := outcome(t, e); err == nil {
					t.Fatalf("Parse returned a font from an endless stream")
				}
				if e.taken > 40<<20 {
					t.Fatalf("Parse read %d bytes from an endless stream", e.taken)
				}
			}
		},
	},
	{
		ID: "P10", Quick: 20000, Deep: 800000,
		Rule: "valid fonts encoded from the specification (some with tens of thousands of elements): cut at generated points of the file and of the uncompressed data (section starts, their neighbours, anywhere), extended with data, a byte of the file changed, an I/O error injected at any point including the end; each must be rejected (a changed byte may also be one that carries no font data, then the font must be unchanged). Non-trivial: every case",
		Body: func(t *pbt.T) {
			t.Nontrivial()
			raw, secs := genRaw(t)
			file := fm.Wrap(raw)
			reject := func(what string, r io.Reader) {
				if _, _, err := outcome(t, r); err == nil {
					t.Fatalf("Parse accepted a font %s", what)
				}
			}
			if _, _, err := outcome(t, bytes.NewReader(file)); err != nil {
				t.Fatalf("Parse rejected the undamaged font: %v", err)
			}
			for i, n := 0, 4+t.Int(0, 8); i < n; i++ {
				switch t.Weighted(3, 6, 3, 2, 4, 4) {
				case 0:
					t.Label("file cut")
					at := t.Int(0, len(file)-1)
					if t.Bool() {
						at = len(file) - 1 - t.Int(0, min(len(file)-1, 12))
					}
					t.Logf("file cut to %d of %d bytes", at, len(file))
					reject("cut short", fm.GenReader(t, file[:at]))
				case 1:
					t.Label("data cut")
					at := cutPoint(t, raw, secs)
					t.Logf("data cut to %d of %d bytes", at, len(raw))
					reject("with missing data", fm.GenReader(t, fm.WrapSig("tggfnt", raw[:at], gzip.BestSpeed)))
				case 2:
					t.Label("data extended")
					more := append([]byte(nil), raw...)
					for j, k := 0, t.Size(1, 1500); j < k; j++ {
						more = append(more, byte(j*t0(t, j)))
					}
					t.Logf("%d bytes appended to %d", len(more)-len(raw), len(raw))
					reject("with additional data", fm.GenReader(t, fm.WrapSig("tggfnt", more, gzip.BestSpeed)))
				case 3:
					t.Label("file extended")
					more := append([]byte(nil), file...)
					if t.Bool() { // another stream with more data
						more = append(more, fm.WrapSig("", raw[:t.Int(1, len(raw))], gzip.BestSpeed)...)
					} else {
						for j, k := 0, t.Int(1, 30); j < k; j++ {
							more = append(more, byte(j*t0(t, j)))
						}
					}
					t.Logf("%d bytes appended to the file", len(more)-len(file))
					reject("with data behind its end", fm.GenReader(t, more))
				case 4:
					t.Label("byte changed")
					bad := append([]byte(nil), file...)
					at := t.Int(0, len(file)-1)
					switch t.Int(0, 3) {
					case 0:
						at = t.Int(0, 8)
					case 1:
						at = len(file) - 1 - t.Int(0, 7)
					}
					bad[at] ^= byte(1 + t.Int(0, 254))
					t.Logf("byte %d of %d changed", at, len(file))
					if at < 9 || at >= len(file)-8 {
						reject("with a damaged signature or checksum", fm.GenReader(t, bad))
					} else {
						checkDamaged(t, bad, raw)
					}
				case 5:
					t.Label("I/O error")
					r := fm.GenReader(t, file)
					r.EOFWith = false
					r.Err, r.ErrAt = errIO, t.Int(0, len(file))
					if t.Prob(20) {
						r.ErrAt = len(file)
					}
					t.Logf("I/O error at %d of %d", r.ErrAt, len(file))
					reject("despite an I/O error", r)
				}
			}
		},
	},
}

func t0(t *pbt.T, j int) int {
	if j < 4 {
		return t.Int(0, 3)
	}
	return 1
}

// checkDamaged: damage to the compressed file either makes it rejected or
// leaves the font data as it was.
func checkDamaged(t *pbt.T, bad, raw []byte) {
	got, _, err := outcome(t, fm.GenReader(t, bad))
	if err != nil {
		return
	}
	t.Label("damage without effect on the data")
	if !bytes.Equal(got, raw) {
		t.Fatalf("Parse accepted a damaged file with different font data")
	}
}

func cutPoint(t *pbt.T, raw []byte, secs []fm.Section) int {
	if t.Bool() {
		at := pbt.Pick(t, secs).At + t.Int(-4, 12)
		return max(0, min(at, len(raw)-1))
	}
	if t.Bool() {
		return len(raw) - 1 - t.Int(0, min(len(raw)-1, 20))
	}
	return t.Int(0, len(raw)-1)
}
