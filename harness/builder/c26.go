package builder

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/tinne26/ggfnt"
)

func hSig() [][]byte { return [][]byte{[]byte("tggfnt")} }

// hFontData is the content of a font with some of everything, with any
// metrics: the parser refuses some of them.
func hFontData() []byte {
	data := append([]byte{}, hBuild(hEditBase().b).Data...)
	at := hMetricsAt(data)
	copy(data[at+2:], vBytes(13))
	return data
}

// hSame compares two outcomes of parsing.
func hSame(f *ggfnt.Font, err error, g *ggfnt.Font, err2 error) {
	vAssert((err == nil) == (err2 == nil), "acceptance depends on how a font is delivered")
	if err != nil {
		vReach("refused")
		return
	}
	vReach("accepted")
	vAssert(string(f.Data) == string(g.Data), "the data depends on how a font is delivered")
	hSameOffsets(f, g)
}

// A font with some of everything and any 13 bytes of metrics (the number of
// glyphs fixed), delivered in parts of 1 to 40 (thorough: 200) bytes or in any
// two parts (thorough: three), the end reported with the last part or after:
// the outcome is that of a delivery in one part.
//
//verif:reach accepted refused
func vhC26_Parts() {
	vMapOrder(1)
	data := hFontData()
	f, err := ggfnt.Parse(hStream(hSig(), [][]byte{data}, io.EOF, false))
	var parts [][]byte
	switch vPick(0, vBound(1, 2)) {
	case 0:
		parts = hSplit(data, vPick(1, vBound(40, 200)))
	case 1:
		k := vPick(0, len(data))
		parts = [][]byte{data[:k], data[k:]}
	case 2:
		k := vPick(1, len(data)-1)
		l := vPick(1, 6)
		if k+l > len(data) {
			vAssume(false)
		}
		parts = [][]byte{data[:k], data[k : k+l], data[k+l:]}
	}
	g, err2 := ggfnt.Parse(hStream(hSig(), parts, io.EOF, vPick(0, 1) == 1))
	hSame(f, err, g, err2)
}

// hLong is the content of a font of some thousand bytes, with names of some
// hundred glyphs.
func hLong() []byte {
	b := New()
	vAssert(b.SetAbout(string(make([]byte, 300))) == nil || b.SetAbout(hRepeat('x', 300)) == nil, "a valid text is refused")
	u := hGlyphs(b, 120)
	for i, x := range u {
		vAssert(b.SetGlyphName(x, "name-of-"+string([]byte{'a' + byte(i/26), 'a' + byte(i%26)})) == nil, "a valid name is refused")
		vAssert(b.Map(rune(1000+i*7), x) == nil, "a valid mapping is refused")
	}
	for i := 0; i < 100; i++ {
		b.SetKerningPair(u[i], u[i+1], 1)
	}
	return append([]byte{}, hBuild(b).Data...)
}

func hRepeat(c byte, n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = c
	}
	return string(s)
}

// A font of more than 4000 bytes, delivered in parts of up to 1100 bytes
// (quick: some sizes around 1, 512 and 1024 and some others) or in one part,
// the end reported with the last part or after: the outcome is the same.
//
//verif:reach accepted
//verif:steps 200000000
func vhC26_Long() {
	vMapOrder(1)
	data := hLong()
	vAssert(len(data) > 4000, "bad harness")
	data[len(data)-4] = vU8() // a kerning
	f, err := ggfnt.Parse(hStream(hSig(), [][]byte{data}, io.EOF, false))
	n := 0
	if vBound(0, 1) == 1 {
		n = vPick(1, 1100)
	} else {
		n = []int{1, 2, 3, 7, 100, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 5000}[vPick(0, 18)]
	}
	g, err2 := ggfnt.Parse(hStream(hSig(), hSplit(data, n), io.EOF, vPick(0, 1) == 1))
	hSame(f, err, g, err2)
	vAssert(err == nil && string(f.Data) == string(data), "wrong data")
}

// The content of a font with some of everything, cut at any byte, in one or two
// parts or byte by byte, ending with or without its last part: it is refused,
// whether the stream ends or fails there.
//
//verif:reach ended failed
func vhC26_Truncated() {
	vMapOrder(1)
	data := hBuild(hEditBase().b).Data
	k := vPick(0, len(data)-1)
	var parts [][]byte
	switch vPick(0, 2) {
	case 0:
		parts = [][]byte{data[:k]}
	case 1:
		parts = [][]byte{data[:k/2], data[k/2 : k]}
	case 2:
		parts = hSplit(data[:k], 1)
	}
	end := io.EOF
	if vPick(0, 1) == 1 {
		end = hErr
		vReach("failed")
	} else {
		vReach("ended")
	}
	_, err := ggfnt.Parse(hStream(hSig(), parts, end, vPick(0, 1) == 1))
	vAssert(err != nil, "a font cut short is accepted")
}

// A font with some of everything, whole, after which the stream fails or goes
// on for 1 to 3 bytes of any value or with a long tail, with any two parts
// around the end: it is refused.
//
//verif:reach failed longer
func vhC26_End() {
	vMapOrder(1)
	data := append([]byte{}, hBuild(hEditBase().b).Data...)
	size := len(data)
	n := vPick(0, 4)
	if n == 4 {
		data = append(data, make([]byte, 1500)...)
	} else {
		data = append(data, vBytes(n)...)
	}
	end := io.EOF
	if n == 0 || vPick(0, 1) == 1 {
		end = hErr
		vReach("failed")
	} else {
		vReach("longer")
	}
	var parts [][]byte
	if vPick(0, 1) == 0 {
		parts = hSplit(data, vPick(1, 3))
	} else {
		k := vPick(size-2, min(size+2, len(data)))
		parts = [][]byte{data[:k], data[k:]}
	}
	_, err := ggfnt.Parse(hStream(hSig(), parts, end, vPick(0, 1) == 1))
	vAssert(err != nil, "a font with more after its end, or without one, is accepted")
}

// Any six bytes as a signature, in up to three parts and with up to two empty
// reads, and signatures cut short or failing: exactly the signature is
// accepted.
//
//verif:reach accepted refused short
func vhC26_Signature() {
	vMapOrder(1)
	b := New()
	hGlyph(b, 1)
	data := hBuild(b).Data
	sig := vBytes(6)
	k := vPick(0, 6)
	l := vPick(k, 6)
	parts := [][]byte{sig[:k], sig[k:l], sig[l:]}
	if vPick(0, 1) == 1 {
		parts = [][]byte{sig[:k]}
		if k == 6 {
			vAssume(false)
		}
		end := []error{io.EOF, io.ErrUnexpectedEOF, hErr}[vPick(0, 2)]
		s := &hParts{parts: parts, end: end, last: vPick(0, 1) == 1}
		_, err := ggfnt.Parse(s)
		vAssert(err != nil, "a signature cut short is accepted")
		vReach("short")
		return
	}
	_, err := ggfnt.Parse(hStream(parts, [][]byte{data}, io.EOF, true))
	ok := string(sig) == "tggfnt"
	vAssert((err == nil) == ok, "wrong acceptance of a signature")
	if ok {
		vReach("accepted")
	} else {
		vReach("refused")
	}
}

// hFS is a file system with one file, with failures.
type hFS struct {
	src                     *hParts
	size                    int64
	open, stat, close       error
	opened, closed, readAll int
}

func (s *hFS) Open(name string) (fs.File, error) {
	if s.open != nil {
		return nil, s.open
	}
	vAssert(name == "dir/font.ggfnt", "another file is opened")
	s.opened++
	return s, nil
}

func (s *hFS) Stat() (fs.FileInfo, error) {
	if s.stat != nil {
		return nil, s.stat
	}
	return s, nil
}

func (s *hFS) Read(p []byte) (int, error) {
	vAssert(s.closed == 0, "a closed file is read")
	return s.src.Read(p)
}

func (s *hFS) Close() error {
	s.closed++
	return s.close
}

func (s *hFS) Name() string       { return "font.ggfnt" }
func (s *hFS) Size() int64        { return s.size }
func (s *hFS) Mode() fs.FileMode  { return 0 }
func (s *hFS) ModTime() time.Time { return time.Time{} }
func (s *hFS) IsDir() bool        { return false }
func (s *hFS) Sys() any           { return nil }

// A font in a file system, which may fail to open it, to tell its size, to read
// it at some point or to close it, with any declared size: the outcome is an
// error exactly if something fails or the size exceeds the limit, and an opened
// file is always closed.
//
//verif:reach ok error
func vhC26_FromFS() {
	vMapOrder(1)
	b := New()
	hGlyph(b, 1)
	data := hBuild(b).Data
	s := &hFS{size: int64(vU64())}
	vAssume(s.size >= 0)
	end := io.EOF
	k := len(data)
	if vBool() {
		s.open = errors.New("open error")
	}
	if vBool() {
		s.stat = errors.New("stat error")
	}
	if vBool() {
		s.close = errors.New("close error")
	}
	switch vPick(0, 2) {
	case 1:
		end = hErr
	case 2:
		k = vPick(0, 3) * (k - 1) / 3
	}
	s.src = hStream(hSig(), [][]byte{data[:k]}, end, false)
	f, err := ggfnt.ParseFromFS(s, "dir/font.ggfnt")
	good := s.open == nil && s.stat == nil && s.close == nil && k == len(data) && end == io.EOF && s.size <= ggfnt.MaxFontDataSize
	vAssert((err == nil) == good, "wrong outcome of parsing a file")
	vAssert(s.opened == 0 || s.closed > 0, "a file is left open")
	if good {
		vReach("ok")
		vAssert(string(f.Data) == string(data), "wrong data")
	} else {
		vReach("error")
	}
}
