package builder

import (
	"bytes"
	"compress/gzip"
	"errors"
)

// hParts delivers given parts, one per read at most (empty ones as empty
// reads), and then an end, which may come together with the last part.
type hParts struct {
	parts [][]byte
	end   error
	last  bool
}

func (s *hParts) Read(p []byte) (int, error) {
	if len(s.parts) == 0 {
		return 0, s.end
	}
	n := copy(p, s.parts[0])
	if n < len(s.parts[0]) {
		s.parts[0] = s.parts[0][n:]
		return n, nil
	}
	s.parts = s.parts[1:]
	if len(s.parts) == 0 && s.last {
		return n, s.end
	}
	return n, nil
}

var hErr = errors.New("read error")

// hStream gives a reader for a font file whose signature comes in some parts
// and whose content is decompressed in some others. Natively, each part of the
// content is a gzip member, which is what makes the decompressor deliver them
// one by one.
func hStream(sig, parts [][]byte, end error, last bool) *hParts {
	s := &hParts{end: end, last: last}
	s.parts = append(s.parts, sig...)
	if vSymbolic() {
		s.parts = append(s.parts, parts...)
		return s
	}
	var out bytes.Buffer
	if !last {
		parts = append(append([][]byte{}, parts...), []byte{})
	}
	for _, p := range parts {
		z := gzip.NewWriter(&out)
		z.Write(p)
		z.Close()
	}
	s.parts = append(s.parts, out.Bytes())
	return s
}

// hSplit cuts data in parts of n bytes.
func hSplit(data []byte, n int) [][]byte {
	var parts [][]byte
	for len(data) > n {
		parts = append(parts, data[:n])
		data = data[n:]
	}
	return append(parts, data)
}
