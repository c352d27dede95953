package builder

import (
	"bytes"
	"compress/gzip"
	"io"

	"github.com/tinne26/ggfnt"
)

// Symbolically, compression is replaced by the identity (compress/gzip is not
// the code under test); the native replay uses the real one.

var vGzSrc io.Reader
var vGzDst io.Writer
var vGzBuf []byte

func vStubGzipNewReader(r io.Reader) (*gzip.Reader, error) {
	vGzSrc = r
	return new(gzip.Reader), nil
}
func vStubGzipRead(z *gzip.Reader, p []byte) (int, error) { return vGzSrc.Read(p) }
func vStubGzipReaderClose(z *gzip.Reader) error           { return nil }
func vStubGzipMultistream(z *gzip.Reader, ok bool)        {}
func vStubGzipReset(z *gzip.Reader, r io.Reader) error    { vGzSrc = r; return nil }

// The writer keeps everything until it is flushed or closed.
func vStubGzipNewWriter(w io.Writer) *gzip.Writer {
	vGzDst, vGzBuf = w, nil
	return new(gzip.Writer)
}
func vStubGzipNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	return vStubGzipNewWriter(w), nil
}
func vStubGzipWrite(z *gzip.Writer, p []byte) (int, error) {
	vGzBuf = append(vGzBuf, p...)
	return len(p), nil
}
func vStubGzipFlush(z *gzip.Writer) error {
	_, err := vGzDst.Write(vGzBuf)
	vGzBuf = nil
	return err
}
func vStubGzipWriterClose(z *gzip.Writer) error { return vStubGzipFlush(z) }

// hBuf is a minimal writer and reader.
type hBuf struct {
	data []byte
	pos  int
}

func (b *hBuf) Write(p []byte) (int, error) {
	b.data = append(b.data, p...)
	return len(p), nil
}

func (b *hBuf) Read(p []byte) (int, error) {
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	n := copy(p, b.data[b.pos:])
	b.pos += n
	return n, nil
}

// hParse parses a font file with the given contents (what follows the
// signature, uncompressed).
func hParse(content []byte) (*ggfnt.Font, error) {
	return ggfnt.Parse(hFile(content))
}

func hFile(content []byte) *hBuf {
	file := &hBuf{}
	file.data = append(file.data, "tggfnt"...)
	if vSymbolic() {
		file.data = append(file.data, content...)
	} else {
		var out bytes.Buffer
		z := gzip.NewWriter(&out)
		z.Write(content)
		z.Close()
		file.data = append(file.data, out.Bytes()...)
	}
	return file
}

// hReparse exports a font and parses the result.
func hReparse(f *ggfnt.Font) (*ggfnt.Font, error) {
	file := &hBuf{}
	if err := f.Export(file); err != nil {
		return nil, err
	}
	return ggfnt.Parse(file)
}
