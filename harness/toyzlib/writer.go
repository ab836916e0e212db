package zlib

import (
	"fmt"
	"io"
)

const (
	NoCompression      = 0
	BestSpeed          = 1
	BestCompression    = 9
	DefaultCompression = -1
	HuffmanOnly        = -2
)

type Writer struct {
	w     io.Writer
	level int
	buf   []byte
	err   error
}

func NewWriter(w io.Writer) *Writer {
	z, _ := NewWriterLevelDict(w, DefaultCompression, nil)
	return z
}

func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	return NewWriterLevelDict(w, level, nil)
}

func NewWriterLevelDict(w io.Writer, level int, dict []byte) (*Writer, error) {
	if level < HuffmanOnly || level > BestCompression {
		return nil, fmt.Errorf("zlib: invalid compression level: %d", level)
	}
	return &Writer{w: w, level: level}, nil
}

func (z *Writer) Reset(w io.Writer) {
	z.w = w
	z.buf = nil
	z.err = nil
}

func (z *Writer) Write(p []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	z.buf = append(z.buf, p...)
	return len(p), nil
}

func (z *Writer) Flush() error { return z.err }

// same reports whether two bytes are known to be equal (intrinsic: identical terms).
func same(a, b byte) bool { return a == b }

func (z *Writer) Close() error {
	if z.err != nil {
		return z.err
	}
	out := []byte{0x78, 0x9c}
	b := z.buf
	lit := 0
	flush := func(to int) {
		if lit > 0 {
			out = append(out, byte(lit))
			out = append(out, b[to-lit:to]...)
			lit = 0
		}
	}
	i := 0
	for i < len(b) {
		n := 1
		for i+n < len(b) && n < 128 && same(b[i], b[i+n]) {
			n++
		}
		if n >= 4 {
			flush(i)
			out = append(out, byte(127+n), b[i])
			i += n
			continue
		}
		i++
		lit++
		if lit == 127 {
			flush(i)
		}
	}
	flush(i)
	out = append(out, 0)
	_, z.err = z.w.Write(out)
	err := z.err
	if z.err == nil {
		z.err = io.EOF
	}
	return err
}
