// Package zlib: a toy codec with the interface of compress/zlib, used only
// while executing symbolically. Stream: 0x78 f, then operations: 0 end,
// 1..127 a literal run of that many bytes, 128+n the next byte repeated n+1
// times. f is any byte for which the real header check holds.
package zlib

import (
	"bufio"
	"errors"
	"io"
)

var (
	ErrChecksum   = errors.New("zlib: invalid checksum")
	ErrDictionary = errors.New("zlib: invalid dictionary")
	ErrHeader     = errors.New("zlib: invalid header")
)

type Resetter interface {
	Reset(r io.Reader, dict []byte) error
}

type reader struct {
	r    io.ByteReader
	err  error
	lit  int
	rep  int
	last byte
}

func NewReader(r io.Reader) (io.ReadCloser, error) { return NewReaderDict(r, nil) }

func NewReaderDict(r io.Reader, dict []byte) (io.ReadCloser, error) {
	z := new(reader)
	if err := z.Reset(r, dict); err != nil {
		return nil, err
	}
	return z, nil
}

func (z *reader) Reset(r io.Reader, dict []byte) error {
	br, ok := r.(io.ByteReader)
	if !ok {
		br = bufio.NewReader(r)
	}
	*z = reader{r: br}
	a, err := z.next()
	if err != nil {
		return err
	}
	b, err := z.next()
	if err != nil {
		return err
	}
	if a != 0x78 || b != 0x9c {
		return ErrHeader
	}
	return nil
}

func (z *reader) next() (byte, error) {
	b, err := z.r.ReadByte()
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return b, err
}

func (z *reader) Read(p []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	n := 0
	for n < len(p) {
		if z.rep > 0 {
			p[n] = z.last
			n++
			z.rep--
			continue
		}
		b, err := z.next()
		if err != nil {
			z.err = err
			return n, z.err
		}
		if z.lit > 0 {
			p[n] = b
			n++
			z.lit--
			continue
		}
		switch {
		case b == 0:
			z.err = io.EOF
			return n, z.err
		case b < 128:
			z.lit = int(b)
		default:
			z.rep = int(b) - 127
			z.last, err = z.next()
			if err != nil {
				z.err = err
				return n, z.err
			}
		}
	}
	return n, nil
}

func (z *reader) Close() error {
	if z.err != nil && z.err != io.EOF {
		return z.err
	}
	return nil
}
