// Package zstd: a toy codec with the interface of DataDog/zstd, used only while
// executing symbolically. Frame: the real magic, then operations: 0 end, 1..127 a
// literal run of that many bytes, 128+n the next byte repeated n+1 times.
package zstd

import "errors"

const (
	BestSpeed          = 1
	BestCompression    = 20
	DefaultCompression = 5
)

var (
	ErrEmptySlice = errors.New("Bytes slice is empty")
	errFrame      = errors.New("Src size is incorrect")
	magic         = [4]byte{0x28, 0xb5, 0x2f, 0xfd}
)

func CompressBound(n int) int { return 2*n + 5 }

func Compress(dst, src []byte) ([]byte, error) { return CompressLevel(dst, src, DefaultCompression) }

// same reports whether two bytes are known to be equal (intrinsic: identical terms).
func same(a, b byte) bool { return a == b }

func CompressLevel(dst, src []byte, level int) ([]byte, error) {
	out := append(make([]byte, 0, CompressBound(len(src))), magic[:]...)
	for i := 0; i < len(src); {
		n := 1
		for i+n < len(src) && n < 128 && same(src[i], src[i+n]) {
			n++
		}
		out = append(out, byte(127+n), src[i])
		i += n
	}
	out = append(out, 0)
	if cap(dst) >= len(out) {
		dst = dst[:len(out)]
		copy(dst, out)
		return dst, nil
	}
	return out, nil
}

func Decompress(dst, src []byte) ([]byte, error) {
	if len(src) == 0 {
		return []byte{}, ErrEmptySlice
	}
	if len(src) < 4 || src[0] != magic[0] || src[1] != magic[1] || src[2] != magic[2] || src[3] != magic[3] {
		return nil, errFrame
	}
	src = src[4:]
	var out []byte
	for {
		if len(src) == 0 {
			return nil, errFrame
		}
		op := src[0]
		src = src[1:]
		switch {
		case op == 0:
			if len(src) != 0 {
				return nil, errFrame
			}
			// as the real one: the whole capacity of dst is written to
			if cap(dst) >= len(out) {
				dst = dst[:cap(dst)]
				for i := len(out); i < len(dst); i++ {
					dst[i] = 0xaa
				}
				copy(dst, out)
				return dst[:len(out)], nil
			}
			if out == nil {
				out = []byte{}
			}
			return out, nil
		case op < 128:
			if len(src) < int(op) {
				return nil, errFrame
			}
			out = append(out, src[:op]...)
			src = src[op:]
		default:
			if len(src) == 0 {
				return nil, errFrame
			}
			for i := 0; i <= int(op)-128; i++ {
				out = append(out, src[0])
			}
			src = src[1:]
		}
	}
}
