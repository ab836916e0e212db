package zzverif

import (
	"github.com/golang/snappy"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// legal is the table of the specification.
func legal(b []byte) bool {
	ver, typ := b[4]&15, b[4]>>4
	if b[0] != '=' || b[2] != 'r' || b[3] != 'l' {
		return false
	}
	switch ver {
	case 1, 2:
		if b[1] != 's' {
			return false
		}
	case 3, 4:
		if b[1] != 0xf3 {
			return false
		}
	default:
		return false
	}
	switch typ {
	case 0, 2:
		return true
	case 1:
		return ver == 1
	case 3:
		return ver >= 3
	case 4:
		return ver == 4
	}
	return false
}

// bodyFor is the string "ab" in the given document type.
func bodyFor(typ int) []byte {
	raw := []byte("\x62ab")
	switch typ {
	case 1:
		return snappy.Encode(nil, raw)
	case 2:
		z := snappy.Encode(nil, raw)
		return append([]byte{byte(len(z))}, z...)
	case 3:
		z := toyDeflate(raw)
		return append([]byte{3, byte(len(z))}, z...)
	}
	return raw
}

// accepted reports what each entry point says about a document.
func checkHeaders(doc []byte, typ int) {
	b := exact(doc)
	ok := legal(b)
	var out interface{}
	err := sereal.Unmarshal(b, &out)
	sym.Assert(ok || err != nil, "Unmarshal accepts an illegal header")
	sym.Assert(err != nil || sereal.LooksLikeSereal(b), "LooksLikeSereal refuses what Unmarshal accepts")
	mangled := b[0] == '=' && b[1] == 0xc3 && b[2] == 0xb3 && b[3] == 'r'
	sym.Assert(mangled == (err == sereal.ErrBadHeaderUTF8), "mangled magic not reported as such")
	var h interface{}
	err2 := sereal.NewDecoder().UnmarshalHeader(b, &h)
	sym.Assert(ok || err2 != nil, "UnmarshalHeader accepts an illegal header")
	_, err3 := sereal.DecompressDocument(nil, b)
	sym.Assert(ok || err3 != nil, "DecompressDocument accepts an illegal header")
	_, err4 := sereal.NewMerger().Append(b)
	sym.Assert(ok || err4 != nil, "Append accepts an illegal header")
	sym.Assert(!mangled || err2 == err && err3 == err && err4 == err, "mangled magic not reported as such")
	if ok && typ < 4 && int(b[4]>>4) == typ {
		sym.Assert(err == nil && err2 == nil && err3 == nil, "legal header refused")
		sym.Assert(err4 == nil || b[4]&15 == 4, "Append refuses a legal header")
		x, isBytes := out.([]byte)
		sym.Assert(isBytes && string(x) == "ab", "wrong value")
		sym.Reach("accepted")
		return
	}
	sym.Reach("other")
}

// C13_Magic: every first five bytes in front of a body of every type.
func C13_Magic() {
	typ := sym.Choose(4)
	b := append(sym.Bytes(5), 0)
	checkHeaders(append(b, bodyFor(typ)...), typ)
}

// C13_Type: every version and type byte, right and wrong magic.
func C13_Type() {
	typ := sym.Choose(5)
	m := []string{"=srl", "=\xf3rl", "=\xc3\xb3r", "=sr\x6d", "\xf3=rl", "lrs="}[sym.Choose(6)]
	b := append([]byte(m), sym.Byte())
	switch sym.Choose(3) {
	case 0:
		b = append(b, 0)
	case 1:
		b = append(b, 1, 0)
	case 2:
		b = append(b, 0x83, 0, 1, 0x61, sym.Byte())
	}
	checkHeaders(append(b, bodyFor(typ)...), typ)
}

// C13_Length: every header length of up to nine bytes.
func C13_Length() {
	ver := sym.UpTo(1, 4)
	n := sym.UpTo(1, 10)
	b := append(magic(ver), byte(ver))
	v := sym.Bytes(n)
	for i := range v {
		if i < n-1 {
			sym.Assume(v[i] >= 0x80)
		} else {
			sym.Assume(v[i] < 0x80)
		}
	}
	b = append(b, v...)
	rest := 12
	for i := 0; i < rest; i++ {
		b = append(b, 0)
	}
	var ln uint64
	for i := range v {
		ln |= uint64(v[i]&0x7f) << (7 * uint(i))
	}
	doc := exact(b)
	var out interface{}
	err := sereal.Unmarshal(doc, &out)
	sym.Assert((err == nil) == (ln < uint64(rest)), "header length and acceptance disagree")
	_, err = sereal.DecompressDocument(nil, doc)
	sym.Assert(err == nil || ln > uint64(rest), "DecompressDocument refuses a legal header")
	sym.Assert(err != nil || ln <= uint64(rest), "DecompressDocument accepts a header beyond the end")
	if ver < 4 {
		_, err = sereal.NewMerger().Append(doc)
		sym.Assert(err != nil || ln < uint64(rest), "Append accepts a header beyond the end")
	}
	sym.Reach("end")
}

// C13_Short: nothing shorter than a header and one tag is a document.
func C13_Short() {
	b := sym.Bytes(sym.UpTo(0, 6))
	var out interface{}
	sym.Assert(sereal.Unmarshal(b, &out) != nil, "Unmarshal accepts a stump")
	sym.Assert(!sereal.LooksLikeSereal(b), "LooksLikeSereal accepts a stump")
	_, err := sereal.NewMerger().Append(b)
	sym.Assert(err != nil, "Append accepts a stump")
	sym.Reach("end")
}
