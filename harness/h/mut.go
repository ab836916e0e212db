package zzverif

import "github.com/Sereal/Sereal/Go/sereal/zzverif/sym"

// richDocs are bodies that use every tag and every relation between items;
// offsets are those of version 2.
var richDocs = []string{
	// scalars
	"\x2b\x0c\x01\x1f\x20\xac\x02\x21\x83\x01\x22\x00\x00\x80\x3f\x23\x00\x00\x00\x00\x00\x00\xf0\x3f\x25\x39\x3a\x3b\x26\x02ab\x27\x02\xc3\xa9",
	// an object and another of its class
	"\x42\x2c\x63Foo\x52\x61a\x01\x61b\x42\x02\x03\x2d\x03\x51\x2f\x08\x04",
	// frozen objects
	"\x43\x32\x62Fz\x28\x2b\x01\x63xyz\x33\x03\x28\x2b\x01\x26\x01p\x01",
	// tracked items and references to them
	"\x44\xc2\x01\x02\x29\x02\xe2xy\x2e\x07",
	"\x43\x28\xaa\x01\x61k\x05\x29\x03\x30\x29\x03",
	// cycles
	"\x28\xab\x02\x07\x29\x02", "\x28\xaa\x02\x61a\x29\x02\x61b\x61c", "\x2c\x61X\x28\xaa\x01\x61s\x30\x29\x05",
	// regexps
	"\x42\x31\x63a.b\x62xi\x31\x2f\x03\x60",
	// copies
	"\x45\x42\x61a\x01\x2f\x02\x27\x02st\x2f\x08\x51\x2f\x08\x01",
	"\x42\x51\x63key\x2a\x01\x26\x01q\x05\x51\x2f\x03\x52\x2f\x09\x41\x01\x61z\x60",
	// padding
	"\x3f\x42\x3f\x3f\x01\xbf\x51\x3f\x61k\x3f\x28\x3f\x2b\x00",
	// references to references, weak ones
	"\x28\x28\x42\x30\x28\xa8\x05\x30\x29\x06",
	// a list of structs
	"\x42\x28\x2c\x65Inner\x52\x61A\x01\x61B\x62xy\x28\x2d\x04\x52\x2f\x0b\x02\x2f\x0e\x61w",
	// a struct with everything in it
	"\x2c\x61T\x57\x61A\x0a\x61B\x62ab\x61C\x41\x01\x61D\x51\x61A\x05\x61E\x51\x61q\x07\x61F\x42\x01\x1f\x61z\x50",
}

// richDests fit some of them.
var richDests = []int{11, 14, 16, 18, 21, 22, 23, 27, 28, 31, 32}

func richDoc(k, ver int) []byte {
	if ver == 1 {
		return []byte(richV1[k])
	}
	return []byte(richDocs[k])
}

// mutant is a document with one arbitrary change: a byte replaced, put in,
// left out or doubled, the rest left out, or two bytes swapped.
func mutant(ver int) []byte {
	b := richDoc(sym.Choose(len(richDocs)), ver)
	return change(b)
}

func change(b []byte) []byte {
	p := sym.Choose(len(b))
	var r []byte
	switch sym.Choose(6) {
	case 0:
		r = clone(b)
		r[p] = sym.Byte()
	case 1:
		r = append(r, b[:p]...)
		r = append(r, sym.Byte())
		r = append(r, b[p:]...)
	case 2:
		r = append(r, b[:p]...)
		r = append(r, b[p+1:]...)
	case 3:
		r = append(r, b[:p+1]...)
		r = append(r, b[p:]...)
	case 4:
		r = clone(b[:p])
	case 5:
		sym.Assume(p > 0)
		r = clone(b)
		r[p], r[p-1] = r[p-1], r[p]
	}
	return r
}

// richV1 are richDocs with the offsets of version 1.
var richV1 = func() []string {
	var r []string
	for _, s := range richDocs {
		b := []byte(s)
		for _, p := range offsets(b) {
			b[p] += 5
		}
		r = append(r, string(b))
	}
	return r
}()

// offsets are the positions of the offsets in a well-formed body.
func offsets(b []byte) []int {
	var r []int
	for i := 0; i < len(b); {
		t := b[i] & 0x7f
		i++
		switch {
		case t == tCOPY || t == tREFP || t == tALIAS || t == tOBJECTV || t == tFREEZEV:
			r = append(r, i)
			i++
		case t == tVARINT || t == tZIGZAG || t == tARRAY || t == tHASH:
			for b[i] >= 0x80 {
				i++
			}
			i++
		case t == tFLOAT:
			i += 4
		case t == tDOUBLE:
			i += 8
		case t == tBINARY || t == tSTRUTF8:
			i += 1 + int(b[i])
		case t >= tSHORT:
			i += int(t & 31)
		}
	}
	return r
}

// C01_Mutants: documents that use everything, with one arbitrary change.
func C01_Mutants() {
	ver := sym.UpTo(1, 2)
	decodeAny(decoderOpts(), exact(mkdoc(ver, 0, mutant(ver))))
}

// C02_Mutants: the same into typed destinations.
func C02_Mutants() {
	d := decoderOpts()
	typedAny(d, exact(mkdoc(3, 0, mutant(3))), richDests[sym.Choose(len(richDests))])
}

// C04_Mutants: the same into a merger.
func C04_Mutants() {
	mask := []int{0, 2, 7}[sym.Choose(3)]
	ver := sym.UpTo(1, 2)
	appendAny(mergerOf(3, mask), exact(mkdoc(ver, 0, mutant(ver))))
}

// C04_RollbackMutants: those that fail leave no trace.
func C04_RollbackMutants() {
	bad := exact(mkdoc(3, 0, mutant(3)))
	k := []int{3, 6, 8}
	if sym.Tier() > 0 {
		k = []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	}
	rollback(bad, 2, []int{-1, 3}[sym.Choose(sym.Bound(1, 2))], k[sym.Choose(len(k))])
}

// C05_Mutants: those that are valid are merged.
func C05_Mutants() {
	mask := []int{0, 2, 7}[sym.Choose(3)]
	ver := []int{1, 3}[sym.Choose(2)]
	doc := exact(mkdoc(ver, 0, mutant(ver)))
	docs := [][]byte{exact(mkdoc(3, 0, []byte("\x53\x61a\x62ab\x63key\x2c\x63Foo\x50\x27\x02st\x61B"))), doc}
	checkMerge(mergerOf(3, mask), mask, docs, docs)
}

// C11_Mutants: those that are valid have the value of the specification.
func C11_Mutants() {
	ver := sym.UpTo(1, 2)
	checkValid(exact(mkdoc(ver, 0, mutant(ver))))
}

// C12_Mutants: those that are not are rejected.
func C12_Mutants() {
	ver := sym.UpTo(1, 2)
	checkInvalid(exact(mkdoc(ver, 0, mutant(ver))))
}

// C25_Mutants: typed and untyped decoding agree on those that are valid.
func C25_Mutants() {
	k := []int{11, 14, 16, 18, 21, 23, 27, 31, 32}
	agree(exact(mkdoc(3, 0, mutant(3))), dest(k[sym.Choose(len(k))]))
}

// C11_Rich: the documents themselves are valid.
func C11_Rich() {
	ver := sym.UpTo(1, 4)
	doc := exact(mkdoc(ver, 0, richDoc(sym.Choose(len(richDocs)), ver)))
	_, st := refDoc(doc)
	sym.Assert(st == valid || ver == 1, "the harness's document is not valid")
	checkValid(doc)
}
