package zzverif

import (
	"encoding/json"
	"math"
	"strconv"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// digits are n decimal digits and their value, which must be below 2^64.
func digits(n int) (s []byte, u uint64) {
	s = sym.Bytes(n)
	for i := range s {
		d := s[i] - '0'
		sym.Assume(d < 10)
		u = u*10 + uint64(d)
	}
	return s, u
}

// place encodes a number in one of the places it may stand and returns what is decoded there.
func place(e *sereal.Encoder, n json.Number) (out interface{}) {
	d := sereal.NewDecoder()
	sym.MapOrder(0)
	dec := func(v interface{}) interface{} {
		b, err := e.Marshal(v)
		sym.Assert(err == nil, "Marshal fails")
		var out interface{}
		sym.Assert(d.Unmarshal(exact(b), &out) == nil, "Unmarshal fails")
		return out
	}
	switch sym.Choose(6) {
	case 0:
		out = dec(n)
	case 1:
		out = dec([]interface{}{n}).([]interface{})[0]
	case 2:
		out = dec([]json.Number{n, "1"}).([]interface{})[0]
	case 3:
		out = dec(map[string]interface{}{"k": n}).(map[string]interface{})["k"]
	case 4:
		out = dec(map[string]json.Number{"k": n}).(map[string]interface{})["k"]
	case 5:
		out = dec(struct{ A json.Number }{n}).(map[string]interface{})["A"]
	}
	return out
}

// someDigits are n decimal digits, and their value: all symbolic if few.
func someDigits(n int) ([]byte, uint64) {
	k := sym.Bound(3, 5)
	if n <= k {
		return digits(n)
	}
	// a few symbolic digits at the front, the rest fixed
	s, u := digits(k - 1)
	fill := "0193840572"
	if sym.Bool() {
		fill = "9000000000"
	}
	for i := k - 1; i < n; i++ {
		s = append(s, fill[i%10])
		u = u*10 + uint64(fill[i%10]-'0')
	}
	return s, u
}

// C24_Ints: integers of up to 18 digits.
func C24_Ints() {
	s, u := someDigits([]int{1, 2, 3, 4, 5, 8, 10, 15, 18}[sym.Choose(9)])
	v := int(u)
	switch sym.Choose(3) {
	case 1:
		s, v = append([]byte{'-'}, s...), -v
	case 2:
		s = append([]byte{'+'}, s...)
	}
	sym.Assert(isInt(place(encoderV(sym.UpTo(1, 3)), json.Number(s)), v), "number changed")
	sym.Reach("end")
}

func isInt(x interface{}, v int) bool {
	i, ok := x.(int)
	return ok && i == v
}

// C24_Border: every integer of 19 digits, and 20 with a leading one or zero: on either side of int64.
func C24_Border() {
	neg := sym.Bool()
	n := sym.UpTo(19, 20)
	s := oneOf(n-17, "0189")
	if n == 20 {
		sym.Assume(s[0] < '2')
	}
	t, _ := digits(sym.Bound(2, 3))
	mid := "22337203685477580777"
	s = append(s, mid[:17-len(t)]...)
	s = append(s, t...)
	hi, lo := uint64(0), uint64(0) // s = hi*10^10 + lo
	for i, c := range s {
		if i < n-10 {
			hi = hi*10 + uint64(c-'0')
		} else {
			lo = lo*10 + uint64(c-'0')
		}
	}
	// 2^63 = 922337203*10^10 + 6854775808
	last := uint64(6854775807)
	if neg {
		last++
	}
	fits := hi < 922337203 || hi == 922337203 && lo <= last
	if neg {
		s = append([]byte{'-'}, s...)
	}
	e := encoderV(sym.UpTo(1, 3))
	b, err := e.Marshal(json.Number(s))
	sym.Assert(err == nil, "Marshal fails")
	var out interface{}
	sym.Assert(sereal.NewDecoder().Unmarshal(exact(b), &out) == nil, "Unmarshal fails")
	if !fits {
		t, ok := out.(string)
		sym.Assert(ok && t == string(s), "digits lost")
		sym.Reach("string")
		return
	}
	v := int(hi*10000000000 + lo)
	if neg {
		v = -v
	}
	sym.Assert(isInt(out, v), "number changed")
	sym.Reach("int")
}

// C24_Long: integers no machine type holds stay strings.
func C24_Long() {
	n := []int{21, 25, 31, 32, 33, 64, 127, 128, 310}[sym.Choose(9)]
	s := make([]byte, n)
	for i := range s {
		s[i] = '7'
	}
	s[0] = '1' + byte(sym.Choose(9))
	s[n-1] = oneOf(1, "05")[0]
	s[n/2] = oneOf(1, "19")[0]
	if sym.Bool() {
		s = append([]byte{'-'}, s...)
	}
	t, ok := place(encoderV(sym.UpTo(1, 3)), json.Number(s)).(string)
	sym.Assert(ok && t == string(s), "digits lost")
	sym.Reach("end")
}

// C24_Floats: fractions and exponents.
func C24_Floats() {
	c := string(oneOf(1, "0135789"))
	s := []string{"?.5", "0.?", "-?.25", "1?e2", "?E-3", "?e+10", "1?.0", "3.14159265358979?", "?e22", "?e23", "1.?e308", "?e308", "1e30?", "9.?e-324", "?e-400",
		"-0", "-0.0", "0.0", "123456789012345678?.0", "1844674407370955161?.5", "900719925474099?.0", "0.1?", "?.3e-7", "1e?", "2.2250738585072011e-308", "1.7976931348623157e308"}
	t := s[sym.Choose(len(s))]
	for i := 0; i < len(t); i++ {
		if t[i] == '?' {
			t = t[:i] + c + t[i+1:]
		}
	}
	out := place(encoderV(sym.UpTo(1, 3)), json.Number(t))
	f, err := strconv.ParseFloat(t, 64)
	switch x := out.(type) {
	case int:
		sym.Assert(float64(x) == f, "number changed")
	case float64:
		sym.Assert(err == nil && f64bits(x) == f64bits(f), "number changed")
	case float32:
		sym.Assert(err == nil && float64(x) == f && (x != 0 || math.Signbit(float64(x)) == math.Signbit(f)), "number changed")
	case string:
		sym.Assert(x == t, "number changed") // the literal text loses nothing
	default:
		sym.Fail("no number")
	}
	sym.Reach("end")
}

// C24_Other: any string of up to two bytes, numeric or not.
func C24_Other() {
	s := sym.Str(sym.UpTo(0, 2))
	out := place(sereal.NewEncoderV3(), json.Number(s))
	i, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		sym.Assert(isInt(out, int(i)), "number changed")
		sym.Reach("int")
		return
	}
	if x, ok := out.(string); ok {
		sym.Assert(x == s, "text changed")
		sym.Reach("string")
		return
	}
	f, err := strconv.ParseFloat(s, 64)
	x, ok := out.(float64)
	sym.Assert(ok && err == nil && f64bits(x) == f64bits(f), "number changed")
	sym.Reach("float")
}

// C24_Text: what looks like a number to some, and is none or another in JSON or in Go.
func C24_Text() {
	n := sym.UpTo(3, sym.Bound(4, 5))
	s := string(oneOf(n, "07-.ex_ N"))
	if sym.Bool() {
		w := []string{"NaN", "nan", "Inf", "-Inf", "+inf", "infinity", "Infinity", "0x1F", "0X1p4", "0x1p-2", "0b11", "0o17", "017", "1_000", "0x_1p1", " 1", "1 ", "\t1", "1\n", "1e", "e1", ".", "-", "+", "+.5", "5.", "1,0", "1e+", "--1", "+-1", "1e1.5", "१", "1\x00", "true", "null", "1f", "1d", "12L", "0-1", "1e0x1", "0.0e0", "-0e-0", "00", "-00", "+0"}
		s = w[sym.Choose(len(w))]
	}
	out := place(encoderV(sym.UpTo(2, 3)), json.Number(s))
	i, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		sym.Assert(isInt(out, int(i)), "number changed")
		sym.Reach("int")
		return
	}
	if x, ok := out.(string); ok {
		sym.Assert(x == s, "text changed")
		sym.Reach("string")
		return
	}
	f, err := strconv.ParseFloat(s, 64)
	x, ok := out.(float64)
	sym.Assert(ok && err == nil && f64bits(x) == f64bits(f), "number changed")
	sym.Reach("float")
}
