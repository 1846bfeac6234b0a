package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func bigOf(f float64) *big.Float { return new(big.Float).SetPrec(2400).SetFloat64(f) }

func exact(f *big.Float) string {
	s := f.Text('e', 1150)
	i := strings.IndexByte(s, 'e')
	m, e := s[:i], s[i:]
	if strings.Contains(m, ".") {
		m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
	}
	return m + e
}

// roundingInterval gives the exact decimal bounds of the reals that round to
// the magnitude of f, and whether the bounds themselves do (ties to even).
func roundingInterval(f float64) (lo, hi string, even int) {
	f = math.Abs(f)
	bits := math.Float64bits(f)
	even = b2i(bits&1 == 0)
	half := func(a, b *big.Float) string {
		s := new(big.Float).SetPrec(2400).Add(a, b)
		return exact(s.Quo(s, big.NewFloat(2).SetPrec(2400)))
	}
	if f == 0 {
		lo = "0"
	} else {
		lo = half(bigOf(math.Float64frombits(bits-1)), bigOf(f))
	}
	if f == math.MaxFloat64 {
		next := new(big.Float).SetPrec(2400).SetMantExp(big.NewFloat(1).SetPrec(2400), 1024)
		hi = half(bigOf(f), next)
	} else {
		hi = half(bigOf(f), bigOf(math.Float64frombits(bits+1)))
	}
	return
}

func roundingInterval32(f float32) (lo, hi string, even int) {
	f = float32(math.Abs(float64(f)))
	bits := math.Float32bits(f)
	even = b2i(bits&1 == 0)
	half := func(a, b *big.Float) string {
		s := new(big.Float).SetPrec(2400).Add(a, b)
		return exact(s.Quo(s, big.NewFloat(2).SetPrec(2400)))
	}
	at := func(b uint32) *big.Float { return bigOf(float64(math.Float32frombits(b))) }
	if f == 0 {
		lo = "0"
	} else {
		lo = half(at(bits-1), at(bits))
	}
	if f == math.MaxFloat32 {
		hi = half(at(bits), new(big.Float).SetPrec(2400).SetMantExp(big.NewFloat(1).SetPrec(2400), 128))
	} else {
		hi = half(at(bits), at(bits+1))
	}
	return
}

func numAccessors(v *jv.V) O {
	f := v.Float64()
	lo, hi, even := "0", "0", 1
	fin := !math.IsNaN(f) && !math.IsInf(f, 0)
	if fin {
		lo, hi, even = roundingInterval(f)
	}
	mar, err := v.Marshal()
	return O{
		"lit", []byte(v.String()), "mar", mar, "me", b2i(err != nil), "vt", int(v.ValueType()),
		"i64", []byte(strconv.FormatInt(v.Int64(), 10)), "int", []byte(strconv.Itoa(v.Int())),
		"u64", []byte(strconv.FormatUint(v.Uint64(), 10)), "uint", []byte(strconv.FormatUint(uint64(v.Uint()), 10)),
		"i32", []byte(strconv.FormatInt(int64(v.Int32()), 10)), "u32", []byte(strconv.FormatUint(uint64(v.Uint32()), 10)),
		"isf", v.IsFloat(), "isi", v.IsInteger(), "neg", v.IsNegative(), "pos", v.IsPositive(), "gt", v.GreaterThanInt64Max(),
		"isn", v.IsNumber(),
		"ff", fin, "flo", []byte(lo), "fhi", []byte(hi), "fev", even, "fneg", math.Signbit(f) && f != 0,
	}
}

var numCtx = [][2]string{{"", ""}, {" ", "\n"}, {"[", "]"}, {"[", ",true]"}, {`[null,`, ` ]`}, {`{"k":`, "}"}, {`{"k":`, `,"j":1}`}, {`{"j":[],"k": `, "\t}"}, {"[[", "]]"}}

func numberLine(lit []byte, ci int) O {
	ctx := numCtx[ci]
	text := append(append([]byte(ctx[0]), lit...), ctx[1]...)
	acc := numAccessors(jv.NewInt(0))
	ok, pan := 0, 0
	if guard(func() string { return fmt.Sprintf("Unmarshal(%q)", text) }, func() {
		v, err := jv.Unmarshal(text)
		if err != nil {
			return
		}
		ok = 1
		var n *jv.V
		switch ci {
		case 0, 1:
			n = v
		case 2, 3:
			n, err = v.Get(0)
		case 4:
			n, err = v.Get(1)
		case 5, 6, 7:
			n, err = v.Get("k")
		case 8:
			n, err = v.Get(0, 0)
		}
		if err != nil {
			ok = 2
			return
		}
		acc = numAccessors(n)
	}) {
		pan = 1
	}
	return O{"op", "num", "lit", lit, "pre", []byte(ctx[0]), "suf", []byte(ctx[1]), "ok", ok, "p", pan, "a", acc}
}

// midpointLiteral is exactly between two adjacent doubles (or just beside).
func midpointLiteral(r *rng) string {
	var f float64
	switch r.Intn(3) {
	case 0:
		f = float64(r.Int63n(1<<53)) * math.Pow(2, float64(r.rangeI(-60, 60)))
	case 1:
		f = math.Float64frombits(uint64(r.Int63n(0x7fe0000000000000)))
	default:
		f = float64(r.rangeI(1, 1000)) / float64(r.rangeI(1, 1000))
	}
	if f > 1e200 || f < 1e-200 {
		f = 0.1 + float64(r.Intn(100))
	}
	_, hi, _ := roundingInterval(f)
	i := strings.IndexByte(hi, 'e')
	switch r.Intn(3) {
	case 0:
		return hi
	case 1:
		m := hi[:i]
		if !strings.Contains(m, ".") {
			m += ".0"
		}
		return m + "00000001" + hi[i:]
	default:
		m := hi[:i]
		if j := len(m) - 1; m[j] > '0' && m[j] <= '9' && j > 2 {
			m = m[:j] + string(m[j]-1) + "999999999"
		}
		return m + hi[i:]
	}
}

func integerLiteral(r *rng) string {
	base := []string{"0", "9223372036854775807", "9223372036854775808", "18446744073709551615", "4294967295", "4294967296", "2147483647", "2147483648", "9007199254740992", "10000000000000000000", "1000000000000000000", "99999999999999999999", "2305843009213693951", "1844674407370955161"}
	b, _ := new(big.Int).SetString(base[r.Intn(len(base))], 10)
	switch r.Intn(4) {
	case 0:
		b.Add(b, big.NewInt(int64(r.rangeI(-12, 12))))
	case 1:
		b.SetString(fmt.Sprint(1+r.Intn(9))+randDigits(r, r.Intn(22)), 10)
	case 2:
		b.Add(b, new(big.Int).Mul(big.NewInt(int64(r.rangeI(-9, 9))), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(20))), nil)))
	}
	if r.p(45) {
		b.Neg(b)
	}
	return b.String()
}

// shortDecimal has about as many digits as a double holds, where converting
// digits and scale one after another goes wrong.
func shortDecimal(r *rng) string {
	var d string
	switch r.Intn(4) {
	case 0: // around and above 2^53
		d = strconv.FormatInt(1<<53+int64(r.rangeI(-5, 1<<20))*int64(1+r.Intn(1<<20)), 10)
	case 1:
		d = strconv.FormatInt((1<<53)*int64(1+r.Intn(900))+int64(r.rangeI(-9, 9)), 10)
	default:
		d = fmt.Sprint(1+r.Intn(9)) + randDigits(r, 13+r.Intn(7))
	}
	switch i := r.rangeI(-4, len(d)-1); {
	case i > 0:
		d = d[:i] + "." + d[i:]
	case r.p(50):
		d = "0." + strings.Repeat("0", -i) + d
	}
	if r.p(40) {
		d += fmt.Sprintf("%s%d", r.pick([]string{"e", "E", "e+", "e-"}), r.Intn(32))
	}
	if r.p(25) {
		d = "-" + d
	}
	return d
}

// longNumber has more digits than whatever holds them may have been made for.
func longNumber(r *rng) string {
	n := []int{20, 32, 64, 128, 256, 512, 800, 1024}[r.Intn(8)] - r.Intn(3)
	d := fmt.Sprint(1+r.Intn(9)) + randDigits(r, n)
	switch r.Intn(3) {
	case 0:
		d = d[:3] + strings.Repeat("0", n) + fmt.Sprint(r.Intn(10))
	case 1:
		d = d[:3] + strings.Repeat("9", n)
	}
	switch r.Intn(4) {
	case 0:
		d = "0." + strings.Repeat("0", r.Intn(300)) + d
	case 1: // shift back by the exponent
		z := n + r.Intn(300)
		d = fmt.Sprintf("0.%s%se+%d", strings.Repeat("0", z), d, z+r.rangeI(-3, 20))
	case 2:
		d = fmt.Sprintf("%s.%sE-%d", d, randDigits(r, 3), len(d)-r.Intn(20))
	default:
		i := 1 + r.Intn(20)
		d = d[:i] + "." + d[i:]
	}
	if r.p(25) {
		d = "-" + d
	}
	return d
}

func brokenNumber(r *rng) string {
	s := randNumber(r)
	if r.p(40) {
		s = integerLiteral(r)
	}
	i := r.Intn(len(s) + 1)
	switch r.Intn(6) {
	case 0:
		return s[:i]
	case 1:
		return s[:i] + string("+-.eE0 "[r.Intn(7)]) + s[i:]
	case 2:
		return "0" + s
	case 3:
		if strings.HasPrefix(s, "-") {
			return "-0" + s[1:]
		}
		return "-00" + s
	case 4:
		return s + r.pick([]string{".", "e", "E", "e+", "E-", ".e1", "-", "+", "e1.5", "e1e1", ".1.1", "x", "e-0.1", "e+-1", "-1"})
	default:
		return r.pick([]string{"+", ".", "-.", "--", "e", "0x"}) + s
	}
}

func famNumber(c cfg) {
	out := newOut(c.out, "number", c.shards)
	r := newRng(c.seed*7 + 3)
	emit := func(l O) { out.put(l); out.advance() }
	for _, s := range []string{"", "-", "0", "-0", "00", "-00", "01", "-01", "+1", "1.", ".1", "-.1", "1e", "1e+", "1.e1", "1.0e", "0e", "0e0", "0.0", "-0.0", "0e+0", "-0e-0", "1E400", "1e309", "-1e309", "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315807e308", "1.797693134862315808e308",
		"17976931348623158079372897140530341507993413271003782693617377898044496829276475094664901797758720709633028641669288791094655554785194040263065748867150582068190890200070838367627385484581771153176447573027006985557136695962284291481986083493647529271907416844436551070434271155969950809304288017790417449777.9",
		"17976931348623158079372897140530341507993413271003782693617377898044496829276475094664901797758720709633028641669288791094655554785194040263065748867150582068190890200070838367627385484581771153176447573027006985557136695962284291481986083493647529271907416844436551070434271155969950809304288017790417449779.1",
		"4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2e-324", "1e-999", "1e-99999999", "9007199254740993.0", "9007199254740992.99999", "1e22", "1e23", "8.5e22", "123e-5", "0.30000000000000004", "-9223372036854775809", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "20000000000000000000", "99999999999999999999", "100000000000000000000", "-10000000000000000000", "-99999999999999999999", "000000000000000000000001", "1_0", "1,", "NaN", "Infinity", "-Infinity", "inf", "0x10", "1d", "1f", "٣"} {
		for ci := range numCtx {
			emit(numberLine([]byte(s), ci))
		}
	}
	for i := 0; i < c.n; i++ {
		var s string
		switch i % 5 {
		case 0:
			s = integerLiteral(r)
		case 1:
			s = randNumber(r)
			if r.p(50) {
				s = shortDecimal(r)
			}
			if r.p(2) {
				s = longNumber(r)
			}
		case 2:
			s = brokenNumber(r)
		case 3:
			if i%15 == 3 {
				s = midpointLiteral(r)
			} else {
				s = strconv.FormatFloat(math.Float64frombits(r.Uint64()), "eEfgG"[r.Intn(5)], r.rangeI(-1, 20), 64)
				if len(s) > 400 || strings.ContainsAny(s, "NI") {
					s = randNumber(r)
				}
			}
		default:
			emit(newNumberLine(r))
			continue
		}
		emit(numberLine([]byte(s), r.Intn(len(numCtx))))
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}

func randFloat(r *rng) float64 {
	switch r.Intn(6) {
	case 0:
		f := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e6, 1e20, 1e21, 1e22, 1e-6, 1e-7, 9.999999e-7, 999999999999999999999, 1 << 63, 1 << 62, 1<<63 - 1024, 1 << 64, 1<<64 - 2048, -(1 << 63), -(1<<63 + 2048), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e19, 2e19, 9.3e18, -1e19, 123456789, 1e-10, 100, 5e-324, 1.5, -2.5, math.MaxFloat32, math.SmallestNonzeroFloat32}
		return f[r.Intn(len(f))]
	case 1:
		return float64(r.rangeI(-100000, 100000))
	case 2:
		return float64(int64(r.Uint64()))
	case 3:
		return float64(r.rangeI(-100000, 100000)) / math.Pow(10, float64(r.Intn(9)))
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

type myInt int16
type myUint uint8
type myFloat float32

// newNumberLine builds a number from a Go number.  val is its exact decimal
// value; how tells how the literal must relate to it: "int" the same integer,
// "float" a text that rounds to it (nlo..nhi), "free" explicit precision.
func newNumberLine(r *rng) O {
	var v *jv.V
	var val, nlo, nhi, how, desc string
	nev := 0
	setF := func(f float64) {
		how, val = "float", exact(bigOf(f))
		nlo, nhi, nev = roundingInterval(f)
	}
	setF32 := func(f float32) {
		how, val = "float", exact(bigOf(float64(f)))
		nlo, nhi, nev = roundingInterval32(f)
	}
	i64 := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 53, int64(r.Uint64()), int64(r.rangeI(-1000, 1000)), int64(r.Uint64()) >> uint(r.Intn(64))}[r.Intn(12)]
	u64 := []uint64{0, 1, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint32, r.Uint64(), r.Uint64() >> uint(r.Intn(64))}[r.Intn(8)]
	f64 := randFloat(r)
	f32 := float32(0)
	for {
		f32 = math.Float32frombits(r.Uint32())
		if r.p(40) {
			f32 = float32(r.rangeI(-1000, 1000)) / float32(r.rangeI(1, 100))
		}
		if r.p(10) {
			f32 = []float32{0, 1 << 24, 1e20, 1e21, 1e22, 1e-6, 1e-7, 1 << 63, -(1 << 63), 1 << 62, math.MaxFloat32, math.SmallestNonzeroFloat32}[r.Intn(12)]
		}
		if f32 == f32 && !math.IsInf(float64(f32), 0) {
			break
		}
	}
	pan := 0
	acc := numAccessors(jv.NewInt(0))
	fs := 1
	mk := []struct {
		name string
		f    func()
	}{
		{"NewInt64", func() { v, val, how = jv.NewInt64(i64), fmt.Sprint(i64), "int" }},
		{"NewInt", func() { v, val, how = jv.NewInt(int(i64)), fmt.Sprint(i64), "int" }},
		{"NewInt32", func() { v, val, how = jv.NewInt32(int32(i64)), fmt.Sprint(int32(i64)), "int" }},
		{"NewUint64", func() { v, val, how = jv.NewUint64(u64), fmt.Sprint(u64), "int" }},
		{"NewUint", func() { v, val, how = jv.NewUint(uint(u64)), fmt.Sprint(u64), "int" }},
		{"NewUint32", func() { v, val, how = jv.NewUint32(uint32(u64)), fmt.Sprint(uint32(u64)), "int" }},
		{"New(int8)", func() { v, val, how = jv.New(int8(i64)), fmt.Sprint(int8(i64)), "int" }},
		{"New(int16)", func() { v, val, how = jv.New(int16(i64)), fmt.Sprint(int16(i64)), "int" }},
		{"New(int32)", func() { v, val, how = jv.New(int32(i64)), fmt.Sprint(int32(i64)), "int" }},
		{"New(int64)", func() { v, val, how = jv.New(i64), fmt.Sprint(i64), "int" }},
		{"New(uint8)", func() { v, val, how = jv.New(uint8(u64)), fmt.Sprint(uint8(u64)), "int" }},
		{"New(uint16)", func() { v, val, how = jv.New(uint16(u64)), fmt.Sprint(uint16(u64)), "int" }},
		{"New(uint64)", func() { v, val, how = jv.New(u64), fmt.Sprint(u64), "int" }},
		{"New(uintptr)", func() { v, val, how = jv.New(uintptr(u64)), fmt.Sprint(u64), "int" }},
		{"New(myInt)", func() { v, val, how = jv.New(myInt(i64)), fmt.Sprint(int16(i64)), "int" }},
		{"New(myUint)", func() { v, val, how = jv.New(myUint(u64)), fmt.Sprint(uint8(u64)), "int" }},
		{"NewFloat64", func() { v = jv.NewFloat64(f64); setF(f64); fs = b2i(v.Float64() == f64) }},
		{"New(float64)", func() { v = jv.New(f64); setF(f64); fs = b2i(v.Float64() == f64) }},
		{"NewFloat32", func() { v = jv.NewFloat32(f32); setF32(f32); fs = b2i(v.Float32() == f32) }},
		{"New(float32)", func() { v = jv.New(f32); setF32(f32); fs = b2i(v.Float32() == f32) }},
		{"New(myFloat)", func() { v = jv.New(myFloat(f32)); setF32(f32); fs = b2i(v.Float32() == f32) }},
		{"NewFloat64f", func() {
			v = jv.NewFloat64f(f64, "eEfgGxb"[r.Intn(7)], r.rangeI(-1, 12))
			setF(f64)
			how = "free"
		}},
		{"NewFloat32f", func() {
			v = jv.NewFloat32f(f32, "eEfgGx"[r.Intn(6)], r.rangeI(-1, 8))
			setF(float64(f32))
			how = "free"
		}},
		{"SetXxx", func() {
			o := jv.NewObject()
			switch r.Intn(6) {
			case 0:
				v, _ = o.SetInt64(i64).At("k")
				val, how = fmt.Sprint(i64), "int"
			case 1:
				v, _ = o.SetUint64(u64).At("k")
				val, how = fmt.Sprint(u64), "int"
			case 2:
				v, _ = o.SetInt32(int32(i64)).At("k")
				val, how = fmt.Sprint(int32(i64)), "int"
			case 3:
				v, _ = o.SetUint32(uint32(u64)).At("k")
				val, how = fmt.Sprint(uint32(u64)), "int"
			case 4:
				v, _ = o.SetFloat64(f64).At("k")
				setF(f64)
			default:
				v, _ = o.SetFloat32(f32).At("k")
				setF32(f32)
			}
		}},
	}
	m := mk[r.Intn(len(mk))]
	desc = m.name
	if guard(func() string { return fmt.Sprintf("%s(%d/%d/%v/%v)", desc, i64, u64, f64, f32) }, func() {
		m.f()
		acc = numAccessors(v)
	}) {
		pan = 1
	}
	return O{"op", "new", "fn", desc, "val", []byte(val), "how", how, "nlo", []byte(nlo), "nhi", []byte(nhi), "nev", nev, "fs", fs, "p", pan, "a", acc}
}
