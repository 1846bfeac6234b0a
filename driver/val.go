package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// errClass5 tells the error classes of typed getters (spec/JVValues.tla).
func errClass5(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, jv.ErrNotFound):
		return 1
	case errors.Is(err, jv.ErrOutOfRange):
		return 2
	case errors.Is(err, jv.ErrTypeNotMatch):
		return 3
	case errors.Is(err, jv.ErrParseNumberFromString):
		return 4
	}
	return 5
}

type valSess struct {
	r   *rng
	out *Out
	hs  *heapSess
}

func sameTree(a *Tree, b *Tree) int { return b2i(bytes.Equal(enc(nil, a), enc(nil, b))) }

func floatRec(f float64, e int) O {
	ff, lo, hi, ev := 1, "0", "0", 1
	switch {
	case math.IsNaN(f):
		ff = 2
	case math.IsInf(f, 0):
		ff = 0
	default:
		lo, hi, ev = roundingInterval(f)
	}
	return O{"e", e, "ff", ff, "lo", []byte(lo), "hi", []byte(hi), "ev", ev, "neg", f < 0 || math.Signbit(f) && f != 0, "z", f == 0}
}

// ---------------------------------------------------------------- comparison

func (s *valSess) cmp(a, b *jv.V) {
	ta, tb := project(a), project(b)
	var lt, le, gt, ge, eq, qe bool
	pan := guard(func() string { return fmt.Sprintf("comparing %.200s and %.200s", a, b) }, func() {
		eq = a.Equal(b)
		qe = b.Equal(a)
		if a != nil && b != nil {
			lt, le, gt, ge = a.LessThan(b), a.LessThanOrEqual(b), a.GreaterThan(b), a.GreaterThanOrEqual(b)
		}
	})
	same := sameTree(ta, project(a)) & sameTree(tb, project(b))
	s.out.put(O{"op", "cmp", "a", ta, "b", tb, "an", a == nil, "bn", b == nil,
		"r", O{"lt", lt, "le", le, "gt", gt, "ge", ge}, "eq", eq, "qe", qe, "same", same, "pan", pan})
	s.out.advance()
}

// parts of a decimal literal: value = digits * 10^exp
func splitLit(lit string) (neg bool, digits string, exp int, ok bool) {
	if strings.HasPrefix(lit, "-") {
		neg, lit = true, lit[1:]
	}
	l := strings.ToLower(lit)
	if i := strings.IndexByte(l, 'e'); i >= 0 {
		e, err := strconv.Atoi(l[i+1:])
		if err != nil || e > 1000 || e < -1000 {
			return false, "", 0, false
		}
		exp, l = e, l[:i]
	}
	if i := strings.IndexByte(l, '.'); i >= 0 {
		exp -= len(l) - i - 1
		l = l[:i] + l[i+1:]
	}
	l = strings.TrimLeft(l, "0")
	if l == "" {
		l = "0"
	}
	return neg, l, exp, true
}

func expText(r *rng, e int) string {
	s := r.pick([]string{"e", "E"})
	if e < 0 {
		s += "-"
		e = -e
	} else {
		s += r.pick([]string{"", "+"})
	}
	if r.p(15) {
		s += strings.Repeat("0", 1+r.Intn(9))
	}
	return s + strconv.Itoa(e)
}

// spell writes digits * 10^exp in one of many ways.
func spell(r *rng, neg bool, digits string, exp int) string {
	sign := ""
	if neg {
		sign = "-"
	}
	if r.p(40) { // trailing zeros
		n := r.Intn(6)
		if r.p(10) {
			n = r.Intn(120)
		}
		digits += strings.Repeat("0", n)
		exp -= n
	}
	switch r.Intn(4) {
	case 0: // plain, if not too long
		if exp == 0 {
			if len(digits) < 18 || r.p(50) {
				return sign + digits + r.pick([]string{"", ".0", ".000", "e0", "E+00", ".0e-0"})
			}
			return sign + digits + ".0"
		}
		if exp > 0 && exp < 40 {
			return sign + digits + strings.Repeat("0", exp) + ".0"
		}
		if exp < 0 && -exp < 400 {
			for len(digits) <= -exp {
				digits = "0" + digits
			}
			p := len(digits) + exp
			return sign + digits[:p] + "." + digits[p:]
		}
	case 1: // scientific
		m := digits[:1]
		if len(digits) > 1 {
			m += "." + digits[1:]
		}
		if m[0] == '0' && len(m) > 1 && m[1] != '.' {
			break
		}
		return sign + m + expText(r, exp+len(digits)-1)
	case 2: // 0.00ddd e x
		z := r.Intn(4)
		return sign + "0." + strings.Repeat("0", z) + digits + expText(r, exp+len(digits)+z)
	}
	return sign + digits + expText(r, exp)
}

// vastNumber is so small that its exponent does not fit into a machine word.
func vastNumber(r *rng) string {
	e := r.pick([]string{"2147483647", "2147483648", "2147483649", "4294967296", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551615", "99999999", "100000000", "999999999", "1000000000", "100000000000000000000"})
	if r.p(30) {
		e = fmt.Sprint(1+r.Intn(9)) + randDigits(r, 8+r.Intn(12))
	}
	m := r.pick([]string{"1", "10", "0.1", "100.0", "1.5", "9.99", "0.01", "2", "1.0"})
	return r.pick([]string{"", "", "-"}) + m + r.pick([]string{"e-", "E-"}) + strings.Repeat("0", r.Intn(3)) + e
}

// vastRelative writes such a number in another way, or one next to it.
func vastRelative(r *rng, lit string) *jv.V {
	l := strings.ToLower(lit)
	i := strings.IndexByte(l, 'e')
	if i < 0 {
		return nil
	}
	e, ok := new(big.Int).SetString(l[i+1:], 10)
	neg, d, x, ok2 := splitLit(l[:i])
	if !ok || !ok2 {
		return nil
	}
	n := r.Intn(4) // trailing zeros
	x -= n
	d += strings.Repeat("0", n)
	k := r.Intn(len(d)) // digits behind the dot
	if k > 0 {
		d = d[:len(d)-k] + "." + d[len(d)-k:]
		x += k
	} else if r.p(30) {
		d = "0." + strings.Repeat("0", n) + d
		x += len(d) - 2
	}
	e.Add(e, big.NewInt(int64(x)))
	if r.p(40) {
		e.Add(e, big.NewInt(int64(r.rangeI(-1, 1))))
	}
	if neg != r.p(5) {
		d = "-" + d
	}
	if r.p(20) {
		e.Add(e, new(big.Int).Lsh(big.NewInt(1), []uint{32, 31, 64, 63}[r.Intn(4)]))
	}
	return litValue(d + "E" + e.String())
}

// litValue makes a number; nil if the library (rightly) refuses the literal.
func litValue(lit string) *jv.V {
	v, err := jv.UnmarshalString(lit)
	if err != nil || !v.IsNumber() {
		return nil
	}
	return v
}

func (s *valSess) number() *jv.V {
	r := s.r
	for {
		switch r.Intn(10) {
		case 8: // of few digits, but not exactly so in binary
			f := float32(r.rangeI(-2000, 2000)) / float32(math.Pow(10, float64(1+r.Intn(6))))
			if r.p(30) {
				return jv.NewFloat64(float64(r.rangeI(-2000, 2000)) / math.Pow(10, float64(1+r.Intn(6))))
			}
			return jv.NewFloat32(f)
		case 0:
			return jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		case 9: // exponents beyond 32 and 64 bits
			if v := litValue(vastNumber(r)); v != nil {
				return v
			}
		case 1:
			return jv.NewInt64(int64(r.Uint64()) >> uint(r.Intn(64)))
		case 2:
			return jv.NewFloat64(randFloat(r))
		case 3:
			if r.p(6) {
				if v := litValue(longNumber(r)); v != nil {
					return v
				}
			}
			if v := litValue(integerLiteral(r)); v != nil {
				return v
			}
		case 4:
			if v := litValue(r.pick([]string{"0", "-0", "0.0", "-0.0", "0e5", "0e-99999", "-0e+12345678", "1e-99999999", "1e-99999998", "-1e-99999999", "9.99999999e-99999991", "1e-400", "10e-401", "1e308", "0.1e309",
				"1.0000000000000000000000000000000000000000000000000001", "1.0000000000000000000000000000000000000000000000000002", "1", "0.99999999999999999999999999999999999999999"})); v != nil {
				return v
			}
		default:
			if v := litValue(randNumber(r)); v != nil {
				return v
			}
		}
	}
}

// relative of a number: equal, slightly different, negated, scaled
func (s *valSess) relative(v *jv.V) *jv.V {
	r := s.r
	neg, d, e, ok := splitLit(v.String())
	if w := vastRelative(r, v.String()); !ok && w != nil {
		return w
	}
	if !ok || math.IsNaN(v.Float64()) || math.IsInf(v.Float64(), 0) {
		return s.number()
	}
	switch r.Intn(8) {
	case 0, 1, 2:
	case 3:
		neg = !neg
	case 4:
		e += r.rangeI(-2, 2)
	case 5: // a far digit
		n := r.Intn(40)
		if r.p(20) {
			n = r.Intn(300)
		}
		d += strings.Repeat("0", n) + "1"
		e -= n + 1
	case 6: // one unit of the last digit
		b, _ := new(big.Int).SetString(d, 10)
		b.Add(b, big.NewInt(int64(r.rangeI(-1, 1))))
		if b.Sign() < 0 {
			b.Neg(b)
			neg = !neg
		}
		d = b.String()
	case 7: // just below: 12 -> 11.999...
		b, _ := new(big.Int).SetString(d, 10)
		if b.Sign() > 0 {
			b.Sub(b, big.NewInt(1))
			n := 1 + r.Intn(60)
			d, e = strings.TrimLeft(b.String()+strings.Repeat("9", n), "0"), e-n
		}
	}
	for i := 0; i < 5; i++ {
		if w := litValue(spell(r, neg, d, e)); w != nil {
			return w
		}
	}
	return s.number()
}

var valKeys = []string{"a", "b", "c", "A", "é", "", "ab"}

func (s *valSess) scalar() *Tree {
	r := s.r
	switch r.Intn(6) {
	case 0:
		return &Tree{T: 1, S: []byte(r.pick([]string{"", "a", "A", "true", "1", "null", "é", "e\u0301", "a\u0000", "1.0"}))}
	case 1:
		return &Tree{T: 5, S: []byte{byte(r.Intn(2))}}
	case 2:
		return &Tree{T: 6}
	case 3:
		return project(s.number())
	}
	return &Tree{T: 2, S: []byte(r.pick([]string{"0", "1", "2", "1.0", "1e0", "10e-1", "-1", "0.0", "-0", "2.0", "3"}))}
}

func (s *valSess) tree(depth, width int) *Tree {
	r := s.r
	if depth <= 0 || r.p(25) {
		return s.scalar()
	}
	n := r.Intn(width + 1)
	t := &Tree{T: 4}
	if r.p(50) {
		t.T = 3
		perm := r.Perm(len(valKeys))
		if n > len(perm) {
			n = len(perm)
		}
		for i := 0; i < n; i++ {
			t.K = append(t.K, []byte(valKeys[perm[i]]))
		}
	}
	for i := 0; i < n; i++ {
		t.E = append(t.E, s.tree(depth-1, width))
	}
	return t
}

func copyTree(t *Tree) *Tree {
	c := &Tree{T: t.T, S: append([]byte{}, t.S...), K: append([][]byte{}, t.K...)}
	for _, e := range t.E {
		c.E = append(c.E, copyTree(e))
	}
	return c
}

// allNodes lists the nodes of a tree.
func allNodes(t *Tree, l []*Tree) []*Tree {
	l = append(l, t)
	for _, e := range t.E {
		l = allNodes(e, l)
	}
	return l
}

func (s *valSess) respell(t *Tree) {
	r := s.r
	if t.T == 2 {
		if neg, d, e, ok := splitLit(string(t.S)); ok && r.p(60) {
			lit := spell(r, neg, d, e)
			if litValue(lit) != nil {
				t.S = []byte(lit)
			}
		}
	}
	if t.T == 3 && r.p(60) {
		r.Shuffle(len(t.K), func(i, j int) {
			t.K[i], t.K[j] = t.K[j], t.K[i]
			t.E[i], t.E[j] = t.E[j], t.E[i]
		})
	}
	for _, e := range t.E {
		s.respell(e)
	}
}

// alter changes one thing somewhere.
func (s *valSess) alter(t *Tree) {
	r := s.r
	ns := allNodes(t, nil)
	n := ns[r.Intn(len(ns))]
	if r.p(50) { // prefer the late ones
		n = ns[len(ns)-1-r.Intn((len(ns)+1)/2)]
	}
	switch {
	case len(n.E) > 0 && r.p(40): // drop one
		i := r.Intn(len(n.E))
		if r.p(40) {
			i = len(n.E) - 1
		}
		n.E = append(n.E[:i:i], n.E[i+1:]...)
		if n.T == 3 {
			n.K = append(n.K[:i:i], n.K[i+1:]...)
		}
	case n.T == 4 && r.p(50): // add one
		i := r.Intn(len(n.E) + 1)
		n.E = append(n.E[:i:i], append([]*Tree{s.scalar()}, n.E[i:]...)...)
	case n.T == 3: // rename or add a key
		k := valKeys[r.Intn(len(valKeys))]
		for _, x := range n.K {
			if string(x) == k {
				return
			}
		}
		if len(n.K) > 0 && r.p(60) {
			n.K[r.Intn(len(n.K))] = []byte(k)
		} else {
			n.K = append(n.K, []byte(k))
			n.E = append(n.E, s.scalar())
		}
	case n.T == 4 && len(n.E) > 1:
		i, j := r.Intn(len(n.E)), r.Intn(len(n.E))
		n.E[i], n.E[j] = n.E[j], n.E[i]
	case n.T == 2:
		if v := litValue(string(n.S)); v != nil {
			n.S = []byte(s.relative(v).String())
		}
	default:
		*n = *s.scalar()
	}
}

// make gives a value of a tree, built in one of several ways.
func (s *valSess) make(t *Tree) *jv.V {
	v := special(s.r, t)
	if s.r.p(30) {
		if w, err := jv.Import(v); err == nil {
			return w
		}
	}
	if s.r.p(30) {
		if w, err := jv.Unmarshal(treeText(t, nil)); err == nil {
			return w
		}
	}
	return v
}

// floats builds a value whose numbers come from Go floats where the literal allows.
func (s *valSess) floats(t *Tree) *jv.V {
	switch t.T {
	case int(jv.Number):
		f, err := strconv.ParseFloat(string(t.S), 64)
		if err != nil || math.Abs(f) < 1e-4 || math.Abs(f) > 1e6 {
			break
		}
		if strconv.FormatFloat(float64(float32(f)), 'f', -1, 32) == string(t.S) {
			return jv.NewFloat32(float32(f))
		}
		if strconv.FormatFloat(f, 'f', -1, 64) == string(t.S) {
			return jv.NewFloat64(f)
		}
	case int(jv.Array):
		a := jv.NewArray()
		for _, c := range t.E {
			a.MustAppend(s.floats(c)).InTheEnd()
		}
		return a
	case int(jv.Object):
		o := jv.NewObject()
		for i, c := range t.E {
			o.MustSet(s.floats(c)).At(string(t.K[i]))
		}
		return o
	}
	return special(s.r, t)
}

func (s *valSess) missing() *jv.V {
	switch s.r.Intn(5) {
	case 0:
		return &jv.V{}
	case 1:
		v, _ := jv.UnmarshalString("[1,")
		return v
	case 2:
		return jv.NewObject().MustGet("a")
	case 3:
		return jv.MustUnmarshalString("[1]").MustGet(3, "a")
	}
	v, _ := jv.NewArray().Append(make(chan int)).InTheEnd()
	return v
}

// sharing builds b again out of the very nodes of a where the two are alike.
func (s *valSess) sharing(a, b *jv.V) *jv.V {
	r := s.r
	if r.p(50) && bytes.Equal(enc(nil, project(a)), enc(nil, project(b))) {
		return a
	}
	switch {
	case b.IsArray():
		w := jv.NewArray()
		for i, c := range b.ForRangeArr() {
			if a.IsArray() && i < a.Len() {
				c = s.sharing(a.MustGet(i), c)
			}
			w.MustAppend(c).InTheEnd()
		}
		return w
	case b.IsObject():
		w := jv.NewObject()
		b.RangeObjectsBySetSequence(func(k string, c *jv.V) bool {
			if x, err := a.Get(k); err == nil && a.IsObject() {
				c = s.sharing(x, c)
			}
			w.MustSet(c).At(k)
			return true
		})
		return w
	}
	return b
}

func (s *valSess) cmpRandom() {
	r := s.r
	if r.p(55) {
		a := s.number()
		b := s.relative(a)
		if r.p(20) {
			b = s.number()
		}
		if r.p(4) {
			b = a
		}
		s.cmp(a, b)
		return
	}
	if r.p(3) {
		a := s.make(s.tree(1, 2))
		b := s.missing()
		if r.p(30) {
			a = nil
		}
		if r.p(30) {
			b = nil
		}
		if r.p(50) {
			a, b = b, a
		}
		if r.p(40) {
			b = a
		}
		s.cmp(a, b)
		return
	}
	t := s.tree(r.Intn(4), 4)
	u := copyTree(t)
	s.respell(u)
	for n := []int{0, 0, 1, 1, 2}[r.Intn(5)]; n > 0; n-- {
		s.alter(u)
	}
	if r.p(10) {
		u = s.tree(r.Intn(3), 3)
	}
	a, b := s.make(t), s.make(u)
	if r.p(25) {
		a = s.floats(t)
	}
	if r.p(8) {
		b = a
	}
	if r.p(35) {
		b = s.sharing(a, b)
	}
	if r.p(8) && a.IsArray() || r.p(8) && a.IsObject() { // one value at both sides
		x := s.make(s.tree(1, 2))
		for _, c := range []*jv.V{a, b} {
			if c.IsArray() {
				c.MustAppend(x).InTheEnd()
			} else if c.IsObject() {
				c.MustSet(x).At("same")
			}
		}
	}
	s.cmp(a, b)
}

// ---------------------------------------------------------------- Contains

// subset removes things so that the result may well be contained.
func (s *valSess) subset(t *Tree) {
	r := s.r
	switch t.T {
	case 3:
		for i := 0; i < len(t.K); {
			if r.p(40) {
				t.K = append(t.K[:i:i], t.K[i+1:]...)
				t.E = append(t.E[:i:i], t.E[i+1:]...)
			} else {
				s.subset(t.E[i])
				i++
			}
		}
	case 4:
		if len(t.E) > 0 && r.p(60) {
			i := r.Intn(len(t.E))
			j := i + r.Intn(len(t.E)-i+1)
			t.E = t.E[i:j]
		}
	}
}

func (s *valSess) cnt(v *jv.V, how string, f int, p []hparam, sub *Tree) {
	r := s.r
	var arg any
	switch how {
	case "V":
		arg = s.make(sub)
	case "go":
		x, ok := goValue(r, sub)
		if !ok {
			how, x = "V", s.make(sub)
		}
		arg = x
	case "nilV":
		arg = (*jv.V)(nil)
	case "bad":
		arg = []any{make(chan int), func() {}, map[string]any{"a": make(chan int)}, complex(1, 1), map[float64]int{1: 1}}[r.Intn(5)]
	case "nilv":
		v, arg = nil, s.make(sub)
	case "ne":
		arg = s.missing()
	}
	before := project(v)
	var argBefore *Tree
	if a, ok := arg.(*jv.V); ok && a != nil {
		argBefore = project(a)
		sub = argBefore
	}
	var ps []any
	if len(p) > 0 {
		ps = s.hs.params(&hop{P: p, F: f})
	}
	res := false
	pan := guard(func() string { return fmt.Sprintf("Contains(%.300s, %.300v, %v)", v, arg, ps) }, func() {
		res = beta.Contains(v, arg, ps...)
	})
	same := sameTree(before, project(v)) & b2i(s.hs.argsKept())
	if argBefore != nil {
		same &= sameTree(argBefore, project(arg.(*jv.V)))
	}
	s.out.put(O{"op", "cnt", "v", before, "how", how, "f", f, "p", encPath(p), "sub", sub, "r", res, "same", same, "pan", pan})
	s.out.advance()
}

func encPath(p []hparam) L {
	l := L{}
	for _, x := range p {
		l = append(l, O{"k", x.K, "s", []byte(x.S), "i", x.I})
	}
	return l
}

// treePath walks a tree; it also returns where it leads, nil if nowhere.
func (s *valSess) treePath(t *Tree, caseless bool, max int) (p []hparam, at *Tree) {
	r := s.r
	at = t
	for n := r.Intn(max + 1); n > 0; n-- {
		x := hparam{K: r.pick([]string{"s", "i", "s", "i", "b"}), S: bs(valKeys[r.Intn(len(valKeys))]), I: r.rangeI(-3, 3)}
		var next *Tree
		if at != nil && at.T == 3 && len(at.E) > 0 && r.p(90) {
			i := r.Intn(len(at.E))
			x, next = hparam{K: "s", S: at.K[i]}, at.E[i]
			if caseless && r.p(50) {
				x.S = flipCase(r, x.S)
			}
		} else if at != nil && at.T == 4 && len(at.E) > 0 && r.p(85) {
			i := r.Intn(len(at.E))
			x, next = hparam{K: "i", I: i}, at.E[i]
			if r.p(40) {
				x.I -= len(at.E)
			}
		} else if at != nil && at.T == 4 && r.p(50) {
			x = hparam{K: "i", I: []int{len(at.E), -len(at.E) - 1, 2000000000, -2000000000}[r.Intn(4)]}
		} else if r.p(50) && len(p) > 0 {
			return
		}
		p, at = append(p, x), next
	}
	return
}

func (s *valSess) cntRandom() {
	r := s.r
	t := s.tree(1+r.Intn(3), 5)
	p, at := s.treePath(t, false, 2)
	if at == nil {
		at = t
	}
	u := copyTree(at)
	s.subset(u)
	s.respell(u)
	if r.p(35) {
		s.alter(u)
	}
	if at.T == 4 && r.p(15) { // partial runs over few values
		at.E, u = nil, &Tree{T: 4}
		x := []*Tree{s.scalar(), s.scalar(), s.tree(1, 2)}[:2+r.Intn(2)]
		for n := 3 + r.Intn(12); n > 0; n-- {
			at.E = append(at.E, copyTree(x[r.Intn(len(x))]))
		}
		n := 1 + r.Intn(1+len(at.E)/2)
		i := r.Intn(len(at.E) - n + 1)
		for _, e := range at.E[i : i+n] {
			u.E = append(u.E, copyTree(e))
		}
		if r.p(30) {
			s.respell(u)
		}
		if r.p(30) {
			u.E[len(u.E)-1] = copyTree(x[r.Intn(len(x))])
		}
	} else if at.T == 4 && len(at.E) > 0 && r.p(25) { // an almost run
		at.E = append(at.E[:len(at.E)-1:len(at.E)-1], append(copyTree(u).E, at.E...)...)
	}
	how := r.pick([]string{"V", "V", "V", "V", "V", "V", "V", "V", "go", "go", "go"})
	f := 0
	if r.p(20) && len(p) > 0 {
		f = 1 + r.Intn(2)
	}
	if r.p(4) {
		how = r.pick([]string{"nilV", "bad", "nilv", "ne"})
	}
	s.cnt(s.make(t), how, f, p, u)
}

// ---------------------------------------------------------------- getters

var interestingStrings = []string{"", " ", "true", "false", "True", " true", "1", "0", "-1", "00", "1.5", " 12 ", "\t-7\n", "1e3", "1e400", "-", "+1", "0x10", "1 2", "1,", "12abc", "abc", "NaN", "Inf", "1.", ".5",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "\u00a01\u0085", "\u30001", "\u20281\u2009", "\ufeff1", "\u200b1", "١", "1\x00",
	"YQ==", "YWI=", "YWJj", "YWJ", "YQ", "YQ=", "Y===", "====", "YW\nJj", "YR==", "a-_b", "a+/b", "YWJjZA==", "!!!!", "YQ==YQ==", "null", "-0", "1E-2", "2147483648", "-2147483649", "4294967296"}

func (s *valSess) getterScalar() *Tree {
	r := s.r
	switch r.Intn(7) {
	case 0, 1:
		return &Tree{T: 1, S: []byte(interestingStrings[r.Intn(len(interestingStrings))])}
	case 2:
		return &Tree{T: 1, S: []byte(r.pick([]string{"", " ", "\t"}) + randNumber(r) + r.pick([]string{"", " ", "\n"}))}
	case 3:
		return &Tree{T: 2, S: []byte(randNumber(r))}
	case 4:
		return project(s.number())
	case 5:
		return &Tree{T: 5, S: []byte{byte(r.Intn(2))}}
	}
	return s.scalar()
}

func (s *valSess) getterTree(depth, width int) *Tree {
	r := s.r
	if depth <= 0 {
		return s.getterScalar()
	}
	n := 1 + r.Intn(width)
	t := &Tree{T: 4}
	if r.p(60) {
		t.T = 3
		perm := r.Perm(len(heapKeys))
		for i := 0; i < n; i++ {
			t.K = append(t.K, []byte(heapKeys[perm[i]]))
		}
	}
	for i := 0; i < n; i++ {
		t.E = append(t.E, s.getterTree(depth-1-r.Intn(2), width))
	}
	return t
}

func (s *valSess) get(v *jv.V, p []hparam, f int, cl bool) {
	var g jv.Caseless = v
	if cl {
		g = v.Caseless()
	}
	before := project(v)
	ps := s.hs.params(&hop{P: p, F: f})
	a, b := ps[0], ps[1:]
	rec := O{}
	txt := func(x any) []byte { return []byte(fmt.Sprint(x)) }
	nonNil := func(x []byte) []byte {
		if x == nil {
			return []byte{}
		}
		return x
	}
	pan := guard(func() string { return fmt.Sprintf("getters of %.300s at %v (caseless %v)", v, ps, cl) }, func() {
		node, _ := g.Get(a, b...)
		i64, e := g.GetInt64(a, b...)
		rec = append(rec, "i64", O{"e", errClass5(e), "v", txt(i64)})
		in, e := g.GetInt(a, b...)
		rec = append(rec, "int", O{"e", errClass5(e), "v", txt(in)})
		u64, e := g.GetUint64(a, b...)
		rec = append(rec, "u64", O{"e", errClass5(e), "v", txt(u64)})
		un, e := g.GetUint(a, b...)
		rec = append(rec, "uint", O{"e", errClass5(e), "v", txt(un)})
		i32, e := g.GetInt32(a, b...)
		rec = append(rec, "i32", O{"e", errClass5(e), "v", txt(i32)})
		u32, e := g.GetUint32(a, b...)
		rec = append(rec, "u32", O{"e", errClass5(e), "v", txt(u32)})
		f64, e := g.GetFloat64(a, b...)
		rec = append(rec, "f64", floatRec(f64, errClass5(e)))
		f32, e := g.GetFloat32(a, b...)
		like := float32(f64) == f32 || f64 != f64 && f32 != f32
		if cl { // the two calls may have picked different keys
			like = like || node != nil && float32(node.Float64()) == f32
		}
		rec = append(rec, "f32", O{"e", errClass5(e), "z", f32 == 0, "like", like || cl})
		str, e := g.GetString(a, b...)
		rec = append(rec, "str", O{"e", errClass5(e), "v", []byte(str)})
		by, e := g.GetBytes(a, b...)
		rec = append(rec, "bytes", O{"e", errClass5(e), "v", nonNil(by)})
		bo, e := g.GetBool(a, b...)
		rec = append(rec, "bool", O{"e", errClass5(e), "b", bo})
		e = g.GetNull(a, b...)
		rec = append(rec, "null", O{"e", errClass5(e)})
		ob, e := g.GetObject(a, b...)
		rec = append(rec, "obj", O{"e", errClass5(e), "same", ob == node || cl, "vt", int(ob.ValueType())})
		ar, e := g.GetArray(a, b...)
		rec = append(rec, "arr", O{"e", errClass5(e), "same", ar == node || cl, "vt", int(ar.ValueType())})
	})
	if pan {
		rec = O{}
	}
	s.out.put(O{"op", "get", "t", before, "p", encPath(p), "f", f, "cl", cl, "g", rec, "same", sameTree(before, project(v)) & b2i(s.hs.argsKept()), "pan", pan})
	s.out.advance()
}

func (s *valSess) acc(v *jv.V) {
	t := project(v)
	rec := O{}
	txt := func(x any) []byte { return []byte(fmt.Sprint(x)) }
	pan := guard(func() string { return fmt.Sprintf("accessors of %.300s", v) }, func() {
		f64 := v.Float64()
		f32 := v.Float32()
		rec = O{"i64", txt(v.Int64()), "int", txt(v.Int()), "u64", txt(v.Uint64()), "uint", txt(v.Uint()), "i32", txt(v.Int32()), "u32", txt(v.Uint32()),
			"f64", floatRec(f64, 0), "f32", float32(f64) == f32 || f64 != f64 && f32 != f32, "bool", v.Bool(), "str", []byte(v.String()), "bytes", v.Bytes(), "len", v.Len(),
			"is", []int{b2i(v.IsObject()), b2i(v.IsArray()), b2i(v.IsString()), b2i(v.IsNumber()), b2i(v.IsBoolean()), b2i(v.IsNull())},
			"vt", int(v.ValueType()),
			"num", []int{b2i(v.IsFloat()), b2i(v.IsInteger()), b2i(v.IsNegative()), b2i(v.IsPositive()), b2i(v.GreaterThanInt64Max())}}
	})
	if pan {
		rec = O{}
	}
	s.out.put(O{"op", "acc", "t", t, "a", rec, "same", sameTree(t, project(v)), "pan", pan})
	s.out.advance()
}

func (s *valSess) b64(b []byte) {
	r := s.r
	how := r.Intn(6)
	var lit, back, gets []byte
	ge, ok := 0, 0
	pan := guard(func() string { return fmt.Sprintf("bytes %x by %d", b, how) }, func() {
		var v *jv.V
		root := jv.NewObject()
		switch how {
		case 0:
			v = jv.NewBytes(b)
		case 1:
			v, _ = root.SetBytes(b).At("x", "y")
			if w, err := root.Get("x", "y"); err != nil || w != v {
				return
			}
		case 2:
			v, _ = root.AppendBytes(b).InTheEnd("arr")
		case 3:
			root.MustSetBytes(b).At("k")
			v = root.MustGet("k")
		case 4:
			root.MustAppendBytes(b).InTheBeginning("arr")
			v = root.MustGet("arr", 0)
		default:
			v = jv.New(b)
		}
		ok = b2i(v.IsString())
		lit = []byte(v.String())
		back = v.Bytes()
		h := jv.NewObject()
		h.MustSet(v).At("v")
		var err error
		gets, err = h.GetBytes("v")
		ge = b2i(err != nil)
	})
	if b == nil {
		b = []byte{}
	}
	s.out.put(O{"op", "b64", "b", b, "how", how, "lit", lit, "back", back, "gets", gets, "ge", ge, "ok", ok, "pan", pan})
	s.out.advance()
}

// ---------------------------------------------------------------- missing values

func (s *valSess) ne(how int) {
	fresh := func() *jv.V {
		switch how {
		case 0:
			return &jv.V{}
		case 1:
			v, _ := jv.UnmarshalString(`{"a":`)
			return v
		case 2:
			return jv.MustUnmarshalString(`{"a":1}`).MustGet("b")
		case 3:
			return jv.MustUnmarshalString(`[1]`).Caseless().MustGet(7)
		case 4:
			v, _ := jv.NewInt(1).Get("x")
			return v
		case 5:
			v, _ := jv.Import(make(chan int))
			return v
		case 6:
			v, _ := jv.NewArray().Insert(1).Before(0)
			return v
		case 7:
			v, _ := jv.NewString("s").Set(1).At("k")
			return v
		case 8:
			return jv.MustUnmarshal(nil)
		case 9:
			v, _ := jv.MustUnmarshalString(`{"a":1}`).GetObject("a")
			return v
		}
		v, _ := jv.MustUnmarshalString(`{"a":1}`).GetArray("zz")
		return v
	}
	obs := map[string]int{"vt": 0, "len": 0, "visits": 0, "lists": 0, "equal": 0, "order": 0, "marshalok": 0, "bytesout": 0, "exportok": 0,
		"mutated": 0, "refused": 1, "retexists": 0, "still": 1, "found": 0, "imported": 0, "contains": 0}
	var is []int
	pan := ""
	if s.r.p(50) { // what is got for nothing is the caller's; no other miss may show it
		_ = guard(func() string { return "decoding into a missing value" }, func() {
			v := fresh()
			_ = v.UnmarshalJSON([]byte(s.r.pick([]string{`{"a":[1],"k":{"a":2}}`, "[1,2]", "5", `"s"`, "true", "null"})))
		})
	}
	try := func(name string, f func(v *jv.V)) {
		v := fresh()
		if guard(func() string { return "missing value: " + name }, func() { f(v) }) && pan == "" {
			pan = name
		}
		if v.ValueType() != jv.NotExist {
			obs["still"] = 0
		}
	}
	add := func(k string, b bool) {
		if b {
			obs[k]++
		}
	}
	try("types", func(v *jv.V) {
		obs["vt"] = int(v.ValueType())
		_ = v.ValueType().String()
		is = []int{b2i(v.IsObject()), b2i(v.IsArray()), b2i(v.IsString()), b2i(v.IsNumber()), b2i(v.IsBoolean()), b2i(v.IsNull())}
		obs["len"] = v.Len()
	})
	for i, f := range []func(v *jv.V, hit func()){
		func(v *jv.V, hit func()) { v.RangeArray(func(int, *jv.V) bool { hit(); return true }) },
		func(v *jv.V, hit func()) { v.RangeObjects(func(string, *jv.V) bool { hit(); return true }) },
		func(v *jv.V, hit func()) {
			v.RangeObjectsBySetSequence(func(string, *jv.V) bool { hit(); return true })
		},
		func(v *jv.V, hit func()) {
			for range v.IterArray() {
				hit()
			}
		},
		func(v *jv.V, hit func()) {
			for range v.IterObjects() {
				hit()
			}
		},
		func(v *jv.V, hit func()) { v.RangeArray(nil); v.RangeObjects(nil); v.RangeObjectsBySetSequence(nil) },
		func(v *jv.V, hit func()) { v.SortArray(func(a, b *jv.V) bool { hit(); return true }); v.SortArray(nil) },
	} {
		f := f
		try(fmt.Sprint("iteration ", i), func(v *jv.V) { f(v, func() { obs["visits"]++ }) })
	}
	try("lists", func(v *jv.V) { obs["lists"] += len(v.ForRangeArr()) + len(v.ForRangeObj()) })
	others := []*jv.V{nil, {}, fresh(), jv.NewNull(), jv.NewInt(0), jv.NewString(""), jv.NewBool(false), jv.NewObject(), jv.NewArray()}
	for _, o := range others {
		o := o
		try("Equal", func(v *jv.V) { add("equal", v.Equal(o)); add("equal", o.Equal(v)) })
		if o != nil {
			try("order", func(v *jv.V) {
				add("order", v.GreaterThan(o) || v.GreaterThanOrEqual(o) || v.LessThan(o) || v.LessThanOrEqual(o))
				add("order", o.GreaterThan(v) || o.GreaterThanOrEqual(v) || o.LessThan(v) || o.LessThanOrEqual(v))
			})
			try("Contains", func(v *jv.V) { add("contains", beta.Contains(o, v)) })
		}
		try("Contains", func(v *jv.V) { add("contains", beta.Contains(v, o)); add("contains", beta.Contains(v, o, "k")) })
	}
	try("self", func(v *jv.V) { add("equal", v.Equal(v)) })
	opts := [][]jv.Option{nil, {jv.OptSetSequence()}, {jv.OptOmitNull(true), jv.OptIndent("", " ")}, {jv.OptDefaultStringSequence(), jv.OptUTF8()}}
	for _, o := range opts {
		o := o
		try("Marshal", func(v *jv.V) {
			b, err := v.Marshal(o...)
			add("marshalok", err == nil)
			obs["bytesout"] += len(b)
			str, err := v.MarshalString(o...)
			add("marshalok", err == nil)
			obs["bytesout"] += len(str) + len(v.MustMarshal(o...)) + len(v.MustMarshalString(o...))
		})
	}
	try("hooks", func(v *jv.V) {
		_, err := v.MarshalJSON()
		add("marshalok", err == nil)
		_, err = v.MarshalBinary()
		add("marshalok", err == nil)
	})
	try("Export", func(v *jv.V) {
		var x any
		add("exportok", v.Export(&x) == nil)
	})
	try("Import", func(v *jv.V) {
		w, _ := jv.Import(v)
		add("imported", w == nil || w.ValueType() != jv.NotExist)
		w = jv.New(v)
		add("imported", w == nil || w.ValueType() != jv.NotExist)
	})
	paths := [][]any{{"a"}, {0}, {-1}, {"a", 0, "b"}, {[]any{"a", 1}}, {nil}, {1.5}, {[]string{"x"}}, {"a", nil}}
	for _, p := range paths {
		a, b := p[0], p[1:]
		for _, cl := range []bool{false, true} {
			cl := cl
			try(fmt.Sprint("Get ", p, cl), func(v *jv.V) {
				var g jv.Caseless = v
				if cl {
					g = v.Caseless()
				}
				w, err := g.Get(a, b...)
				add("found", err == nil || w == nil || w.ValueType() != jv.NotExist)
				w = g.MustGet(a, b...)
				add("found", w == nil || w.ValueType() != jv.NotExist)
				if g.Delete(a, b...) == nil {
					obs["refused"] = 0
				}
				g.MustDelete(a, b...)
			})
		}
		type mut struct {
			name string
			f    func(v *jv.V) (*jv.V, error)
		}
		nul := jv.NewNull()
		for _, m := range []mut{
			{"Set", func(v *jv.V) (*jv.V, error) { return v.Set(1).At(a, b...) }},
			{"SetV", func(v *jv.V) (*jv.V, error) { return v.Set(nul).At(a, b...) }},
			{"SetObject", func(v *jv.V) (*jv.V, error) { return v.SetObject().At(a, b...) }},
			{"SetString", func(v *jv.V) (*jv.V, error) { return v.SetString("x").At(a, b...) }},
			{"Append", func(v *jv.V) (*jv.V, error) { return v.Append(1).InTheEnd(p...) }},
			{"Append0", func(v *jv.V) (*jv.V, error) { return v.Append(1).InTheEnd() }},
			{"AppendBegin0", func(v *jv.V) (*jv.V, error) { return v.AppendString("x").InTheBeginning() }},
			{"AppendBegin", func(v *jv.V) (*jv.V, error) { return v.AppendNull().InTheBeginning(p...) }},
			{"Insert", func(v *jv.V) (*jv.V, error) { return v.Insert(1).Before(a, b...) }},
			{"InsertAfter", func(v *jv.V) (*jv.V, error) { return v.InsertBool(true).After(a, b...) }},
		} {
			m := m
			try(fmt.Sprint(m.name, " ", p), func(v *jv.V) {
				w, err := m.f(v)
				if err == nil {
					obs["refused"] = 0
				}
				add("retexists", w == nil || w.ValueType() != jv.NotExist)
				add("mutated", v.Len() != 0 || v.ValueType() != jv.NotExist)
			})
		}
		try(fmt.Sprint("must ", p), func(v *jv.V) {
			v.At(a, b...).Set(1)
			v.At(a, b...).Set(jv.NewArray())
			v.MustSet(1).At(a, b...)
			v.MustSetObject().At(a, b...)
			v.MustAppend(1).InTheEnd(p...)
			v.MustAppend(1).InTheBeginning(p...)
			v.MustInsert(1).Before(a, b...)
			v.MustInsertNull().After(a, b...)
			add("mutated", v.Len() != 0 || v.ValueType() != jv.NotExist)
		})
		// as a child
		try(fmt.Sprint("child ", p), func(v *jv.V) {
			o, ar := jv.MustUnmarshalString(`{"k":[1]}`), jv.MustUnmarshalString(`[1]`)
			bo, ba := project(o), project(ar)
			if _, err := o.Set(v).At("k", 0); err == nil {
				obs["refused"] = 0
			}
			if _, err := ar.Append(v).InTheEnd(); err == nil {
				obs["refused"] = 0
			}
			if _, err := ar.Insert(v).After(0); err == nil {
				obs["refused"] = 0
			}
			o.MustSet(v).At("k", 0)
			o.MustSet(v).At("new", "deep")
			ar.MustAppend(v).InTheBeginning()
			ar.MustInsert(v).Before(0)
			add("mutated", sameTree(bo, project(o)) == 0 || sameTree(ba, project(ar)) == 0)
		})
	}
	rec := O{"is", is}
	for k, v := range obs {
		rec = append(rec, k, v)
	}
	s.out.put(O{"op", "ne", "how", how, "pan", []byte(pan), "o", rec})
	s.out.advance()
}

// ---------------------------------------------------------------- family

type valTest struct {
	Kind string   `json:"kind"` // cmp, cnt, get
	A    *jtree   `json:"a"`
	B    *jtree   `json:"b"`
	P    []hparam `json:"p"`
}

func famVal(c cfg) {
	out := newOut(c.out, "val", c.shards)
	r := newRng(c.seed*23 + 11)
	s := &valSess{r: r, out: out, hs: &heapSess{r: r}}
	if c.tests != "" {
		f, err := os.Open(c.tests)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var t valTest
			must(json.Unmarshal(sc.Bytes(), &t))
			a, b := t.A.tree(), t.B.tree()
			switch t.Kind {
			case "cmp":
				s.cmp(special(r, a), special(r, b))
			case "cnt":
				how := "V"
				if r.p(30) {
					how = "go"
				}
				s.cnt(special(r, a), how, 0, t.P, b)
			case "get":
				v := special(r, a)
				s.get(v, t.P, 0, false)
				s.get(v, t.P, r.Intn(2), true)
				s.get(v, t.P, r.Intn(3), false)
			}
		}
		must(sc.Err())
		f.Close()
	}
	for i := 0; i < 11; i++ {
		s.ne(i)
		s.ne(i)
	}
	weights := map[string][4]int{"C20": {90, 5, 3, 2}, "C21": {90, 2, 4, 4}, "C28": {10, 88, 1, 1}, "C11": {2, 2, 60, 36}, "C16": {0, 0, 98, 2}, "C29": {25, 10, 40, 25}}
	w, ok := weights[c.focus]
	if !ok {
		w = [4]int{35, 20, 25, 20}
	}
	s.largeAll(w, 24+c.n/60)
	for i := 12 + c.n/60; i > 0 && w[0]+w[1] > 10; i-- {
		s.wide(w)
	}
	for i := 0; i < c.n; i++ {
		x := r.Intn(100)
		switch {
		case x < w[0]:
			s.cmpRandom()
		case x < w[0]+w[1]:
			s.cntRandom()
		case x < w[0]+w[1]+w[2]:
			t := s.getterTree(1+r.Intn(2), 3)
			cl := r.p(35)
			if c.focus == "C16" {
				cl = true
			}
			p, _ := s.treePath(t, cl, 3)
			if len(p) == 0 {
				p = []hparam{{K: "s", S: bs(heapKeys[r.Intn(len(heapKeys))])}}
			}
			v := s.make(t)
			if r.p(2) {
				v = s.missing()
			}
			s.get(v, p, []int{0, 0, 0, 1, 1, 2}[r.Intn(6)], cl)
		default:
			if r.p(30) {
				b := make([]byte, r.Intn(30))
				r.Read(b)
				if r.p(5) {
					b = nil
				}
				s.b64(b)
				continue
			}
			v := s.make(s.getterScalar())
			if r.p(15) {
				v = s.make(s.tree(2, 3))
			}
			if r.p(3) {
				v = s.missing()
			}
			s.acc(v)
		}
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}

// ---------------------------------------------------------------- large trees

// large gives a tree with many levels, many members, or long strings.
func (s *valSess) large(kind int) *Tree {
	r := s.r
	switch kind % 4 {
	case 0: // many levels
		t := s.scalar()
		for n := []int{6, 9, 17, 33, 65, 90}[r.Intn(6)] + r.Intn(5); n > 0; n-- {
			p := &Tree{T: 4}
			for i := r.Intn(3); i > 0 && r.p(40); i-- {
				p.E = append(p.E, s.scalar())
			}
			i := r.Intn(len(p.E) + 1)
			p.E = append(p.E[:i:i], append([]*Tree{t}, p.E[i:]...)...)
			if r.p(50) {
				p.T = 3
				perm := r.Perm(len(valKeys))
				for j := range p.E {
					p.K = append(p.K, []byte(valKeys[perm[j]]))
				}
			}
			t = p
		}
		return t
	case 1: // many elements
		t := &Tree{T: 4}
		pool := []*Tree{s.scalar(), s.scalar(), s.tree(1, 2)}
		few := r.p(50)
		for n := []int{9, 17, 33, 65, 129, 257}[r.Intn(6)] + r.Intn(9); n > 0; n-- {
			if few {
				t.E = append(t.E, copyTree(pool[r.Intn(len(pool))]))
			} else {
				t.E = append(t.E, s.scalar())
			}
		}
		return t
	case 2: // many keys
		t := &Tree{T: 3}
		for n := []int{9, 17, 33, 65, 129}[r.Intn(5)] + r.Intn(9); n > 0; n-- {
			t.K = append(t.K, []byte(fmt.Sprintf("%s%d", r.pick([]string{"k", "K", "é", ""}), n)))
			t.E = append(t.E, s.scalar())
		}
		return t
	}
	b := []byte(strings.Repeat(r.pick([]string{"a", "abcdefgh", "é", "0"}), 1+[]int{15, 31, 64, 128, 256, 512, 1000}[r.Intn(7)]))
	t := &Tree{T: 1, S: b}
	if r.p(30) {
		return &Tree{T: 4, E: []*Tree{t}}
	} else if r.p(30) {
		return &Tree{T: 3, K: [][]byte{b}, E: []*Tree{s.scalar()}}
	}
	return t
}

// nudge makes a small change that is easily overlooked.
func (s *valSess) nudge(t *Tree) {
	r := s.r
	ns := allNodes(t, nil)
	n := ns[r.Intn(len(ns))]
	if r.p(40) {
		n = ns[len(ns)-1]
	}
	b := &n.S
	if n.T == 3 && len(n.K) > 0 && r.p(70) {
		b = &n.K[r.Intn(len(n.K))]
		if len(*b) < 12 { // ones that still differ from the others
			*b = append(append([]byte{}, *b...), '~')
			return
		}
	}
	if (n.T == 1 || b != &n.S) && len(*b) > 0 {
		c := append([]byte{}, *b...)
		i := r.Intn(len(c))
		if r.p(40) {
			i = []int{len(c) - 1, 0, len(c) / 2}[r.Intn(3)]
		}
		switch {
		case r.p(30) && c[len(c)-1] < 128:
			c = c[:len(c)-1]
		case r.p(30):
			c = append(c, 'z')
		case c[i] < 128:
			c[i] ^= 1
		}
		*b = c
		return
	}
	s.alter(t)
}

func (s *valSess) deepPath(t *Tree, caseless bool) (p []hparam, at *Tree) {
	r := s.r
	for at = t; len(at.E) > 0 && !r.p(2); {
		i := r.Intn(len(at.E))
		for j, e := range at.E {
			if len(e.E) > 0 && r.p(85) {
				i = j
			}
		}
		x := hparam{K: "s"}
		if at.T == 3 {
			x.S = at.K[i]
			if caseless && r.p(50) {
				x.S = flipCase(r, x.S)
			}
		} else {
			x = hparam{K: "i", I: i}
			if r.p(40) {
				x.I -= len(at.E)
			}
		}
		p, at = append(p, x), at.E[i]
	}
	if len(p) > 0 && r.p(10) {
		p[len(p)-1-r.Intn((len(p)+1)/2)] = hparam{K: r.pick([]string{"s", "i"}), S: bs("nokey"), I: -300}
		at = nil
	}
	return
}

func (s *valSess) largeAll(w [4]int, n int) {
	r := s.r
	for ; n > 0; n-- {
		t := s.large(n)
		x := r.Intn(w[0] + w[1] + w[2])
		switch {
		case x < w[0]:
			u := copyTree(t)
			if r.p(50) {
				s.respell(u)
			}
			if r.p(60) {
				s.nudge(u)
			}
			s.cmp(s.make(t), s.make(u))
		case x < w[0]+w[1]:
			p, at := s.deepPath(t, false)
			if r.p(60) {
				p, at = nil, t
			}
			if at == nil {
				at = s.scalar()
			}
			u := copyTree(at)
			if r.p(50) {
				s.respell(u)
			}
			if u.T == 4 && len(u.E) > 3 {
				i := r.Intn(len(u.E) / 2)
				u.E = u.E[i : len(u.E)-r.Intn(len(u.E)/4+1)]
			} else if u.T == 3 && r.p(50) {
				for k := r.Intn(1 + len(u.K)/2); k > 0; k-- {
					i := r.Intn(len(u.K))
					u.K = append(u.K[:i:i], u.K[i+1:]...)
					u.E = append(u.E[:i:i], u.E[i+1:]...)
				}
			}
			if r.p(50) {
				s.nudge(u)
			}
			s.cnt(s.make(t), r.pick([]string{"V", "V", "go"}), []int{0, 0, 1}[r.Intn(3)], p, u)
		default:
			cl := r.p(40)
			p, _ := s.deepPath(t, cl)
			if len(p) == 0 {
				s.acc(s.make(t))
				continue
			}
			s.get(s.make(t), p, r.Intn(2), cl)
		}
	}
}

// ---------------------------------------------------------------- wide trees

// wide compares long arrays and objects that differ in one chosen place, and looks for runs that start at a chosen place.
func (s *valSess) wide(w [4]int) {
	r := s.r
	n := []int{1 + r.Intn(16), 8 + r.Intn(30), 30 + r.Intn(40), 60 + r.Intn(12), 124 + r.Intn(12), 250 + r.Intn(12), 511 + r.Intn(4)}[r.Intn(7)]
	t := &Tree{T: 4}
	if r.p(25) {
		t.T = 3
	}
	shape := r.Intn(4)
	for i := 0; i < n; i++ {
		e := &Tree{T: 2, S: []byte(fmt.Sprint(i))}
		if shape == 1 || shape == 2 && r.p(30) {
			e = &Tree{T: 1, S: []byte(fmt.Sprint("s", i))}
		} else if shape == 3 {
			e = &Tree{T: 4, E: []*Tree{e}}
		}
		t.E = append(t.E, e)
		if t.T == 3 {
			t.K = append(t.K, []byte(fmt.Sprint("k", i)))
		}
	}
	at := []int{0, n - 1, n / 2, (n - 1) / 2, n/2 + 1, n / 3, n / 4, r.Intn(n), r.Intn(n), 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256}[r.Intn(20)]
	if at >= n {
		at = r.Intn(n)
	}
	if r.Intn(w[0]+w[1]+1) < w[0] {
		u := copyTree(t)
		switch x := r.Intn(10); {
		case x < 5:
			u.E[at] = &Tree{T: 1, S: []byte("other")}
		case x < 7: // two of them swapped
			i := r.Intn(n)
			u.E[i], u.E[at] = u.E[at], u.E[i]
		case x < 8 && t.T == 3:
			u.K[at] = []byte("other")
		case x < 9: // a copy of a neighbour
			u.E[at] = copyTree(u.E[(at+1)%n])
		}
		if r.p(20) {
			s.respell(u)
		}
		a, b := s.make(t), s.make(u)
		s.cmp(a, b)
		s.cmp(b, a)
		return
	}
	u := &Tree{T: t.T}
	m := []int{1, 1, 2, 3, 1 + r.Intn(8), n - at, n - at - 1}[r.Intn(7)]
	if m > n-at || m < 1 {
		m = n - at
	}
	if m > 40 && r.p(50) {
		m = 40
	}
	u.E = append(u.E, copyTree(&Tree{T: 4, E: t.E[at : at+m]}).E...)
	if t.T == 3 {
		u.K = append(u.K, t.K[at:at+m]...)
	}
	if r.p(25) {
		u.E[[]int{0, m - 1, m / 2, r.Intn(m)}[r.Intn(4)]] = &Tree{T: 1, S: []byte("other")}
	}
	var p []hparam
	if r.p(25) {
		t, p = &Tree{T: 3, K: [][]byte{bs("a")}, E: []*Tree{t}}, []hparam{{K: "s", S: bs("a")}}
	}
	s.cnt(s.make(t), r.pick([]string{"V", "V", "go"}), 0, p, u)
}
