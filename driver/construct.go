package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Family "new": histories of constructing values and changing them (spec/JVNew.tla).

type newArg struct {
	G string `json:"g"`
	S bs     `json:"s"`
}

type newMember struct {
	K bs     `json:"k"`
	A newArg `json:"a"`
}

type newOp struct {
	Op  string      `json:"op"`
	Via string      `json:"via"`
	M   []newMember `json:"m"`
	I   int         `json:"i"`
	T   *jtree      `json:"t"`
}

type (
	newBool  bool
	newI     int
	newI8    int8
	newI64   int64
	newU     uint
	newU16   uint16
	newF     float64
	newF32   float32
	newText  string
	newBytes []byte
)

func (newI) String() string             { return "no" }
func (newText) String() string          { return "no" }
func (newI64) Error() string            { return "no" }
func (newText) GoString() string        { return "no" }
func (newBool) String() string          { return "no" }
func (newF) Format(s fmt.State, _ rune) { _, _ = s.Write([]byte("no")) }

func floatRec32(f float32) O {
	ff, lo, hi, ev := 1, "0", "0", 1
	switch {
	case f != f:
		ff = 2
	case math.IsInf(float64(f), 0):
		ff = 0
	default:
		lo, hi, ev = roundingInterval32(f)
	}
	return O{"ff", ff, "lo", []byte(lo), "hi", []byte(hi), "ev", ev, "neg", f < 0}
}

func floatRec64(f float64) O {
	ff, lo, hi, ev := 1, "0", "0", 1
	switch {
	case f != f:
		ff = 2
	case math.IsInf(f, 0):
		ff = 0
	default:
		lo, hi, ev = roundingInterval(f)
	}
	return O{"ff", ff, "lo", []byte(lo), "hi", []byte(hi), "ev", ev, "neg", f < 0}
}

func argO(g string, s []byte, w [][]byte, f L) O {
	if f == nil {
		f = L{}
	}
	return O{"g", g, "s", s, "w", w, "f", f}
}

// goArg is a Go value for an abstract argument, with its description.
func goArg(r *rng, a newArg) (any, O) {
	switch a.G {
	case "nil":
		return nil, argO("nil", nil, nil, nil)
	case "bool":
		b := a.S[0] == 1
		if r.p(30) {
			return newBool(b), argO("bool", a.S, nil, nil)
		}
		return b, argO("bool", a.S, nil, nil)
	case "string":
		if r.p(30) {
			return newText(a.S), argO("string", a.S, nil, nil)
		}
		return string(a.S), argO("string", a.S, nil, nil)
	case "int":
		d := argO("int", a.S, nil, nil)
		var ok []any
		if i, err := strconv.ParseInt(string(a.S), 10, 64); err == nil {
			ok = append(ok, i, int(i), newI(i), newI64(i))
			if int64(int8(i)) == i {
				ok = append(ok, int8(i), newI8(i))
			}
			if int64(int16(i)) == i {
				ok = append(ok, int16(i))
			}
			if int64(int32(i)) == i {
				ok = append(ok, int32(i))
			}
		}
		if u, err := strconv.ParseUint(string(a.S), 10, 64); err == nil {
			ok = append(ok, u, uint(u), newU(u))
			if uint64(uint8(u)) == u {
				ok = append(ok, uint8(u))
			}
			if uint64(uint16(u)) == u {
				ok = append(ok, uint16(u), newU16(u))
			}
			if uint64(uint32(u)) == u {
				ok = append(ok, uint32(u))
			}
		}
		return ok[r.Intn(len(ok))], d
	case "float":
		f, _ := strconv.ParseFloat(string(a.S), 64)
		g := float32(f)
		if r.p(35) && (float64(g) == f || f != f || !math.IsInf(float64(g), 0)) {
			d := argO("float", nil, nil, L{floatRec32(g), floatRec64(float64(g))})
			if r.p(40) {
				return newF32(g), d
			}
			return g, d
		}
		d := argO("float", nil, nil, L{floatRec64(f)})
		if r.p(30) {
			return newF(f), d
		}
		return f, d
	case "other":
		i := 7
		return []any{make(chan int), func() {}, complex(1, 2), struct{ C chan int }{}, map[struct{}]int{{}: 1},
				[]any{make(chan bool)}, map[string]any{"a": complex64(1)}, &[]func(){func() {}}, [1]chan int{}, struct{ F any }{&i}}[r.Intn(9)],
			argO("other", nil, nil, nil)
	}
	panic("DRIVER: argument " + a.G)
}

// basicOther are values NewObject leaves out.
func basicOther(r *rng) any {
	i := 7
	s := "x"
	return []any{&i, &s, []int{1}, []string{}, []byte("abc"), map[string]int{"a": 1}, map[string]any{}, jv.M{"a": 1}, struct{ A int }{1}, [2]int{}, func() {},
		make(chan int), complex(1, 1), jv.NewInt(3), &struct{}{}, json.RawMessage(`1`), json.Marshaler(jv.NewNull())}[r.Intn(17)]
}

type mkSess struct {
	r    *rng
	out  *Out
	vs   []*jv.V
	mine []func() // overwrite what was given to a constructor
	sh   int      // keys added
}

func (s *mkSess) all() L {
	l := L{}
	for _, v := range s.vs {
		l = append(l, project(v))
	}
	return l
}

func (s *mkSess) mk(o *newOp) {
	r := s.r
	var v *jv.V
	ms := L{}
	same := 1
	var f func()
	one := func() (any, O) {
		x, d := goArg(r, o.M[0].A)
		ms = L{O{"k", []byte{}, "a", d}}
		return x, d
	}
	desc := o.Via
	switch o.Via {
	case "NewObject":
		var m, keep jv.M
		if len(o.M) > 0 || r.p(70) {
			m = jv.M{}
		}
		for _, e := range o.M {
			var x any
			var d O
			if e.A.G == "other" {
				x, d = basicOther(r), argO("other", nil, nil, nil)
			} else {
				x, d = goArg(r, e.A)
			}
			m[string(e.K)] = x
			ms = append(ms, O{"k", []byte(e.K), "a", d})
		}
		keep = jv.M{}
		for k, x := range m {
			keep[k] = x
		}
		desc = fmt.Sprintf("NewObject(%#v)", m)
		f = func() {
			if m == nil && r.p(50) {
				v = jv.NewObject()
			} else {
				v = jv.NewObject(m)
			}
			if len(m) != len(keep) {
				same = 0
			}
			for k, x := range keep {
				y, ok := m[k]
				if !ok || reflect.TypeOf(x) != reflect.TypeOf(y) {
					same = 0
				}
				if x != nil && reflect.TypeOf(x).Comparable() && x == x && x != y {
					same = 0
				}
			}
		}
		s.mine = append(s.mine, func() {
			for k := range m {
				m[k] = "overwritten"
			}
			if m != nil {
				m["more"] = 1
			}
		})
	case "New":
		x, _ := one()
		desc = fmt.Sprintf("New(%#v)", x)
		f = func() { v = jv.New(x) }
	case "NewNull":
		one()
		f = func() { v = jv.NewNull() }
	case "NewArray":
		ms = L{O{"k", []byte{}, "a", argO("array", nil, nil, nil)}}
		f = func() { v = jv.NewArray() }
	case "NewBool":
		one()
		f = func() { v = jv.NewBool(o.M[0].A.S[0] == 1) }
	case "NewString":
		one()
		b := append([]byte(nil), o.M[0].A.S...)
		str := string(b)
		desc = fmt.Sprintf("NewString(%q)", str)
		f = func() { v = jv.NewString(str) }
	case "NewBytes":
		b := append([]byte(nil), o.M[0].A.S...)
		if len(b) == 0 && r.p(50) {
			b = nil
		}
		ms = L{O{"k", []byte{}, "a", argO("bytes", o.M[0].A.S, nil, nil)}}
		desc = fmt.Sprintf("NewBytes(%q)", b)
		f = func() {
			v = jv.NewBytes(b)
			same = b2i(string(b) == string(o.M[0].A.S))
		}
		s.mine = append(s.mine, func() { clobber(b) })
	case "NewInt", "NewUint": // any integer constructor that can take it
		one()
		var fs []func()
		if i, err := strconv.ParseInt(string(o.M[0].A.S), 10, 64); err == nil {
			fs = append(fs, func() { v = jv.NewInt64(i) }, func() { v = jv.NewInt(int(i)) })
			if int64(int32(i)) == i {
				fs = append(fs, func() { v = jv.NewInt32(int32(i)) })
			}
		}
		if u, err := strconv.ParseUint(string(o.M[0].A.S), 10, 64); err == nil {
			fs = append(fs, func() { v = jv.NewUint64(u) }, func() { v = jv.NewUint(uint(u)) })
			if uint64(uint32(u)) == u {
				fs = append(fs, func() { v = jv.NewUint32(uint32(u)) })
			}
		}
		f = fs[r.Intn(len(fs))]
		desc = fmt.Sprintf("New(U)Int(%s)", o.M[0].A.S)
	case "NewFloat64":
		x, _ := strconv.ParseFloat(string(o.M[0].A.S), 64)
		desc = fmt.Sprintf("NewFloat64(%v)", x)
		ms = L{O{"k", []byte{}, "a", argO("float", nil, nil, L{floatRec64(x)})}}
		f = func() { v = jv.NewFloat64(x) }
	case "NewFloat32":
		y, _ := strconv.ParseFloat(string(o.M[0].A.S), 32)
		x := float32(y)
		desc = fmt.Sprintf("NewFloat32(%v)", x)
		ms = L{O{"k", []byte{}, "a", argO("float", nil, nil, L{floatRec32(x)})}}
		f = func() { v = jv.NewFloat32(x) }
	case "NewFloat64f", "NewFloat32f":
		bits := 64
		if o.Via == "NewFloat32f" {
			bits = 32
		}
		x, _ := strconv.ParseFloat(string(o.M[0].A.S), bits)
		format := "feEgGfeEgGxbtXpqF\x00"[r.Intn(18)]
		prec := r.rangeI(-1, 18)
		if r.p(5) {
			prec = r.rangeI(19, 60)
		}
		asked := format
		switch format {
		case 'f', 'e', 'E', 'g', 'G':
		default:
			asked = 'g'
		}
		w := [][]byte{[]byte(strconv.FormatFloat(x, asked, prec, 64))}
		if bits == 32 {
			w = append(w, []byte(strconv.FormatFloat(x, asked, prec, 32)))
		}
		ms = L{O{"k", []byte{}, "a", argO("text", nil, w, nil)}}
		desc = fmt.Sprintf("%s(%v, %q, %d)", o.Via, x, format, prec)
		f = func() {
			if bits == 32 {
				v = jv.NewFloat32f(float32(x), format, prec)
			} else {
				v = jv.NewFloat64f(x, format, prec)
			}
		}
	default:
		panic("DRIVER: constructor " + o.Via)
	}
	pan := guard(func() string { return desc }, f)
	ret := 0
	if v != nil {
		ret = len(s.vs) + 1
		for i, w := range s.vs {
			if w == v {
				ret = i + 1
			}
		}
		if ret > len(s.vs) {
			s.vs = append(s.vs, v)
		}
	}
	all := L{}
	if guard(func() string { return "listing after " + desc }, func() { all = s.all() }) {
		pan = true
	}
	s.out.put(O{"op", "mk", "via", o.Via, "m", ms, "ret", ret, "same", same, "pan", pan, "all", all})
}

// chg turns value i into t, in place.
func (s *mkSess) chg(i int, t *Tree) {
	v := s.vs[i-1]
	all := L{}
	pan := guard(func() string { return "UnmarshalJSON" }, func() {
		must(v.UnmarshalJSON(treeText(t, nil)))
		all = s.all()
	})
	s.out.put(O{"op", "chg", "i", i, "t", t, "pan", pan, "all", all})
}

// grow sets a member or appends an element.
func (s *mkSess) grow(i int) {
	v := s.vs[i-1]
	t := project(v)
	all := L{}
	switch v.ValueType() {
	case jv.Object:
		s.sh++
		k := "added" + strconv.Itoa(s.sh)
		if len(t.K) > 0 && s.r.p(40) { // set one again: it moves to the end
			j := s.r.Intn(len(t.K))
			k = string(t.K[j])
			t.K = append(t.K[:j:j], t.K[j+1:]...)
			t.E = append(t.E[:j:j], t.E[j+1:]...)
		} else if len(t.K) > 0 && s.r.p(30) {
			j := s.r.Intn(len(t.K))
			gone := string(t.K[j])
			t.K = append(t.K[:j:j], t.K[j+1:]...)
			t.E = append(t.E[:j:j], t.E[j+1:]...)
			pan := guard(func() string { return "Delete" }, func() {
				must(v.Delete(gone))
				all = s.all()
			})
			s.out.put(O{"op", "chg", "i", i, "t", t, "pan", pan, "all", all})
			return
		}
		t.K = append(t.K, []byte(k))
		t.E = append(t.E, &Tree{T: int(jv.String), S: []byte("w")})
		pan := guard(func() string { return "Set" }, func() {
			v.MustSetString("w").At(k)
			all = s.all()
		})
		s.out.put(O{"op", "chg", "i", i, "t", t, "pan", pan, "all", all})
	case jv.Array:
		t.E = append(t.E, &Tree{T: int(jv.Null)})
		pan := guard(func() string { return "Append" }, func() {
			v.MustAppendNull().InTheEnd()
			all = s.all()
		})
		s.out.put(O{"op", "chg", "i", i, "t", t, "pan", pan, "all", all})
	default:
		s.chg(i, &Tree{T: int(jv.Array), E: []*Tree{{T: int(jv.Number), S: []byte("1")}}})
	}
}

func (s *mkSess) clob() {
	all := L{}
	pan := guard(func() string { return "overwriting arguments" }, func() {
		for _, f := range s.mine {
			f()
		}
		all = s.all()
	})
	s.mine = nil
	s.out.put(O{"op", "clob", "pan", pan, "all", all})
}

func describeV(out *Out, v *jv.V) {
	t := project(v)
	str, name := "", ""
	pan := guard(func() string { return "String" }, func() {
		str = v.String()
		name = v.ValueType().String()
	})
	if v.ValueType() == jv.NotExist {
		name = ""
	}
	out.put(O{"op", "str", "t", t, "s", []byte(str), "name", []byte(name), "same", sameTree(t, project(v)), "pan", pan})
}

func (s *mkSess) reset() {
	s.vs, s.mine = nil, nil
	s.out.put(O{"op", "reset"})
}

func (s *mkSess) arg() newArg {
	r := s.r
	switch r.Intn(12) {
	case 0:
		return newArg{G: "nil"}
	case 1:
		return newArg{G: "bool", S: bs{byte(r.Intn(2))}}
	case 2, 3:
		g := &heapGen{heapSess: &heapSess{r: r}, keys: heapKeys}
		t := g.scalar()
		if r.p(30) {
			b := make([]byte, r.Intn(20))
			if r.p(4) {
				b = make([]byte, 200+r.Intn(4000))
			}
			r.Read(b)
			return newArg{G: "string", S: b}
		}
		return newArg{G: "string", S: bs(t.S)}
	case 4, 5, 6:
		i := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MinInt32 - 1, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, int64(r.Uint64()), int64(r.Uint64()) >> uint(r.Intn(64)), int64(r.rangeI(-300, 300))}[r.Intn(21)]
		return newArg{G: "int", S: bs(strconv.FormatInt(i, 10))}
	case 7:
		u := []uint64{math.MaxUint64, math.MaxInt64 + 1, math.MaxUint32, math.MaxUint32 + 1, r.Uint64(), 10000000000000000000}[r.Intn(6)]
		return newArg{G: "int", S: bs(strconv.FormatUint(u, 10))}
	case 8, 9, 10:
		f := randFloat(r)
		switch r.Intn(6) {
		case 0:
			f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
		case 1:
			f = float64(float32(r.rangeI(-1000, 1000)) / float32(r.rangeI(1, 100)))
		case 2:
			f = float64(r.rangeI(-1000, 1000)) / 10
		}
		return newArg{G: "float", S: bs(strconv.FormatFloat(f, 'g', -1, 64))}
	}
	return newArg{G: "other"}
}

func (s *mkSess) call() *newOp {
	r := s.r
	o := &newOp{Op: "mk"}
	pick := func(g string) newArg {
		for {
			if a := s.arg(); a.G == g {
				return a
			}
		}
	}
	set := func(a newArg) { o.M = []newMember{{A: a}} }
	switch r.Intn(16) {
	case 0:
		o.Via = "New"
		set(s.arg())
	case 1:
		o.Via = "NewNull"
		set(newArg{G: "nil"})
	case 2:
		o.Via = "NewArray"
		set(newArg{G: "array"})
	case 3:
		o.Via = "NewBool"
		set(pick("bool"))
	case 4:
		o.Via = "NewString"
		set(pick("string"))
	case 5:
		o.Via = "NewBytes"
		b := make([]byte, []int{0, 1, 2, 3, 4, 5, 6, 47, 48, 49, r.Intn(200), 500 + r.Intn(1000)}[r.Intn(12)])
		if r.p(3) {
			b = make([]byte, 1500+r.Intn(7000))
		}
		r.Read(b)
		set(newArg{G: "bytes", S: b})
	case 6, 7:
		o.Via = "NewInt"
		set(pick("int"))
	case 8:
		o.Via = "NewFloat64"
		set(pick("float"))
	case 9:
		o.Via = "NewFloat32"
		set(pick("float"))
	case 10:
		o.Via = "NewFloat64f"
		set(pick("float"))
	case 11:
		o.Via = "NewFloat32f"
		set(pick("float"))
	default:
		o.Via = "NewObject"
		n := []int{0, 1, 2, 3, 5, 8, 9, 17, 40}[r.Intn(9)]
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			k := heapKeys[r.Intn(len(heapKeys))]
			if r.p(40) {
				k += strconv.Itoa(r.Intn(40))
			}
			if r.p(3) {
				k = ""
			}
			if used[k] {
				continue
			}
			used[k] = true
			o.M = append(o.M, newMember{K: bs(k), A: s.arg()})
		}
	}
	return o
}

func famNew(c cfg) {
	out := newOut(c.out, "new", c.shards)
	r := newRng(c.seed*41 + 17)
	s := &mkSess{r: r, out: out}
	if c.tests != "" {
		f, err := os.Open(c.tests)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var ops []*newOp
			must(json.Unmarshal(sc.Bytes(), &ops))
			s.reset()
			for _, o := range ops {
				if o.Op == "mk" {
					s.mk(o)
				} else if o.I <= len(s.vs) {
					s.chg(o.I, o.T.tree())
				}
			}
			out.advance()
		}
		must(sc.Err())
		f.Close()
	}
	g := &heapGen{heapSess: &heapSess{r: r}, keys: heapKeys}
	for done := 0; done < c.n; {
		s.reset()
		var last *newOp
		for n := 6 + r.Intn(10); n > 0; n-- {
			done++
			live := 0
			if len(s.vs) > 0 {
				live = 1 + r.Intn(len(s.vs))
				if s.vs[live-1].ValueType() == jv.NotExist {
					live = 0
				}
			}
			switch {
			case live > 0 && r.p(15):
				s.chg(live, g.tree(1, 3))
			case live > 0 && r.p(25):
				s.grow(live)
			case r.p(10):
				s.clob()
			case last != nil && r.p(30):
				s.mk(last)
			default:
				last = s.call()
				s.mk(last)
			}
			if r.p(15) {
				t := g.tree(r.Intn(4), 1+r.Intn(5))
				v := build(r, t)
				if r.p(30) && len(s.vs) > 0 {
					v = s.vs[r.Intn(len(s.vs))]
				}
				if v.Len() < 12 {
					describeV(out, v)
				}
			}
		}
		out.advance()
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}
