package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// bs is a byte string written as an array of numbers.
type bs []byte

func (b *bs) UnmarshalJSON(t []byte) error {
	var x []int
	if err := json.Unmarshal(t, &x); err != nil {
		return err
	}
	*b = make([]byte, len(x))
	for i, c := range x {
		(*b)[i] = byte(c)
	}
	return nil
}

type jtree struct {
	T int      `json:"t"`
	S bs       `json:"s"`
	K []bs     `json:"k"`
	E []*jtree `json:"e"`
}

func (t *jtree) tree() *Tree {
	if t == nil {
		return &Tree{}
	}
	r := &Tree{T: t.T, S: t.S}
	for _, k := range t.K {
		r.K = append(r.K, k)
	}
	for _, e := range t.E {
		r.E = append(r.E, e.tree())
	}
	return r
}

type hparam struct {
	K string `json:"k"` // s, i, b
	S bs     `json:"s"`
	I int    `json:"i"`
}

type hchild struct {
	ID    int    `json:"id"` // >0 node, 0 new value t, -1 refused, -5 Go value around nodes
	J     *jtree `json:"t"`
	T     *Tree  `json:"-"`
	Shape string `json:"shape"`
	Srcs  []int  `json:"srcs"`
}

type hop struct {
	Op  string   `json:"op"`
	R   int      `json:"r"`
	P   []hparam `json:"p"`
	F   int      `json:"f"` // 0 variadic, 1 one slice, 2 slice and extra parameters
	C   hchild   `json:"c"`
	Via string   `json:"via"`
	N   int      `json:"n"`
	B   bs       `json:"b"`
	Lax bool     `json:"-"` // no listing afterwards

	// Times is how often the call was already made just before: setting the same
	// node at the same key again changes nothing (MCDoc's SetTwice).
	Times int `json:"-"`

	// Mut is what the callback of an iteration does to the child it is given:
	// 1 replaces it by node C.ID, 2 deletes it (objects).
	Mut int `json:"mut"`

	Form int `json:"-"` // which of the typed forms of a number, 0: any
}

type image struct {
	t int
	s []byte
	k [][]byte
	e []int
}

func (a *image) same(b *image) bool {
	if a.t != b.t || !bytes.Equal(a.s, b.s) || len(a.k) != len(b.k) || len(a.e) != len(b.e) {
		return false
	}
	for i := range a.k {
		if !bytes.Equal(a.k[i], b.k[i]) {
			return false
		}
	}
	for i := range a.e {
		if a.e[i] != b.e[i] {
			return false
		}
	}
	return true
}

type keptBytes struct {
	live []byte
	copy []byte
}
type keptString struct {
	live string
	copy []byte
}
type keptArr struct{ live, copy []*jv.V }
type keptObj struct{ live, copy map[string]*jv.V }

type heapSess struct {
	r      *rng
	out    *Out
	nodes  []*jv.V
	ids    map[*jv.V]int
	imgs   []*image
	stale  bool
	broken bool
	kb     []keptBytes
	ks     []keptString
	ka     []keptArr
	ko     []keptObj
	rep    *jv.V // node kept alive for snapshot tampering
	args   []any // the parameters of the call, and how they looked
	look   string
}

func newSess(r *rng, out *Out) *heapSess {
	s := &heapSess{r: r, out: out, ids: map[*jv.V]int{}, rep: jv.NewString("foreign")}
	out.put(O{"op", "reset"})
	return s
}

func (s *heapSess) register(v *jv.V) int {
	if id, ok := s.ids[v]; ok {
		return id
	}
	s.nodes = append(s.nodes, v)
	s.imgs = append(s.imgs, nil)
	s.ids[v] = len(s.nodes)
	return len(s.nodes)
}

// list projects every known node, registering new ones breadth first.
func (s *heapSess) list() L {
	d := L{}
	for i := 0; i < len(s.nodes); i++ {
		if len(s.nodes) > 5000 {
			break // runaway
		}
		v := s.nodes[i]
		m := &image{t: int(v.ValueType())}
		switch v.ValueType() {
		case jv.String, jv.Number:
			m.s = append([]byte(nil), v.String()...)
		case jv.Boolean:
			m.s = []byte{byte(b2i(v.Bool()))}
		case jv.Array:
			v.RangeArray(func(_ int, c *jv.V) bool {
				m.e = append(m.e, s.register(c))
				return true
			})
		case jv.Object:
			v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool {
				m.k = append(m.k, []byte(k))
				m.e = append(m.e, s.register(c))
				return true
			})
		}
		if s.imgs[i] == nil || !s.imgs[i].same(m) {
			s.imgs[i] = m
			d = append(d, O{"id", i + 1, "n", O{"t", m.t, "s", m.s, "k", m.k, "e", m.e}})
		}
	}
	s.stale = false
	return d
}

func errClass(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, jv.ErrNotFound):
		return 1
	case errors.Is(err, jv.ErrOutOfRange):
		return 2
	case errors.Is(err, jv.ErrTypeNotMatch):
		return 4
	}
	return 3
}

func (s *heapSess) idOf(v *jv.V) int {
	if v == nil {
		return -1
	}
	if id, ok := s.ids[v]; ok {
		return id
	}
	if v.ValueType() == jv.NotExist {
		return 0
	}
	return -9
}

type myStr string
type myIdx int8

// types whose String method says something else than their value
type sayStr string

func (sayStr) String() string               { return "a" }
func (sayStr) Error() string                { return "b" }
func (sayStr) MarshalText() ([]byte, error) { return []byte("c"), nil }

type sayInt int

func (sayInt) String() string               { return "a" }
func (sayInt) MarshalText() ([]byte, error) { return []byte("b"), nil }

type sayUint uint32

func (sayUint) String() string { return "b" }

type sayNone struct{ S string }

func (sayNone) String() string               { return "a" }
func (sayNone) Error() string                { return "k" }
func (sayNone) MarshalText() ([]byte, error) { return []byte("A"), nil }

type sayFloat float64

func (sayFloat) String() string { return "a" }

type sayBool bool

func (sayBool) String() string { return "a" }

func (s *heapSess) param(p hparam) any {
	switch p.K {
	case "s":
		if s.r.p(15) {
			return myStr(p.S)
		}
		if s.r.p(5) {
			return sayStr(p.S)
		}
		return string(p.S)
	case "i":
		i := p.I
		if i >= 2000000000 {
			low := s.r.rangeI(-3, 4) // what is left of it in a narrower integer
			return []any{uint64(math.MaxUint64), int64(math.MaxInt64), uint64(1 << 63), uint(math.MaxUint), i,
				1<<32 + low, uint64(1<<33 + 4 + low), int64(1<<40 + low), 1<<31 + low + 3, uint32(1<<31 + low + 3), 1<<62 + low}[s.r.Intn(11)]
		}
		if i <= -2000000000 {
			low := s.r.rangeI(-3, 4)
			return []any{int64(math.MinInt64), int32(math.MinInt32), i, -1<<32 + low, int64(-1<<40 + low), -1<<31 + low - 4, -1<<63 + 3 + low}[s.r.Intn(7)]
		}
		switch s.r.Intn(18) {
		case 14:
			return sayInt(i)
		case 15:
			return time.Duration(i)
		case 16:
			if i >= 0 {
				return sayUint(i)
			}
		case 0:
			return int64(i)
		case 1:
			return int32(i)
		case 2:
			return int16(i)
		case 3:
			if i >= -128 && i < 128 {
				return int8(i)
			}
		case 4:
			if i >= -128 && i < 128 {
				return myIdx(i)
			}
		case 5:
			if i >= 0 {
				return uint(i)
			}
		case 6:
			if i >= 0 {
				return uint64(i)
			}
		case 7:
			if i >= 0 && i < 256 {
				return uint8(i)
			}
		case 8:
			if i >= 0 {
				return uint32(i)
			}
		case 9:
			if i >= 0 {
				return uint16(i)
			}
		}
		return i
	}
	return []any{nil, 1.5, true, struct{}{}, float32(0), map[string]int{}, (*int)(nil), jv.NewInt(1), 'x' == 'y', complex(1, 1),
		sayNone{}, &sayNone{}, sayFloat(1), sayBool(true), errors.New("a"), jv.NewString("a"), &p.I, jv.NewArray().IsArray}[s.r.Intn(18)]
}

// params renders a path in one of its forms.
func (s *heapSess) params(o *hop) []any {
	ps := s.params1(o)
	ps = append(make([]any, 0, len(ps)+2), ps...)
	full := ps[:cap(ps)]
	for i := len(ps); i < len(full); i++ {
		full[i] = "not a parameter"
	}
	s.args, s.look = full, fmt.Sprintf("%#v", full)
	return ps
}

// argsKept tells whether the parameters are as they were before the call.
func (s *heapSess) argsKept() bool { return s.args == nil || s.look == fmt.Sprintf("%#v", s.args) }

func (s *heapSess) params1(o *hop) []any {
	var ps []any
	allS, allI := len(o.P) > 0, len(o.P) > 0
	for _, p := range o.P {
		ps = append(ps, s.param(p))
		allS = allS && p.K == "s"
		allI = allI && p.K == "i" && p.I < 2000000000 && p.I > -2000000000
	}
	if o.F == 0 {
		return ps
	}
	var whole any = ps
	if allS && s.r.p(50) {
		var x []string
		for _, p := range o.P {
			x = append(x, string(p.S))
		}
		whole = x
		if s.r.p(30) {
			var y []myStr
			for _, p := range o.P {
				y = append(y, myStr(p.S))
			}
			whole = y
		}
	} else if allI && s.r.p(50) {
		var x []int
		for _, p := range o.P {
			x = append(x, p.I)
		}
		whole = s.intSlice(x)
	} else if len(o.P) == 2 && s.r.p(50) {
		whole = [2]any{ps[0], ps[1]}
	} else if len(o.P) == 1 && s.r.p(50) {
		whole = [1]any{ps[0]}
	}
	if o.F == 2 {
		return []any{whole, []any{"x", 0, nil}[s.r.Intn(3)]}
	}
	return []any{whole}
}

type myIndex int16

// intSlice gives a path of indices as one slice or array of one of the integer types.
func (s *heapSess) intSlice(x []int) any {
	small, neg := true, false
	for _, i := range x {
		small = small && i > -128 && i < 128
		neg = neg || i < 0
	}
	ts := []any{int(0), int32(0), int64(0)}
	if small {
		ts = append(ts, int8(0), myIndex(0))
		if !neg {
			ts = append(ts, uint8(0), uint16(0), uint32(0), uint64(0), uint(0))
		}
	}
	t := reflect.TypeOf(ts[s.r.Intn(len(ts))])
	var v reflect.Value
	if s.r.p(30) {
		v = reflect.New(reflect.ArrayOf(len(x), t)).Elem()
	} else {
		v = reflect.MakeSlice(reflect.SliceOf(t), len(x), len(x)+1)
	}
	for i, n := range x {
		v.Index(i).Set(reflect.ValueOf(n).Convert(t))
	}
	return v.Interface()
}

// goValue turns a tree into plain Go data; ok is false if order would be lost.
func goValue(r *rng, t *Tree) (any, bool) {
	switch t.T {
	case int(jv.String):
		return string(t.S), true
	case int(jv.Number):
		if i, err := strconv.Atoi(string(t.S)); err == nil {
			if i > 0 && i < 100 && r.p(50) {
				return []any{uint8(i), int8(i), uint(i), int64(i), float64(i), uint32(i)}[r.Intn(6)], true
			}
			return i, true
		}
		f, err := strconv.ParseFloat(string(t.S), 64)
		return f, err == nil && strconv.FormatFloat(f, 'f', -1, 64) == string(t.S)
	case int(jv.Boolean):
		return t.S[0] == 1, true
	case int(jv.Null):
		return nil, true
	case int(jv.Array):
		x := make([]any, len(t.E))
		for i, c := range t.E {
			y, ok := goValue(r, c)
			if !ok {
				return nil, false
			}
			x[i] = y
		}
		return x, true
	case int(jv.Object):
		if len(t.K) > 1 {
			return nil, false
		}
		m := map[string]any{}
		for i, c := range t.E {
			y, ok := goValue(r, c)
			if !ok {
				return nil, false
			}
			m[string(t.K[i])] = y
		}
		return m, true
	}
	return nil, false
}

// build makes a detached value through constructors and setters.
func build(r *rng, t *Tree) *jv.V {
	switch t.T {
	case int(jv.String):
		return jv.NewString(string(t.S))
	case int(jv.Number):
		if i, err := strconv.ParseInt(string(t.S), 10, 64); err == nil {
			switch r.Intn(3) {
			case 0:
				return jv.NewInt64(i)
			case 1:
				return jv.New(i)
			}
			return jv.NewInt(int(i))
		}
		return jv.MustUnmarshal(t.S)
	case int(jv.Boolean):
		return jv.NewBool(t.S[0] == 1)
	case int(jv.Null):
		return jv.NewNull()
	case int(jv.Array):
		a := jv.NewArray()
		for _, c := range t.E {
			a.MustAppend(build(r, c)).InTheEnd()
		}
		return a
	case int(jv.Object):
		o := jv.NewObject()
		for i, c := range t.E {
			o.MustSet(build(r, c)).At(string(t.K[i]))
		}
		return o
	}
	return &jv.V{}
}

func treeText(t *Tree, b []byte) []byte {
	switch t.T {
	case int(jv.String):
		return appendJSONString(b, t.S)
	case int(jv.Number):
		return append(b, t.S...)
	case int(jv.Boolean):
		return strconv.AppendBool(b, t.S[0] == 1)
	case int(jv.Array):
		b = append(b, '[')
		for i, c := range t.E {
			if i > 0 {
				b = append(b, ',')
			}
			b = treeText(c, b)
		}
		return append(b, ']')
	case int(jv.Object):
		b = append(b, '{')
		for i, c := range t.E {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendJSONString(b, t.K[i])
			b = append(b, ':')
			b = treeText(c, b)
		}
		return append(b, '}')
	}
	return append(b, "null"...)
}

func appendJSONString(b, s []byte) []byte {
	b = append(b, '"')
	for _, c := range s {
		if c == '"' || c == '\\' {
			b = append(b, '\\', c)
		} else if c < 32 {
			b = append(b, fmt.Sprintf("\\u%04x", c)...)
		} else {
			b = append(b, c)
		}
	}
	return append(b, '"')
}

type structV struct {
	A int   `json:"a"`
	B *jv.V `json:"b"`
}
type embX struct {
	X *jv.V `json:"x"`
	Y int   `json:"y"`
}
type embV struct {
	embX
	Z *jv.V `json:"z"`
}

func (s *heapSess) shaped(c hchild) any {
	vs := make([]*jv.V, len(c.Srcs))
	for i, id := range c.Srcs {
		vs[i] = s.nodes[id-1]
	}
	switch c.Shape {
	case "v":
		return vs[0]
	case "slice":
		return vs
	case "any":
		x := []any{1}
		for _, v := range vs {
			x = append(x, v)
		}
		return x
	case "map":
		if s.r.p(50) {
			return map[string]any{"k": vs[0]}
		}
		return map[string]*jv.V{"k": vs[0]}
	case "struct":
		if s.r.p(50) {
			return &structV{1, vs[0]}
		}
		return structV{1, vs[0]}
	case "embed":
		return embV{embX{vs[0], 1}, vs[len(vs)-1]}
	}
	panic("shape " + c.Shape)
}

type tooDeepBad struct {
	A int
	B chan int
}

func (s *heapSess) refused() any {
	switch s.r.Intn(8) {
	case 0:
		return (*jv.V)(nil)
	case 1:
		return &jv.V{}
	case 2:
		return make(chan int)
	case 3:
		return func() {}
	case 4:
		return map[string]any{"a": 1, "b": complex(1, 2)}
	case 5:
		return []any{1, []any{make(chan int)}}
	case 6:
		return tooDeepBad{1, make(chan int)}
	}
	return map[float64]int{1: 1}
}

// child gives the Go value handed to Set, Append, Insert.
func (s *heapSess) child(o *hop) any {
	c := &o.C
	switch {
	case c.ID > 0:
		return s.nodes[c.ID-1]
	case c.ID == -1:
		return s.refused()
	case c.ID == -5:
		return s.shaped(*c)
	}
	if c.T.T == int(jv.Null) && s.r.p(40) {
		return nil
	}
	if s.r.p(50) {
		if x, ok := goValue(s.r, c.T); ok && x != nil {
			return x
		}
	}
	return build(s.r, c.T)
}

func mustID(o *hop, v *jv.V, err error, s *heapSess) (int, *jv.V) { return errClass(err), v }

// typedSet performs the typed variants; false if there is none for the value.
func (s *heapSess) typedSet(v *jv.V, o *hop, ps []any) (ret *jv.V, e int, done bool) {
	t := o.C.T
	if o.C.ID != 0 || len(ps) == 0 && o.Op != "app" {
		return nil, 0, false
	}
	must := strings.HasPrefix(o.Via, "Must")
	type kind struct {
		set jv.Setter
		app jv.Appender
		ins jv.Inserter
		ms  jv.MustSetter
		ma  jv.MustAppender
		mi  jv.MustInserter
	}
	var k kind
	switch {
	case t.T == int(jv.String):
		str := string(t.S)
		if b, err := base64.StdEncoding.DecodeString(str); err == nil && len(b) > 0 && o.Op != "ins" {
			o.Via += "Bytes"
			k = kind{set: v.SetBytes(b), app: v.AppendBytes(b), ms: v.MustSetBytes(b), ma: v.MustAppendBytes(b)}
		} else {
			k = kind{v.SetString(str), v.AppendString(str), v.InsertString(str), v.MustSetString(str), v.MustAppendString(str), v.MustInsertString(str)}
		}
	case t.T == int(jv.Boolean):
		b := t.S[0] == 1
		k = kind{v.SetBool(b), v.AppendBool(b), v.InsertBool(b), v.MustSetBool(b), v.MustAppendBool(b), v.MustInsertBool(b)}
	case t.T == int(jv.Null):
		k = kind{v.SetNull(), v.AppendNull(), v.InsertNull(), v.MustSetNull(), v.MustAppendNull(), v.MustInsertNull()}
	case t.T == int(jv.Object) && len(t.E) == 0:
		k = kind{v.SetObject(), v.AppendObject(), v.InsertObject(), v.MustSetObject(), v.MustAppendObject(), v.MustInsertObject()}
	case t.T == int(jv.Array) && len(t.E) == 0:
		k = kind{v.SetArray(), v.AppendArray(), v.InsertArray(), v.MustSetArray(), v.MustAppendArray(), v.MustInsertArray()}
	case t.T == int(jv.Number):
		// every typed form whose value is written back as this literal
		lit := string(t.S)
		var forms []func()
		add := func(same string, f func()) {
			if same == lit {
				forms = append(forms, f)
			}
		}
		if i, err := strconv.ParseInt(lit, 10, 64); err == nil {
			i32 := int32(i)
			add(fmt.Sprint(i), func() {
				x := int(i)
				k = kind{v.SetInt(x), v.AppendInt(x), v.InsertInt(x), v.MustSetInt(x), v.MustAppendInt(x), v.MustInsertInt(x)}
			})
			add(fmt.Sprint(i), func() {
				k = kind{v.SetInt64(i), v.AppendInt64(i), v.InsertInt64(i), v.MustSetInt64(i), v.MustAppendInt64(i), v.MustInsertInt64(i)}
			})
			add(fmt.Sprint(i32), func() {
				k = kind{v.SetInt32(i32), v.AppendInt32(i32), v.InsertInt32(i32), v.MustSetInt32(i32), v.MustAppendInt32(i32), v.MustInsertInt32(i32)}
			})
		}
		if u, err := strconv.ParseUint(lit, 10, 64); err == nil {
			u32 := uint32(u)
			add(fmt.Sprint(u), func() {
				x := uint(u)
				k = kind{v.SetUint(x), v.AppendUint(x), v.InsertUint(x), v.MustSetUint(x), v.MustAppendUint(x), v.MustInsertUint(x)}
			})
			add(fmt.Sprint(u), func() {
				k = kind{v.SetUint64(u), v.AppendUint64(u), v.InsertUint64(u), v.MustSetUint64(u), v.MustAppendUint64(u), v.MustInsertUint64(u)}
			})
			add(fmt.Sprint(u32), func() {
				k = kind{v.SetUint32(u32), v.AppendUint32(u32), v.InsertUint32(u32), v.MustSetUint32(u32), v.MustAppendUint32(u32), v.MustInsertUint32(u32)}
			})
		}
		if f, err := strconv.ParseFloat(lit, 64); err == nil && f != 0 && math.Abs(f) > 1e-5 && math.Abs(f) < 1e18 {
			f32 := float32(f)
			add(strconv.FormatFloat(f, 'f', -1, 64), func() {
				k = kind{v.SetFloat64(f), v.AppendFloat64(f), v.InsertFloat64(f), v.MustSetFloat64(f), v.MustAppendFloat64(f), v.MustInsertFloat64(f)}
			})
			add(strconv.FormatFloat(float64(f32), 'f', -1, 32), func() {
				k = kind{v.SetFloat32(f32), v.AppendFloat32(f32), v.InsertFloat32(f32), v.MustSetFloat32(f32), v.MustAppendFloat32(f32), v.MustInsertFloat32(f32)}
			})
		}
		if len(forms) == 0 {
			return nil, 0, false
		}
		f := o.Form - 1
		if f < 0 {
			f = s.r.Intn(len(forms))
		}
		forms[f%len(forms)]()
	default:
		return nil, 0, false
	}
	var err error
	switch o.Op {
	case "set":
		if must {
			k.ms.At(ps[0], ps[1:]...)
		} else {
			ret, err = k.set.At(ps[0], ps[1:]...)
		}
	case "app":
		switch {
		case must && o.N == 1:
			k.ma.InTheEnd(ps...)
		case must:
			k.ma.InTheBeginning(ps...)
		case o.N == 1:
			ret, err = k.app.InTheEnd(ps...)
		default:
			ret, err = k.app.InTheBeginning(ps...)
		}
	case "ins":
		switch {
		case must && o.N == 1:
			k.mi.After(ps[0], ps[1:]...)
		case must:
			k.mi.Before(ps[0], ps[1:]...)
		case o.N == 1:
			ret, err = k.ins.After(ps[0], ps[1:]...)
		default:
			ret, err = k.ins.Before(ps[0], ps[1:]...)
		}
	}
	return ret, errClass(err), true
}

func clobber(b []byte) {
	for i := range b {
		b[i] = 0xff
	}
}

func (s *heapSess) keepBytes(b []byte) {
	if len(s.kb) < 12 {
		s.kb = append(s.kb, keptBytes{b, append([]byte(nil), b...)})
	}
}

// run executes one operation and writes its trace line.
func (s *heapSess) run(o *hop) {
	if s.broken { // the documents cannot be listed any more
		return
	}
	if o.C.J != nil && o.C.T == nil {
		o.C.T = o.C.J.tree()
	}
	if o.C.T == nil {
		o.C.T = &Tree{}
	}
	v := (*jv.V)(nil)
	if o.R > 0 {
		v = s.nodes[o.R-1]
	}
	e, ret, ln, ib := 0, -2, 0, 0
	visited := L{}
	var res *jv.V
	hasRes := false
	text := o.B
	desc := func() string {
		return fmt.Sprintf("%s via %q r=%d p=%v f=%d c=%d %s n=%d", o.Op, o.Via, o.R, o.P, o.F, o.C.ID, o.C.Shape, o.N)
	}
	pan := guard(desc, func() {
		switch o.Op {
		case "new":
			if o.Via == "parse" {
				in := treeText(o.C.T, nil)
				if s.r.p(50) {
					g := &textGen{r: s.r, ws: 20}
					g.tree(o.C.T)
					in = g.b
				}
				buf := append([]byte(nil), in...)
				var err error
				if s.r.p(70) {
					res, err = jv.Unmarshal(buf)
				} else {
					str := string(buf)
					res, err = jv.UnmarshalString(str)
				}
				e = errClass(err)
				ib = b2i(!bytes.Equal(buf, in))
				clobber(buf)
			} else {
				res = build(s.r, o.C.T)
			}
			if e == 0 {
				s.register(res)
			}
			hasRes = true
		case "get", "cget":
			ps := s.params(o)
			if o.Op == "get" {
				switch o.Via {
				case "MustGet":
					res, e = v.MustGet(ps[0], ps[1:]...), 9
				case "GetArray":
					r, err := v.GetArray(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				case "GetObject":
					r, err := v.GetObject(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				case "GetString":
					r, err := v.GetString(ps[0], ps[1:]...)
					text, e = []byte(r), errClass(err)
					return
				default:
					r, err := v.Get(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				}
			} else {
				c := v.Caseless()
				switch o.Via {
				case "MustGet":
					res, e = c.MustGet(ps[0], ps[1:]...), 9
				case "GetArray":
					r, err := c.GetArray(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				case "GetObject":
					r, err := c.GetObject(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				case "GetString":
					r, err := c.GetString(ps[0], ps[1:]...)
					text, e = []byte(r), errClass(err)
					return
				default:
					r, err := c.Get(ps[0], ps[1:]...)
					res, e = r, errClass(err)
				}
			}
			hasRes = true
		case "set", "app", "ins":
			ps := s.params(o)
			if strings.Contains(o.Via, "Typed") {
				if r, er, done := s.typedSet(v, o, ps); done {
					res, e, hasRes = r, er, true
					if strings.HasPrefix(o.Via, "Must") {
						e, hasRes = 9, false
					}
					return
				}
				o.Via = strings.Replace(o.Via, "Typed", "", 1)
			}
			ch := s.child(o)
			var err error
			switch o.Op {
			case "set":
				if o.Times > 0 {
					st := v.Set(ch)
					for i := 0; i < o.Times; i++ {
						_, _ = st.At(ps[0], ps[1:]...)
						if i&0xfffff == 0xfffff {
							atomic.StoreInt64(&callStart, time.Now().UnixNano())
						}
					}
				}
				switch o.Via {
				case "Must":
					v.MustSet(ch).At(ps[0], ps[1:]...)
					e = 9
				case "At":
					v.At(ps[0], ps[1:]...).Set(ch)
					e = 9
				default:
					res, err = v.Set(ch).At(ps[0], ps[1:]...)
				}
			case "app":
				switch {
				case o.Via == "Must" && o.N == 1:
					v.MustAppend(ch).InTheEnd(ps...)
					e = 9
				case o.Via == "Must":
					v.MustAppend(ch).InTheBeginning(ps...)
					e = 9
				case o.N == 1:
					res, err = v.Append(ch).InTheEnd(ps...)
				default:
					res, err = v.Append(ch).InTheBeginning(ps...)
				}
			case "ins":
				switch {
				case o.Via == "Must" && o.N == 1:
					v.MustInsert(ch).After(ps[0], ps[1:]...)
					e = 9
				case o.Via == "Must":
					v.MustInsert(ch).Before(ps[0], ps[1:]...)
					e = 9
				case o.N == 1:
					res, err = v.Insert(ch).After(ps[0], ps[1:]...)
				default:
					res, err = v.Insert(ch).Before(ps[0], ps[1:]...)
				}
			}
			if e == 0 {
				e, hasRes = errClass(err), true
			}
		case "del", "cdel":
			ps := s.params(o)
			hasRes = false
			ret = 0
			switch {
			case o.Op == "del" && o.Via == "Must":
				v.MustDelete(ps[0], ps[1:]...)
				e = 9
			case o.Op == "del":
				e = errClass(v.Delete(ps[0], ps[1:]...))
			case o.Via == "Must":
				v.Caseless().MustDelete(ps[0], ps[1:]...)
				e = 9
			default:
				e = errClass(v.Caseless().Delete(ps[0], ps[1:]...))
			}
		case "imp":
			var x any
			if o.C.ID == -1 {
				x = []any{make(chan int), func() {}, complex(1, 1), []any{1, make(chan int)}, map[string]any{"a": []any{func() {}}}, tooDeepBad{}, map[bool]int{true: 1}}[s.r.Intn(7)]
			} else {
				x = s.shaped(o.C)
			}
			var err error
			if o.Via == "New" {
				res, e = jv.New(x), 9
				if o.C.ID == -1 {
					e = 3
				}
			} else {
				res, err = jv.Import(x)
				e = errClass(err)
			}
			if res != nil && (res.ValueType() != jv.NotExist) {
				if id, ok := s.ids[res]; ok {
					ret = id
				} else {
					s.register(res)
				}
			}
			hasRes = true
		case "uj":
			buf := append([]byte(nil), o.B...)
			var err error
			switch o.Via {
			case "UnmarshalBinary":
				err = v.UnmarshalBinary(buf)
			case "json":
				err = json.Unmarshal(buf, v)
			default:
				err = v.UnmarshalJSON(buf)
			}
			e = errClass(err)
			ib = b2i(!bytes.Equal(buf, o.B))
			clobber(buf)
		case "mar":
			var b []byte
			var err error
			isStr := false
			str := ""
			switch o.Via {
			case "MarshalString":
				str, err = v.MarshalString(jv.OptSetSequence())
				isStr = true
			case "MustMarshal":
				b = v.MustMarshal(jv.OptSetSequence())
			case "MustMarshalString":
				str = v.MustMarshalString(jv.OptSetSequence())
				isStr = true
			case "MarshalJSON":
				b, err = v.MarshalJSON()
			case "MarshalBinary":
				b, err = v.MarshalBinary()
			case "json":
				b, err = json.Marshal(map[string]any{"v": v})
				if err == nil {
					b = b[5 : len(b)-1]
				}
			default:
				b, err = v.Marshal(jv.OptSetSequence())
			}
			e = errClass(err)
			if isStr {
				text = append([]byte(nil), str...)
				if len(s.ks) < 12 {
					s.ks = append(s.ks, keptString{str, append([]byte(nil), str...)})
				}
			} else {
				text = append([]byte(nil), b...)
				if o.Via != "json" {
					s.keepBytes(b)
				}
			}
		case "byt":
			// the bytes of a string are the caller's: spoil them and ask again
			ps := s.params(o)
			get := func() []byte {
				if len(ps) == 0 {
					return v.Bytes()
				}
				b, _ := v.GetBytes(ps[0], ps[1:]...)
				return b
			}
			b := get()
			text = append([]byte{}, b...)
			clobber(b[:cap(b)])
			visited = L{O{"k", append([]byte{}, get()...), "i", 0, "id", 0}}
		case "clob":
			for i := range s.kb {
				clobber(s.kb[i].live[:cap(s.kb[i].live)])
			}
			s.kb = nil
		case "iter":
			visited = s.iterate(v, o)
			ln = v.Len()
		case "sort":
			s.sort(v, o.N)
		case "eq":
			ret = b2i(v.Equal(s.nodes[o.N-1]))
		case "exp":
			var x any
			switch s.r.Intn(6) {
			case 0:
				_ = v.Export(&x)
			case 1:
				_ = v.String()
			case 2:
				_, _ = v.Marshal(jv.OptDefaultStringSequence(), jv.OptIndent("", " "))
			case 3:
				_, _ = v.Int(), v.Bytes()
			case 4:
				_ = v.GreaterThan(s.nodes[0])
			default:
				_, _ = v.Float64(), v.Bool()
			}
		default:
			panic("DRIVER: op " + o.Op)
		}
	})
	sc := !o.Lax || pan
	d := L{}
	if sc {
		if guard(func() string { return "listing after " + desc() }, func() { d = s.list() }) {
			pan, s.broken = true, true
		}
	} else {
		s.stale = true
	}
	if hasRes {
		ret = s.idOf(res)
		if res != nil && res.ValueType() == jv.NotExist && s.r.p(15) {
			// what is got for nothing is the caller's; no other miss may show it
			_ = res.UnmarshalJSON([]byte(`{"a":[1],"k":{"a":2}}`))
		}
	}
	ob, sn := 0, 0
	for _, k := range s.kb {
		if !bytes.Equal(k.live, k.copy) {
			ob = 1
		}
	}
	for _, k := range s.ks {
		if k.live != string(k.copy) {
			ob = 1
		}
	}
	for _, k := range s.ka {
		if len(k.live) != len(k.copy) {
			sn = 1
			continue
		}
		for i := range k.live {
			if k.live[i] != k.copy[i] {
				sn = 1
			}
		}
	}
	for _, k := range s.ko {
		if len(k.live) != len(k.copy) {
			sn = 1
		}
		for x, y := range k.copy {
			if k.live[x] != y {
				sn = 1
			}
		}
	}
	pl := L{}
	for _, p := range o.P {
		pl = append(pl, O{"k", p.K, "s", []byte(p.S), "i", p.I})
	}
	s.out.put(O{"op", o.Op, "r", o.R, "p", pl, "f", o.F, "via", o.Via, "n", o.N, "mut", o.Mut, "b", []byte(text),
		"c", O{"id", o.C.ID, "t", o.C.T, "shape", o.C.Shape, "srcs", o.C.Srcs},
		"e", e, "ret", ret, "pan", pan, "v", visited, "len", ln, "sc", sc, "nn", len(s.nodes), "d", d, "ob", ob, "ib", ib, "sn", sn, "pm", !s.argsKept()})
}

func (s *heapSess) iterate(v *jv.V, o *hop) L {
	l := L{}
	put := func(k string, i int, c *jv.V) {
		l = append(l, O{"k", []byte(k), "i", i, "id", s.idOf(c)})
	}
	more := func() bool { return (o.N == 0 || len(l) < o.N) && len(l) < 20000 }
	mut := func(k any) {
		if s.r.p(20) {
			s.peek(v)
		}
		switch o.Mut {
		case 1:
			v.MustSet(s.nodes[o.C.ID-1]).At(k)
		case 2:
			v.MustDelete(k)
		}
	}
	switch o.Via {
	case "nil":
		v.RangeArray(nil)
		v.RangeObjects(nil)
		v.RangeObjectsBySetSequence(nil)
	case "RangeArray":
		v.RangeArray(func(i int, c *jv.V) bool { put("", i, c); mut(i); return more() })
	case "RangeObjects":
		v.RangeObjects(func(k string, c *jv.V) bool { put(k, 0, c); mut(k); return more() })
	case "RangeObjectsBySetSequence":
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool { put(k, 0, c); mut(k); return more() })
	case "IterArray":
		o.N = 0
		for it := range v.IterArray() {
			put("", it.I, it.V)
		}
	case "IterObjects":
		o.N = 0
		for it := range v.IterObjects() {
			put(it.K, 0, it.V)
		}
	case "ForRangeArr":
		o.N = 0
		a := v.ForRangeArr()
		for i, c := range a {
			put("", i, c)
		}
		if s.r.p(40) { // tampering must not reach the document
			a = append(a, s.rep)
			for i := range a {
				a[i] = s.rep
			}
			_ = append(a[:0:cap(a)], s.rep)
		} else if len(s.ka) < 8 {
			s.ka = append(s.ka, keptArr{a, append([]*jv.V(nil), a...)})
		}
	case "ForRangeObj":
		o.N = 0
		m := v.ForRangeObj()
		for k, c := range m {
			put(k, 0, c)
		}
		if s.r.p(40) {
			m["new"] = s.rep
			for k := range m {
				if s.r.p(50) {
					delete(m, k)
				} else {
					m[k] = s.rep
				}
			}
		} else if len(s.ko) < 8 {
			c := map[string]*jv.V{}
			for k, x := range m {
				c[k] = x
			}
			s.ko = append(s.ko, keptObj{m, c})
		}
	}
	return l
}

// peek reads some container in the middle of another iteration.
func (s *heapSess) peek(v *jv.V) {
	r := s.r
	if r.p(70) {
		v = s.nodes[r.Intn(len(s.nodes))]
	}
	if v == nil {
		return
	}
	stop := 1 + r.Intn(4)
	switch r.Intn(7) {
	case 0, 1, 2:
		v.RangeObjectsBySetSequence(func(string, *jv.V) bool { stop--; return stop > 0 })
	case 3:
		v.RangeArray(func(int, *jv.V) bool { stop--; return stop > 0 })
	case 4:
		v.RangeObjects(func(string, *jv.V) bool { stop--; return stop > 0 })
	case 5:
		v.ForRangeObj()
		v.ForRangeArr()
	default:
		if v.Len() < 50 {
			v.MustMarshalString(jv.OptSetSequence())
		}
	}
}

func (s *heapSess) sort(v *jv.V, kind int) {
	txt := func(x *jv.V) string {
		switch x.ValueType() {
		case jv.String, jv.Number:
			return x.String()
		case jv.Boolean:
			return string([]byte{byte(b2i(x.Bool()))})
		}
		return ""
	}
	var f jv.ArrayLessFunc
	switch kind {
	case 1:
		f = func(a, b *jv.V) bool { return a.ValueType() < b.ValueType() }
	case 2:
		f = func(a, b *jv.V) bool { return txt(a) < txt(b) }
	case 3:
		f = func(a, b *jv.V) bool { return txt(b) < txt(a) }
	case 4:
		f = func(a, b *jv.V) bool {
			return a.ValueType() < b.ValueType() || a.ValueType() == b.ValueType() && txt(a) < txt(b)
		}
	case 5:
		f = func(a, b *jv.V) bool { return a.Len() < b.Len() }
	}
	v.SortArray(f)
}

// tree writes a tree with random spelling (same numbers).
func (g *textGen) tree(t *Tree) {
	switch t.T {
	case int(jv.String):
		g.str(string(t.S))
	case int(jv.Array):
		g.b = append(g.b, '[')
		for i, c := range t.E {
			if i > 0 {
				g.b = append(g.b, ',')
			}
			g.blank()
			g.tree(c)
			g.blank()
		}
		g.b = append(g.b, ']')
	case int(jv.Object):
		g.b = append(g.b, '{')
		for i, c := range t.E {
			if i > 0 {
				g.b = append(g.b, ',')
			}
			g.blank()
			g.str(string(t.K[i]))
			g.blank()
			g.b = append(g.b, ':')
			g.tree(c)
		}
		g.blank()
		g.b = append(g.b, '}')
	default:
		g.b = treeText(t, g.b)
	}
}

// readOps reads TLC-generated histories: one JSON array of operations per line.
func readOps(path string) [][]*hop {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	var res [][]*hop
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var ops []*hop
		must(json.Unmarshal(sc.Bytes(), &ops))
		res = append(res, ops)
	}
	must(sc.Err())
	return res
}
