package main

import (
	"bufio"
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// ---------------------------------------------------------------- types

type (
	nInt    int
	NInt    int8
	nUint   uint16
	nFloat  float64
	nFloat4 float32
	nStr    string
	NStr    string
	nBool   bool
	nBytes  []byte
	nByte   uint8
	nList   []int
	nMap    map[string]int
	nKey    int32

	// marshalers
	jmVal  struct{ Text string } // value receiver
	jmPtr  struct{ Text string } // pointer receiver
	jmErr  struct{ Fail bool }   // fails on demand
	jmByte uint8                 // elements are not bytes
	jmStr  string                // value receiver on a basic kind
	tmVal  struct{ Text string } //
	tmPtr  struct{ Text string } //
	tmErr  struct{ Fail bool }   //
	tmInt  int                   //
	jmMap  map[string]int        //
	tmBoth struct {
		A int
		B string
	} // both interfaces
)

func (j jmVal) MarshalJSON() ([]byte, error)  { return []byte(j.Text), nil }
func (j *jmPtr) MarshalJSON() ([]byte, error) { return []byte(j.Text), nil }
func (j jmErr) MarshalJSON() ([]byte, error) {
	if j.Fail {
		return []byte("1"), errors.New("no")
	}
	return []byte("[true]"), nil
}
func (j jmByte) MarshalJSON() ([]byte, error) {
	return []byte(`{"byte":` + strconv.Itoa(int(j)) + `}`), nil
}
func (j jmStr) MarshalJSON() ([]byte, error)  { return json.Marshal([]string{string(j)}) }
func (j jmMap) MarshalJSON() ([]byte, error)  { return []byte(strconv.Itoa(len(j))), nil }
func (j tmVal) MarshalText() ([]byte, error)  { return []byte(j.Text), nil }
func (j *tmPtr) MarshalText() ([]byte, error) { return []byte(j.Text), nil }
func (j tmErr) MarshalText() ([]byte, error) {
	if j.Fail {
		return nil, errors.New("no")
	}
	return []byte("fine"), nil
}
func (j tmInt) MarshalText() ([]byte, error)  { return []byte("n" + strconv.Itoa(int(j))), nil }
func (j tmBoth) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (j tmBoth) MarshalJSON() ([]byte, error) {
	return []byte(`{"A":` + strconv.Itoa(j.A) + `}`), nil
}

type (
	inner struct {
		A int
		B string `json:"b,omitempty"`
		c int
		D *int `json:"d,string"`
	}
	Inner2 struct {
		E []string `json:",omitempty"`
		F any      `json:"f"`
	}
	deepest struct {
		A    float64 `json:"A,omitempty"`
		Deep *bool   `json:"deep,omitempty,string"`
	}
	middle struct {
		deepest
		M uint8 `json:",string"`
	}
	low int

	outer1 struct {
		inner
		X int `json:"x"`
	}
	outer2 struct {
		*Inner2
		A string `json:",omitempty"`
		Y *int   `json:",omitempty"`
	}
	outer3 struct {
		Inner2 `json:"named,omitempty"`
		*inner `json:"-"`
		Z      map[int8]string `json:",omitempty"`
	}
	outer4 struct {
		low
		NInt
		NStr `json:",string"`
		G    any
	}
	outer5 struct {
		First int
		*middle
		Last nStr `json:"last,string,omitempty"`
	}
	outer6 struct {
		A string `json:"A,omitempty"`
		middle
		*Inner2
	}
	outer7 struct {
		inner `json:"in"`
		P     **int `json:"p,string"`
		Q     *[]int
	}
	rec struct {
		V    int            `json:"v,omitempty"`
		Next *rec           `json:"next,omitempty"`
		Kids []rec          `json:"kids"`
		M    map[string]rec `json:"m,omitempty"`
	}
	holder struct {
		P *jv.V            `json:"p,omitempty"`
		V jv.V             `json:"v"`
		L []*jv.V          `json:"l,omitempty"`
		M map[string]*jv.V `json:"m,omitempty"`
		A any              `json:"a"`
	}
	marsh struct {
		A jmVal
		B *jmPtr
		C jmPtr `json:"c"`
		D tmVal `json:",string"`
		E *tmPtr
		F tmPtr
		G []jmByte
		H map[string]tmInt
		I jmStr `json:"i,string"`
		J []tmVal
		K json.RawMessage
	}
	errsIn struct {
		A int   `json:"a,omitempty"`
		B jmErr `json:"b"`
		C tmErr `json:"-"`
		D *tmErr
	}
)

var staticTypes = []reflect.Type{
	reflect.TypeOf(outer1{}), reflect.TypeOf(outer2{}), reflect.TypeOf(outer3{}), reflect.TypeOf(outer4{}), reflect.TypeOf(outer5{}),
	reflect.TypeOf(outer6{}), reflect.TypeOf(outer7{}), reflect.TypeOf(rec{}), reflect.TypeOf(holder{}), reflect.TypeOf(marsh{}), reflect.TypeOf(errsIn{}),
}

// types of one name and the same fields that are not the same
func twin1() []reflect.Type {
	type twin struct {
		A int    `json:"a"`
		B string `json:"b"`
		C *int   `json:"c"`
	}
	return []reflect.Type{reflect.TypeOf(twin{}), reflect.TypeOf([]twin{}), reflect.TypeOf(&twin{})}
}
func twin2() []reflect.Type {
	type twin struct {
		A int    `json:"x,omitempty"`
		B string `json:"-"`
		C *int   `json:",string"`
	}
	return []reflect.Type{reflect.TypeOf(twin{}), reflect.TypeOf([]twin{}), reflect.TypeOf(&twin{})}
}
func twin3() []reflect.Type {
	type twin struct {
		A int `json:",string"`
		B string
		C *int `json:"b,omitempty"`
	}
	return []reflect.Type{reflect.TypeOf(twin{}), reflect.TypeOf(map[string]twin{}), reflect.TypeOf(struct{ twin }{})}
}
func twin4() []reflect.Type {
	type inner struct {
		A int `json:"a"`
	}
	type twin struct {
		inner
		B string `json:"b,omitempty"`
	}
	return []reflect.Type{reflect.TypeOf(twin{}), reflect.TypeOf(inner{})}
}
func twin5() []reflect.Type {
	type inner struct {
		A int `json:"z,omitempty"`
	}
	type twin struct {
		inner
		B string `json:"a,string"`
	}
	return []reflect.Type{reflect.TypeOf(twin{}), reflect.TypeOf(inner{}), reflect.TypeOf([]inner{})}
}

func init() {
	for _, f := range []func() []reflect.Type{twin1, twin2, twin3, twin4, twin5} {
		for _, t := range f() {
			staticTypes = append([]reflect.Type{t}, staticTypes...)
		}
	}
}

var leafTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(0.0), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf([]byte{}), reflect.TypeOf(0), reflect.TypeOf(false),
	reflect.TypeOf(nInt(0)), reflect.TypeOf(nUint(0)), reflect.TypeOf(nFloat(0)), reflect.TypeOf(nFloat4(0)), reflect.TypeOf(nStr("")), reflect.TypeOf(nBool(false)),
	reflect.TypeOf(nBytes{}), reflect.TypeOf([]nByte{}), reflect.TypeOf(nList{}), reflect.TypeOf(nMap{}), reflect.TypeOf([]any{}), reflect.TypeOf(map[string]any{}),
}
var marshalTypes = []reflect.Type{
	reflect.TypeOf(jmVal{}), reflect.TypeOf(jmPtr{}), reflect.TypeOf(jmErr{}), reflect.TypeOf(jmStr("")), reflect.TypeOf(tmVal{}), reflect.TypeOf(tmPtr{}),
	reflect.TypeOf(tmErr{}), reflect.TypeOf(tmInt(0)), reflect.TypeOf([]jmByte{}), reflect.TypeOf(jmMap{}), reflect.TypeOf(&jv.V{}), reflect.TypeOf(jv.V{}),
	reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(tmBoth{}),
}
var badTypes = []reflect.Type{
	reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}),
	reflect.TypeOf(map[bool]int{}), reflect.TypeOf(map[float64]int{}), reflect.TypeOf(map[any]int{}), reflect.TypeOf(map[[1]int]int{}),
}
var (
	anyType = reflect.TypeOf((*any)(nil)).Elem()
	jmType  = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tmType  = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	vType   = reflect.TypeOf(jv.V{})
	vpType  = reflect.TypeOf(&jv.V{})
)

type impSess struct {
	r    *rng
	out  *Out
	vs   *valSess
	bads int // percentage of unsupported types
	mars int // percentage of marshalers
	vees int // percentage of *V
}

func (s *impSess) keyType() reflect.Type {
	return []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)),
		reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(nStr("")), reflect.TypeOf(nKey(0))}[s.r.Intn(11)]
}

func (s *impSess) typ(depth int) reflect.Type {
	r := s.r
	if s.bads > 0 && r.p(s.bads) {
		return badTypes[r.Intn(len(badTypes))]
	}
	if s.mars > 0 && r.p(s.mars) {
		return marshalTypes[r.Intn(len(marshalTypes))]
	}
	if s.vees > 0 && r.p(s.vees) {
		return []reflect.Type{vpType, vType, vpType}[r.Intn(3)]
	}
	if depth <= 0 {
		return leafTypes[r.Intn(len(leafTypes))]
	}
	switch r.Intn(12) {
	case 0:
		return reflect.SliceOf(s.typ(depth - 1))
	case 1:
		return reflect.ArrayOf(r.Intn(3), s.typ(depth-1))
	case 2:
		return reflect.MapOf(s.keyType(), s.typ(depth-1))
	case 3, 4:
		return reflect.PtrTo(s.typ(depth - 1))
	case 5:
		return anyType
	case 6, 7, 8:
		return s.structType(depth - 1)
	case 9:
		return staticTypes[r.Intn(len(staticTypes))]
	}
	return leafTypes[r.Intn(len(leafTypes))]
}

var tagNames = []string{"a", "b", "A", "B", "key", "k.1", "é", "名", "x_y", "-", "a b", "omitempty", "string", "c/d", "$", "E"}

func (s *impSess) tag(used map[string]bool, name string) string {
	r := s.r
	if r.p(22) {
		used[name] = true
		return ""
	}
	if r.p(5) {
		return "-"
	}
	tn := ""
	if r.p(55) {
		for try := 0; try < 5; try++ {
			if c := tagNames[r.Intn(len(tagNames))]; !used[c] && (len(c) != 1 || c[0] < 'A' || c[0] > 'Z' || r.p(10)) {
				tn = c
				break
			}
		}
	}
	if tn == "" {
		used[name] = true
	} else {
		used[tn] = true
	}
	var opts []string
	if r.p(50) {
		opts = append(opts, "omitempty")
	}
	if r.p(40) {
		opts = append(opts, "string")
	}
	if r.p(8) {
		opts = append(opts, r.pick([]string{"", "other", "Omitempty", "strings", "omitempty2", "string"}))
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	t := strings.Join(append([]string{tn}, opts...), ",")
	if t == "-" {
		t = "-,"
	}
	return t
}

// canEmbed: StructOf refuses to embed types with methods in many cases
func canEmbed(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		return t.Name() == "" && t.NumMethod() == 0 && t.Elem().Kind() == reflect.Struct
	}
	return t.Kind() == reflect.Struct && t.NumMethod() == 0 && reflect.PtrTo(t).NumMethod() == 0
}

func (s *impSess) structType(depth int) reflect.Type {
	r := s.r
	n := r.Intn(5)
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		name := string(rune('A'+i)) + r.pick([]string{"", "", "x"})
		var f reflect.StructField
		switch {
		case depth > 0 && r.p(18): // embedded
			save := s.bads
			s.bads = 0
			t := s.structType(depth - 1)
			s.bads = save
			if r.p(40) {
				t = reflect.PtrTo(t)
			}
			if !canEmbed(t) {
				continue
			}
			f = reflect.StructField{Name: name, Type: t, Anonymous: true}
			if r.p(25) {
				f.Tag = reflect.StructTag(`json:` + strconv.Quote(s.tag(used, name)))
			}
		case r.p(8):
			f = reflect.StructField{Name: strings.ToLower(name), PkgPath: "main", Type: leafTypes[r.Intn(len(leafTypes))]}
			if r.p(50) {
				f.Tag = `json:"hidden,omitempty"`
			}
		default:
			t := s.typ(depth)
			f = reflect.StructField{Name: name, Type: t}
			tag := s.tag(used, name)
			if tag != "" || r.p(20) {
				f.Tag = reflect.StructTag(`json:` + strconv.Quote(tag))
				if r.p(10) {
					f.Tag = `xml:"q" ` + f.Tag
				}
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (s *impSess) jsonText() string {
	r := s.r
	if r.p(15) {
		return r.pick([]string{"null", "{}", "[]", `""`, "0", "false", `{"a":1,"a":2}`, ` [ 1 , {"z":0,"y":[]} ] `})
	}
	if r.p(12) {
		return r.pick([]string{"", "{", "nul", "[1", `{"a":}`, "1 2", "[]]", `"`, "tru", "1.", "{\"a\" 1}"})
	}
	return string(genText(r, r.Intn(3), 3))
}

func (s *impSess) text() string {
	if s.r.p(25) {
		return ""
	}
	if s.r.Intn(300) == 0 {
		return strings.Repeat(randString(s.r, 6), 1+s.r.Intn(200))
	}
	return randString(s.r, 6)
}

func goodV(t *Tree) bool {
	if t.T == 0 || t.T == 2 && !finiteLit(string(t.S)) {
		return false
	}
	for _, e := range t.E {
		if !goodV(e) {
			return false
		}
	}
	return true
}

func finiteLit(s string) bool { return s != "NaN" && s != "+Inf" && s != "-Inf" }

func (s *impSess) vee() *jv.V {
	for {
		t := s.vs.tree(s.r.Intn(3), 3)
		if v := s.vs.make(t); goodV(project(v)) {
			return v
		}
	}
}

// fill sets a random value.
func (s *impSess) fill(v reflect.Value, depth int) {
	r := s.r
	if !v.CanSet() {
		if v.Kind() == reflect.Struct { // unexported embedded struct
			s.fillStruct(v, depth)
		}
		return
	}
	if depth < -6 {
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *jmVal:
		x.Text = s.jsonText()
		return
	case *jmPtr:
		x.Text = s.jsonText()
		return
	case *tmVal:
		x.Text = s.text()
		return
	case *tmPtr:
		x.Text = s.text()
		return
	case *json.RawMessage:
		*x = json.RawMessage(s.jsonText())
		if len(*x) == 0 {
			*x = nil
		}
		return
	case *jv.V:
		*x = *s.vee()
		return
	case **jv.V:
		if r.p(80) {
			*x = s.vee()
		}
		return
	}
	if r.p(14) {
		return // zero
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.p(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := int64(r.rangeI(-3, 200))
		if r.p(40) {
			i = int64(r.Uint64())
			if r.p(30) {
				i = []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53, 1<<53 + 1}[r.Intn(6)]
			}
		}
		bits := v.Type().Bits()
		v.SetInt(i << (64 - uint(bits)) >> (64 - uint(bits)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		i := uint64(r.Intn(200))
		if r.p(40) {
			i = r.Uint64()
			if r.p(30) {
				i = math.MaxUint64
			}
		}
		bits := v.Type().Bits()
		v.SetUint(i << (64 - uint(bits)) >> (64 - uint(bits)))
	case reflect.Float32, reflect.Float64:
		f := randFloat(r)
		if v.Kind() == reflect.Float32 {
			f = float64(float32(f))
			if r.p(30) {
				f = float64(math.Float32frombits(r.Uint32()))
			}
		}
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
			f = 0
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(s.text())
	case reflect.Slice:
		n := r.Intn(4)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n = r.Intn(8)
			if r.Intn(150) == 0 {
				n = 1 + r.Intn(2000)
			}
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.Intn(2)))
		for i := 0; i < n; i++ {
			s.fill(v.Index(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if k := v.Type().Key().Kind(); k == reflect.Interface || k == reflect.Array {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(4); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if k.Kind() == reflect.String && r.p(60) {
				k.SetString(r.pick([]string{"a", "b", "A", "", "é", "1"}))
			} else {
				s.fill(k, 0)
			}
			s.fill(e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		if depth < -2 && r.p(60) {
			return
		}
		e := reflect.New(v.Type().Elem())
		s.fill(e.Elem(), depth-1)
		v.Set(e)
	case reflect.Interface:
		if v.Type() != anyType || depth < -1 && r.p(70) {
			return
		}
		var e reflect.Value
		if r.p(30) {
			e = reflect.ValueOf([]any{nil, true, 1, "s", 2.5, []any{}, []any{nil, 1.0}, map[string]any{"a": nil}, []byte(nil), []byte("xy"), (*int)(nil), [2]bool{}, map[string]any(nil), []any(nil)}[r.Intn(14)])
		} else {
			t := s.typ(1 + r.Intn(2))
			e = reflect.New(t)
			s.fill(e.Elem(), depth-1)
			if !(r.p(30) || t == vType) {
				e = e.Elem()
			}
		}
		if e.IsValid() {
			v.Set(e)
		}
	case reflect.Struct:
		s.fillStruct(v, depth)
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	}
}

func (s *impSess) fillStruct(v reflect.Value, depth int) {
	for i := 0; i < v.NumField(); i++ {
		f, ft := v.Field(i), v.Type().Field(i)
		if ft.PkgPath != "" && !ft.Anonymous {
			continue
		}
		if ft.PkgPath != "" && ft.Type.Kind() != reflect.Struct {
			continue
		}
		s.fill(f, depth-1)
	}
}

// ---------------------------------------------------------------- description

func desc(k string, s []byte, b int) O {
	return O{"k", k, "s", s, "b", b, "ks", L{}, "e", L{}, "f", L{}, "t", &Tree{}}
}

func descE(k string, b int, ks [][]byte, e L) O {
	return O{"k", k, "s", []byte{}, "b", b, "ks", ks, "e", e, "f", L{}, "t", &Tree{}}
}

func descF(k string, f L, e L) O {
	return O{"k", k, "s", []byte{}, "b", 0, "ks", L{}, "e", e, "f", f, "t", &Tree{}}
}

func descV(v *jv.V, b int) O {
	if v.ValueType() == jv.NotExist { // not a value
		return desc("any", nil, 0)
	}
	return O{"k", "jv", "s", []byte{}, "b", b, "ks", L{}, "e", L{}, "f", L{}, "t", project(v)}
}

// describe is the record of spec/JVImport.tla for a Go value.
func describe(v reflect.Value) O {
	if !v.IsValid() {
		return desc("null", nil, 0)
	}
	t := v.Type()
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return descE("iface", 0, nil, L{})
		}
		return descE("iface", 0, nil, L{describe(v.Elem())})
	}
	if t == vpType {
		if v.IsNil() {
			return desc("jv", nil, 1)
		}
		return descV(v.Interface().(*jv.V), 0)
	}
	if t == vType {
		if !v.CanAddr() {
			return desc("any", nil, 0)
		}
		return descV(v.Addr().Interface().(*jv.V), 2)
	}
	for _, m := range []struct {
		k string
		t reflect.Type
	}{{"jm", jmType}, {"tm", tmType}} {
		var x any
		if t.Implements(m.t) {
			if t.Kind() == reflect.Ptr && v.IsNil() {
				return descE("ptr", 0, nil, L{})
			}
			if !v.CanInterface() {
				return desc("any", nil, 0)
			}
			x = v.Interface()
		} else if t.Kind() != reflect.Ptr && reflect.PtrTo(t).Implements(m.t) {
			if !v.CanAddr() || !v.CanInterface() {
				return desc("any", nil, 0)
			}
			x = v.Addr().Interface()
		}
		if x == nil {
			continue
		}
		var b []byte
		var err error
		if m.k == "jm" {
			b, err = x.(json.Marshaler).MarshalJSON()
		} else {
			b, err = x.(encoding.TextMarshaler).MarshalText()
		}
		return desc(m.k, b, b2i(err != nil))
	}
	switch v.Kind() {
	case reflect.Bool:
		return desc("bool", nil, b2i(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return desc("num", strconv.AppendInt(nil, v.Int(), 10), 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return desc("num", strconv.AppendUint(nil, v.Uint(), 10), 1)
	case reflect.Float32, reflect.Float64:
		return desc("num", strconv.AppendFloat(nil, v.Float(), 'e', -1, t.Bits()), 0)
	case reflect.String:
		return desc("str", []byte(v.String()), 0)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !reflect.PtrTo(t.Elem()).Implements(jmType) && !reflect.PtrTo(t.Elem()).Implements(tmType) {
			return desc("bytes", v.Bytes(), b2i(v.IsNil()))
		}
		fallthrough
	case reflect.Array:
		e := L{}
		for i := 0; i < v.Len(); i++ {
			e = append(e, describe(v.Index(i)))
		}
		return descE("seq", b2i(v.Kind() == reflect.Slice && v.IsNil()), nil, e)
	case reflect.Map:
		switch t.Key().Kind() {
		case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		default:
			return desc("bad", nil, 1)
		}
		ks, e := [][]byte{}, L{}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			ks = append(ks, []byte(fmt.Sprint(k)))
			e = append(e, describe(v.MapIndex(k)))
		}
		return descE("map", b2i(v.IsNil()), ks, e)
	case reflect.Ptr:
		if v.IsNil() {
			return descE("ptr", 0, nil, L{})
		}
		return descE("ptr", 0, nil, L{describe(v.Elem())})
	case reflect.Struct:
		return descF("struct", describeFields(v), L{})
	}
	return desc("bad", nil, 0)
}

func describeFields(v reflect.Value) L {
	fs := L{}
	for i := 0; i < v.NumField(); i++ {
		ft := v.Type().Field(i)
		st := ft.Type
		if st.Kind() == reflect.Ptr {
			st = st.Elem()
		}
		sk := st.Kind() == reflect.Struct
		var d O
		if ft.PkgPath != "" && !(ft.Anonymous && sk) {
			d = desc("any", nil, 0) // unexported: not looked at
		} else if d = describe(v.Field(i)); ft.Anonymous && sk && ft.Type.Kind() == reflect.Ptr && v.Field(i).IsNil() {
			d = descF("ptr", describeFields(reflect.New(st).Elem()), L{})
		}
		fs = append(fs, O{"n", []byte(ft.Name), "tag", []byte(ft.Tag.Get("json")), "ex", ft.PkgPath == "", "an", ft.Anonymous, "sk", sk, "v", d})
	}
	return fs
}

// ---------------------------------------------------------------- import

// imp brings the value p points to into the library.
func (s *impSess) imp(p reflect.Value, how string, ign bool) {
	g := describe(p.Elem())
	gb := enc(nil, g)
	ref, jerr := json.Marshal(p.Interface())
	x := p.Elem().Interface()
	if how == "ImportPtr" {
		x = p.Interface()
	}
	e, t := 0, (*Tree)(nil)
	pan := guard(func() string { return fmt.Sprintf("%s of %T %.400s", how, x, fmt.Sprint(x)) }, func() {
		var v *jv.V
		var err error
		switch how {
		case "Import", "ImportPtr":
			if ign {
				v, err = jv.Import(x, jv.OptIgnoreOmitempty())
			} else {
				v, err = jv.Import(x)
			}
		case "New":
			if v = jv.New(x); v.ValueType() == jv.NotExist {
				err = errors.New("NotExist")
			}
		case "Set":
			o := jv.NewObject()
			v, err = o.Set(x).At("key")
			if c, e2 := o.Get("key"); err == nil && (e2 != nil || c != v) {
				v = c
			} else if err != nil && (o.Len() != 0 || v.ValueType() != jv.NotExist) {
				err = nil // an error with an effect
			}
		case "Append":
			a := jv.NewArray()
			v, err = a.Append(x).InTheEnd()
			if c, e2 := a.Get(0); err == nil && (e2 != nil || c != v) {
				v = c
			} else if err != nil && (a.Len() != 0 || v.ValueType() != jv.NotExist) {
				err = nil
			}
		case "Insert":
			a := jv.MustUnmarshalString("[0]")
			v, err = a.Insert(x).Before(0)
			if c, e2 := a.Get(0); err == nil && (e2 != nil || c != v) {
				v = c
			} else if err != nil && (a.Len() != 1 || v.ValueType() != jv.NotExist) {
				err = nil
			}
		}
		e, t = b2i(err != nil), project(v)
	})
	if t == nil {
		t = &Tree{}
	}
	if t.T == 0 && e == 0 && pan == false && how == "New" {
		e = 1
	}
	same := bytes.Equal(gb, enc(nil, describe(p.Elem())))
	s.out.put(O{"op", "imp", "g", g, "how", how, "ign", ign, "pan", pan, "e", e, "t", t, "je", jerr != nil, "js", ref, "same", same})
	s.out.advance()
}

var impHows = []string{"Import", "Import", "ImportPtr", "New", "Set", "Append", "Insert"}

func (s *impSess) impRandom() {
	r := s.r
	s.bads, s.mars, s.vees = 0, 0, 0
	switch r.Intn(8) {
	case 0:
		s.bads = 6
	case 1, 2:
		s.mars = 15
	case 3:
		s.vees = 20
	}
	p := reflect.New(s.typ(1 + r.Intn(4)))
	if r.p(18) {
		p = reflect.New(staticTypes[r.Intn(len(staticTypes))])
	}
	s.fill(p.Elem(), 3)
	how := impHows[r.Intn(len(impHows))]
	x := p.Elem()
	if x.Kind() == reflect.Interface && !x.IsNil() {
		x = x.Elem()
	}
	if t := x.Type(); t == vpType || t == vType {
		how = "Import" // Set puts in a *V itself
	}
	s.imp(p, how, how[:3] == "Imp" && r.p(35))
}

// ---------------------------------------------------------------- export

// dstType is a type to decode a document of this shape into.
func (s *impSess) dstType(t *Tree, depth int) reflect.Type {
	r := s.r
	if depth <= 0 || r.p(10) {
		return anyType
	}
	if r.p(12) { // does not match
		t = s.vs.tree(1, 2)
	}
	if r.p(15) {
		return reflect.PtrTo(s.dstType(t, depth-1))
	}
	if r.p(4) {
		return []reflect.Type{vpType, vType}[r.Intn(2)]
	}
	switch t.T {
	case 1:
		return []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(nStr("")), reflect.TypeOf([]byte{}), anyType}[r.Intn(4)]
	case 2:
		return leafTypes[1+r.Intn(13)]
	case 3:
		if r.p(50) {
			e := anyType
			if len(t.E) > 0 && r.p(60) {
				e = s.dstType(t.E[r.Intn(len(t.E))], depth-1)
			}
			return reflect.MapOf([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(nStr("")), reflect.TypeOf(0)}[r.Intn(3)], e)
		}
		var fs []reflect.StructField
		for i := range t.K {
			k := string(t.K[i])
			if k == "" || k == "-" || r.p(20) || strings.ContainsAny(k, "\"\\,`") {
				continue
			}
			opt := ""
			if r.p(20) {
				opt = ",string"
			}
			fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: s.dstType(t.E[i], depth-1),
				Tag: reflect.StructTag("json:" + strconv.Quote(k+opt))})
		}
		return reflect.StructOf(fs)
	case 4:
		e := anyType
		if len(t.E) > 0 {
			e = s.dstType(t.E[r.Intn(len(t.E))], depth-1)
		}
		if r.p(15) {
			return reflect.ArrayOf(r.Intn(4), e)
		}
		return reflect.SliceOf(e)
	case 5:
		return reflect.TypeOf(false)
	}
	return anyType
}

func cloneInto(dst, src reflect.Value) { // src, dst pointers of one type; prior content through JSON of a fill
	b, err := json.Marshal(src.Interface())
	if err == nil {
		_ = json.Unmarshal(b, dst.Interface())
	}
}

func (s *impSess) exp() {
	r := s.r
	t := s.vs.tree(1+r.Intn(3), 4)
	lower(t)
	v := s.vs.make(t)
	if !goodV(project(v)) && r.p(90) {
		return
	}
	s.expOf(v)
}

// expOf exports a value whose keys do not differ in case only.
func (s *impSess) expOf(v *jv.V) {
	r := s.r
	t := project(v)
	typ := s.dstType(t, 4)
	if r.p(5) {
		typ = staticTypes[r.Intn(len(staticTypes)-2)]
	}
	// two destinations with the same prior content
	a, b := reflect.New(typ), reflect.New(typ)
	if r.p(50) {
		c := reflect.New(typ)
		s.bads, s.mars, s.vees = 0, 0, 0
		s.fill(c.Elem(), 3)
		cloneInto(a, c)
		cloneInto(b, c)
	}
	var dst any = a.Interface()
	var ref any = b.Interface()
	switch r.Intn(40) {
	case 0:
		dst, ref = nil, nil
	case 1:
		dst, ref = a.Elem().Interface(), b.Elem().Interface() // not a pointer
	}
	var ea, eb error
	pan := guard(func() string { return fmt.Sprintf("Export of %.300s to %T", v, dst) }, func() { ea = v.Export(dst) })
	if goodV(t) {
		eb = json.Unmarshal(treeText(t, nil), ref)
	} else {
		eb = errors.New("not representable")
	}
	s.out.put(O{"op", "exp", "pan", pan, "ea", ea != nil, "eb", eb != nil, "a", describe(a.Elem()), "b", describe(b.Elem()), "same", sameTree(t, project(v))})
	s.out.advance()
}

// lower leaves no two keys of an object that differ in case only.
func lower(t *Tree) {
	seen := map[string]bool{}
	var ks [][]byte
	var es []*Tree
	for i, e := range t.E {
		lower(e)
		if t.T != 3 {
			continue
		}
		l := strings.ToLower(string(t.K[i]))
		if !seen[l] {
			ks, es = append(ks, []byte(l)), append(es, e)
		}
		seen[l] = true
	}
	if t.T == 3 {
		t.K, t.E = ks, es
	}
}

// ---------------------------------------------------------------- json.Unmarshal into values

func (s *impSess) unj() {
	r := s.r
	text := genText(r, r.Intn(3), 4)
	if r.p(12) {
		text = []byte(r.pick([]string{"null", " null ", "true", `""`, "{}", "[]", "0"}))
	}
	if r.p(25) {
		text = mutate(r, text)
	}
	if r.p(10) {
		text = []byte(r.pick([]string{"1e999", "[1,1e999]", `{"a":18446744073709551616}`, "-9223372036854775809"}))
	}
	had, is, ptr := 1, 1, 0
	was := s.vee()
	if r.p(10) {
		was = &jv.V{}
	}
	if r.p(50) && was.IsObject() { // a receiver with a case index
		_, _ = was.Caseless().Get("a")
	}
	wt := project(was)
	place := r.Intn(9)
	if place > 2 && !json.Valid(text) {
		place = r.Intn(3)
	}
	var now *jv.V
	var err error
	wrap := func(a, b string) []byte { return append(append([]byte(a), text...), b...) }
	pan := guard(func() string { return fmt.Sprintf("json.Unmarshal of %q", text) }, func() {
		switch place {
		case 0:
			err = json.Unmarshal(text, was)
			now = was
		case 1:
			err = was.UnmarshalJSON(text)
			now = was
		case 2:
			err = was.UnmarshalBinary(text)
			now = was
		case 3:
			d := struct{ Q jv.V }{*was}
			err = json.Unmarshal(wrap(`{"Q":`, "}"), &d)
			now = &d.Q
		case 4:
			ptr = 1
			d := struct{ P *jv.V }{was}
			err = json.Unmarshal(wrap(`{"P":`, "}"), &d)
			now = d.P
		case 5:
			ptr, had = 1, 0
			d := struct{ P *jv.V }{}
			err = json.Unmarshal(wrap(`{"p":`, "}"), &d)
			now = d.P
		case 6:
			had = 0
			var d []jv.V
			err = json.Unmarshal(wrap(`[`, `]`), &d)
			if len(d) == 1 {
				now = &d[0]
			}
		case 7:
			ptr, had = 1, 0
			var d map[string]*jv.V
			err = json.Unmarshal(wrap(`{"k":`, "}"), &d)
			now = d["k"]
		case 8:
			ptr = 1
			d := []*jv.V{was}
			err = json.Unmarshal(wrap(`[`, `]`), &d)
			if len(d) == 1 {
				now = d[0]
			}
		}
	})
	nt := &Tree{}
	if !pan {
		if now == nil {
			is = 0
		} else {
			nt = project(now)
		}
	}
	s.out.put(O{"op", "unj", "in", text, "place", place, "was", wt, "had", had, "is", is, "ptr", ptr, "now", nt, "e", err != nil, "pan", pan})
	s.out.advance()
}

// ---------------------------------------------------------------- tests from the model

type gdesc struct {
	K  string   `json:"k"`
	S  bs       `json:"s"`
	B  int      `json:"b"`
	Ks []bs     `json:"ks"`
	E  []*gdesc `json:"e"`
	F  []struct {
		N   bs     `json:"n"`
		Tag bs     `json:"tag"`
		Ex  int    `json:"ex"`
		An  int    `json:"an"`
		Sk  int    `json:"sk"`
		V   *gdesc `json:"v"`
	} `json:"f"`
}

// build makes a Go value from a description.
func (g *gdesc) build() reflect.Value {
	switch g.K {
	case "bool":
		return reflect.ValueOf(g.B == 1)
	case "num":
		if g.B == 1 {
			i, err := strconv.ParseInt(string(g.S), 10, 64)
			must(err)
			return reflect.ValueOf(i)
		}
		f, err := strconv.ParseFloat(string(g.S), 64)
		must(err)
		return reflect.ValueOf(f)
	case "str":
		return reflect.ValueOf(string(g.S))
	case "bytes":
		if g.B == 1 {
			return reflect.ValueOf([]byte(nil))
		}
		return reflect.ValueOf([]byte(append([]byte{}, g.S...)))
	case "seq":
		if g.B == 1 {
			return reflect.ValueOf([]int(nil))
		}
		if len(g.E) == 0 {
			return reflect.ValueOf([]string{})
		}
		e := g.E[0].build()
		l := reflect.MakeSlice(reflect.SliceOf(e.Type()), 0, 1)
		for _, x := range g.E {
			l = reflect.Append(l, x.build())
		}
		return l
	case "map":
		if g.B == 1 {
			return reflect.ValueOf(map[string]bool(nil))
		}
		if len(g.E) == 0 {
			return reflect.ValueOf(map[int]string{})
		}
		e := g.E[0].build()
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), e.Type()))
		for i, x := range g.E {
			m.SetMapIndex(reflect.ValueOf(string(g.Ks[i])), x.build())
		}
		return m
	case "ptr":
		if len(g.E) == 0 && len(g.F) > 0 {
			z := (&gdesc{K: "struct", F: g.F}).build()
			return reflect.Zero(reflect.PtrTo(z.Type()))
		}
		if len(g.E) == 0 {
			return reflect.ValueOf((*int)(nil))
		}
		e := g.E[0].build()
		p := reflect.New(e.Type())
		p.Elem().Set(e)
		return p
	case "iface":
		p := reflect.New(anyType).Elem()
		if len(g.E) > 0 {
			p.Set(g.E[0].build())
		}
		return p
	case "struct":
		var fs []reflect.StructField
		var vs []reflect.Value
		for _, f := range g.F {
			v := f.V.build()
			sf := reflect.StructField{Name: string(f.N), Type: v.Type(), Anonymous: f.An == 1}
			if len(f.Tag) > 0 {
				sf.Tag = reflect.StructTag("json:" + strconv.Quote(string(f.Tag)))
			}
			if f.Ex == 0 {
				sf.PkgPath = "main"
			}
			fs, vs = append(fs, sf), append(vs, v)
		}
		p := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range vs {
			if p.Field(i).CanSet() {
				p.Field(i).Set(vs[i])
			}
		}
		return p
	case "bad":
		return reflect.ValueOf(complex(1, 2))
	}
	must(fmt.Errorf("build %q", g.K))
	return reflect.Value{}
}

func famImp(c cfg) {
	out := newOut(c.out, "imp", c.shards)
	r := newRng(c.seed*29 + 13)
	s := &impSess{r: r, out: out, vs: &valSess{r: r}}
	if c.tests != "" {
		f, err := os.Open(c.tests)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var t struct {
				G   *gdesc `json:"g"`
				Ign int    `json:"ign"`
			}
			must(json.Unmarshal(sc.Bytes(), &t))
			v := t.G.build()
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			how := "Import"
			if t.Ign == 0 {
				how = impHows[r.Intn(len(impHows))]
			}
			s.imp(p, how, t.Ign == 1)
		}
		must(sc.Err())
		f.Close()
	}
	for i := 0; i < 20+c.n/60; i++ {
		if c.focus != "C23" {
			s.impLarge()
			continue
		}
		if i%3 > 0 {
			continue
		}
		t := s.vs.large(r.Intn(4))
		lower(t)
		if v := s.vs.make(t); goodV(project(v)) {
			s.expOf(v)
		}
	}
	for i := 0; i < c.n; i++ {
		x := r.Intn(100)
		if c.focus == "C23" {
			switch {
			case x < 15:
				s.vees, s.bads, s.mars = 35, 0, 0
				p := reflect.New(s.typ(1 + r.Intn(4)))
				if r.p(30) {
					p = reflect.New(reflect.TypeOf(holder{}))
				}
				s.fill(p.Elem(), 3)
				s.imp(p, "Import", false)
			case x < 55:
				s.exp()
			default:
				s.unj()
			}
			continue
		}
		s.impRandom()
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}

// ---------------------------------------------------------------- large Go values

// impLarge imports something with many fields, members, levels or bytes.
func (s *impSess) impLarge() {
	r := s.r
	s.bads, s.mars, s.vees = 0, 0, 0
	var t reflect.Type
	var p reflect.Value
	switch r.Intn(7) {
	case 0: // fields
		n := []int{31, 33, 63, 65, 70, 129}[r.Intn(6)] + r.Intn(4)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: leafTypes[r.Intn(len(leafTypes))]}
			switch r.Intn(6) {
			case 0:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s%d%s"`, r.pick([]string{"f", "g", "é", "F_"}), i, r.pick([]string{"", ",omitempty", ",string", ",omitempty,string"})))
			case 1:
				f.Tag = reflect.StructTag(`json:"` + r.pick([]string{"-", ",omitempty", ",string", ",omitempty,string"}) + `"`)
			case 2:
				if r.p(30) {
					f.Name, f.PkgPath = "f"+strconv.Itoa(i), "main"
				}
			}
			fs = append(fs, f)
		}
		t = reflect.StructOf(fs)
	case 1: // levels of one type each
		t = s.typ(0)
		for n := []int{7, 9, 12, 17, 20}[r.Intn(5)]; n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				t = reflect.SliceOf(t)
			case 1:
				t = reflect.ArrayOf(1, t)
			case 2:
				t = reflect.MapOf(reflect.TypeOf(""), t)
			case 3:
				t = reflect.PtrTo(t)
			default:
				f := reflect.StructField{Name: "X", Type: t}
				f.Tag = reflect.StructTag(`json:"` + r.pick([]string{"", "x", ",omitempty"}) + `"`)
				if canEmbed(t) && r.p(40) {
					f.Anonymous, f.Tag = true, ""
				}
				t = reflect.StructOf([]reflect.StructField{f, {Name: "Y", Type: reflect.TypeOf(0)}}[:1+r.Intn(2)])
			}
		}
		if r.p(40) {
			t = leafTypes[r.Intn(len(leafTypes))]
			for n := 2 + r.Intn(12); n > 0; n-- {
				t = reflect.PtrTo(t)
			}
		}
		p = reflect.New(t)
		s.through(p.Elem())
	case 2: // levels of any
		var x any = []any{1, "s", nil, true, 2.5, []byte("b")}[r.Intn(6)]
		for n := []int{8, 11, 17, 33, 40}[r.Intn(5)]; n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				x = []any{x}
			case 1:
				x = map[string]any{r.pick([]string{"", "k"}): x}
			case 2:
				x = []any{n, x, nil}
			default:
				y := x
				x = &y
			}
		}
		p = reflect.New(anyType)
		p.Elem().Set(reflect.ValueOf(x))
	case 3: // elements
		n := []int{9, 17, 33, 65, 129, 257}[r.Intn(6)] + r.Intn(3)
		e := leafTypes[r.Intn(len(leafTypes))]
		if r.p(50) {
			t = reflect.ArrayOf(n, e)
			p = reflect.New(t)
		} else {
			t = reflect.SliceOf(e)
			p = reflect.New(t)
			p.Elem().Set(reflect.MakeSlice(t, n, n))
		}
		for i := 0; i < n; i++ {
			s.fill(p.Elem().Index(i), 1)
		}
	case 4: // keys
		t = reflect.MapOf([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(nStr("")), reflect.TypeOf(uint16(0))}[r.Intn(4)], leafTypes[r.Intn(len(leafTypes))])
		p = reflect.New(t)
		p.Elem().Set(reflect.MakeMap(t))
		for i := []int{9, 17, 33, 65, 130}[r.Intn(5)]; i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if k.Kind() == reflect.String {
				k.SetString("k" + strconv.Itoa(i))
			} else {
				k.Set(reflect.ValueOf(i * 3).Convert(t.Key()))
			}
			s.fill(e, 0)
			p.Elem().SetMapIndex(k, e)
		}
	default: // bytes
		n := []int{63, 255, 256, 300, 511, 513, 1023, 1025, 2000}[r.Intn(9)] + r.Intn(4)
		b := make([]byte, n)
		r.Read(b)
		str := strings.ToValidUTF8(acrossBlock(r, n), "?")
		x := []any{b, str, nStr(str), []string{str, ""}, map[string]int{str: 1}, struct {
			A []byte `json:",omitempty"`
			B string `json:",string"`
		}{b, str}, [][]byte{b, nil, {}}}[r.Intn(7)]
		p = reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
	}
	if !p.IsValid() {
		p = reflect.New(t)
		s.fill(p.Elem(), 3)
	}
	how := impHows[r.Intn(len(impHows))]
	s.imp(p, how, how[:3] == "Imp" && r.p(35))
}

// through fills a value down to its innermost level.
func (s *impSess) through(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			s.through(v.Index(0))
			return
		}
	case reflect.Array:
		if v.Len() > 0 {
			s.through(v.Index(0))
		}
		return
	case reflect.Map:
		e := reflect.New(v.Type().Elem()).Elem()
		s.through(e)
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("m"), e)
		return
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		s.through(v.Elem())
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				s.through(v.Field(i))
			}
		}
		return
	}
	s.fill(v, 0)
}
