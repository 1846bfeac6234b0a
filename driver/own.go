package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// ---------------------------------------------------------------- contents
//
// Content number k of a given size is a tree; all contents of one size have
// texts of the same length.  The text of a content is its compact form with
// sorted keys.

func ownLeaf(k, i int) *Tree {
	switch i % 4 {
	case 0:
		return &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(1000000 + k*1000 + i%1000))}
	case 1:
		return &Tree{T: int(jv.String), S: []byte(fmt.Sprintf("c%03d-%05d-with-some-text", k, i))}
	case 2:
		return &Tree{T: int(jv.Number), S: []byte(fmt.Sprintf("%d.5", 1000+k))}
	}
	return &Tree{T: int(jv.Object), K: [][]byte{[]byte("x"), []byte("y")}, E: []*Tree{
		{T: int(jv.String), S: []byte(fmt.Sprintf("%04d", k))},
		{T: int(jv.Array), E: []*Tree{{T: int(jv.Boolean), S: []byte{byte(i & 1)}}, {T: int(jv.Number), S: []byte(fmt.Sprint(1000 + k))}}},
	}}
}

func ownTree(k, size int) *Tree {
	arr := &Tree{T: int(jv.Array)}
	for i := 0; i < size; i++ {
		arr.E = append(arr.E, ownLeaf(k, i))
	}
	return &Tree{T: int(jv.Object),
		K: [][]byte{[]byte("head"), []byte("list"), []byte("text")},
		E: []*Tree{{T: int(jv.Number), S: []byte(fmt.Sprint(1000 + k))}, arr, {T: int(jv.String), S: []byte(fmt.Sprintf("content %03d", k))}}}
}

// ownText writes a tree compactly with sorted keys.
func ownText(b []byte, t *Tree) []byte {
	switch jv.ValueType(t.T) {
	case jv.Object:
		idx := make([]int, len(t.K))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return bytes.Compare(t.K[idx[i]], t.K[idx[j]]) < 0 })
		b = append(b, '{')
		for n, i := range idx {
			if n > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendQuote(b, string(t.K[i]))
			b = ownText(append(b, ':'), t.E[i])
		}
		return append(b, '}')
	case jv.Array:
		b = append(b, '[')
		for i, e := range t.E {
			if i > 0 {
				b = append(b, ',')
			}
			b = ownText(b, e)
		}
		return append(b, ']')
	case jv.String:
		return strconv.AppendQuote(b, string(t.S))
	case jv.Number:
		return append(b, t.S...)
	case jv.Boolean:
		if len(t.S) == 1 && t.S[0] == 1 {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case jv.Null:
		return append(b, "null"...)
	}
	return append(b, '?')
}

// ---------------------------------------------------------------- cells

type ownCell struct {
	buf []byte // buf and out
	str string // out of the string forms
	v   *jv.V
	g   any
	esc [2]int // which of its strings are spelled with escapes

	lent []ownLent // strings with the same text handed to the library
}

type ownLent struct {
	s string
	k int
}

type ownOp struct {
	Op string `json:"op"`
	S  int    `json:"s"`
	D  int    `json:"d"`
	C  int    `json:"c"`
}

type ownSess struct {
	r     *rng
	out   *Out
	size  int
	cells []*ownCell
	known map[string]int
	texts map[int][]byte
}

func newOwn(r *rng, out *Out, size int) *ownSess {
	out.put(O{"op", "reset"})
	return &ownSess{r: r, out: out, size: size, known: map[string]int{}, texts: map[int][]byte{}}
}

func (s *ownSess) content(k int) []byte {
	t, ok := s.texts[k]
	if !ok {
		t = ownText(nil, ownTree(k, s.size))
		s.texts[k] = t
		s.known[string(t)] = k
	}
	return t
}

func (s *ownSess) number(b []byte) int {
	if k, ok := s.known[string(b)]; ok {
		return k
	}
	var x any // object keys in any order
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&x) != nil || d.More() {
		return -1
	}
	c, err := json.Marshal(x)
	if err != nil {
		return -1
	}
	if k, ok := s.known[string(c)]; ok {
		return k
	}
	return -1
}

func (s *ownSess) see(c *ownCell) int {
	for _, l := range c.lent {
		if s.number([]byte(l.s)) != l.k {
			return -1
		}
	}
	switch {
	case c.v != nil && c.v.IsString():
		return s.number([]byte(c.v.String()))
	case c.v != nil:
		return s.number(ownText(nil, project(c.v)))
	case c.g != nil:
		b, err := json.Marshal(c.g)
		if err != nil {
			return -1
		}
		return s.number(b)
	case c.buf != nil:
		return s.number(c.buf)
	}
	return s.number([]byte(c.str))
}

// ownEscaped spells a text another way.
func ownEscaped(t []byte, which [2]int) []byte {
	l := bytes.Split(t, []byte(`"c`))
	var b []byte
	for i, p := range l {
		switch {
		case i == 0:
		case which[0] <= i && i < which[1]:
			b = append(b, `"\u0063`...)
		default:
			b = append(b, `"c`...)
		}
		b = append(b, p...)
	}
	return b
}

// someEscapes are escapes in some of the strings of a text: all, those at the start or the end, or
// those somewhere between.
func someEscapes(r *rng, t []byte) [2]int {
	n := bytes.Count(t, []byte(`"c`))
	switch k := 1 + r.Intn(n); r.Intn(5) {
	case 0:
		return [2]int{1, k + 1}
	case 1:
		return [2]int{k, n + 1}
	case 2:
		return [2]int{k, k + 1}
	case 3:
		return [2]int{1 + n/3, 1 + 2*n/3}
	}
	return [2]int{1, n + 1}
}

// lend gives the text of a cell as a string, which has to stay as it is.
func (s *ownSess) lend(c *ownCell) string {
	str := string(c.buf)
	c.lent = append(c.lent, ownLent{str, s.number(c.buf)})
	return str
}

// ownJSON and ownTxt are marshalers that hand out memory they keep.
type ownJSON struct{ b []byte }

func (m ownJSON) MarshalJSON() ([]byte, error) { return m.b, nil }

type ownTxt struct{ b []byte }

func (m *ownTxt) MarshalText() ([]byte, error) { return m.b, nil }

type ownHolder struct {
	A int
	V *jv.V
}

type ownStruct struct {
	Head int    `json:"head"`
	List []any  `json:"list"`
	Text string `json:"text"`
}

// setLeaves turns value v into content k through the setters.
func (s *ownSess) setLeaves(v *jv.V, k int) {
	t := ownTree(k, s.size)
	num := func(b []byte) any {
		f, err := strconv.ParseInt(string(b), 10, 64)
		if err != nil {
			x, _ := strconv.ParseFloat(string(b), 64)
			return x
		}
		return f
	}
	v.MustSet(num(t.E[0].S)).At("head")
	v.MustSetString(string(t.E[2].S)).At("text")
	for i, e := range t.E[1].E {
		switch {
		case e.T == int(jv.Number):
			v.MustSet(num(e.S)).At("list", i)
		case e.T == int(jv.String):
			v.MustSetString(string(e.S)).At("list", i)
		default:
			v.MustSetString(string(e.E[0].S)).At("list", i, "x")
			v.MustSet(num(e.E[1].E[1].S)).At("list", i, "y", -1)
		}
	}
}

// overwrite puts content k into a Go value, in place.
func overwrite(dst, src any) any {
	switch d := dst.(type) {
	case *ownStruct:
		x := src.(*ownStruct)
		d.Head, d.Text = x.Head, x.Text
		overwrite(d.List, x.List)
	case map[string]any:
		for k, e := range src.(map[string]any) {
			d[k] = overwrite(d[k], e)
		}
	case []any:
		for i, e := range src.([]any) {
			d[i] = overwrite(d[i], e)
		}
	default:
		return src
	}
	return dst
}

func (s *ownSess) goOf(k int, asStruct bool) any {
	if asStruct {
		x := &ownStruct{}
		must(json.Unmarshal(s.content(k), x))
		return x
	}
	var x any
	must(json.Unmarshal(s.content(k), &x))
	return x
}

func (s *ownSess) run(o ownOp) {
	r := s.r
	via := ""
	fail := 0
	bad := func(err error) {
		if err != nil {
			fail = 1
		}
	}
	var made *ownCell
	src := &ownCell{}
	if o.S > 0 {
		src = s.cells[o.S-1]
	}
	dst := &ownCell{}
	if o.D > 0 {
		dst = s.cells[o.D-1]
	}
	pan := guard(func() string { return fmt.Sprintf("own %+v via %s, size %d", o, via, s.size) }, func() {
		switch o.Op {
		case "text":
			t := s.content(o.C)
			// with room behind, where careless appending would write
			esc := [2]int{}
			if r.p(50) {
				esc = someEscapes(r, t)
				t = ownEscaped(t, esc)
			}
			b := append(make([]byte, 0, len(t)+r.Intn(64)), t...)
			made = &ownCell{buf: b, esc: esc}
		case "parse":
			via = r.pick([]string{"Unmarshal", "UnmarshalString", "MustUnmarshal", "MustUnmarshalString", "UnmarshalJSON", "UnmarshalBinary", "json"})
			var err error
			v := &jv.V{}
			switch via {
			case "Unmarshal":
				v, err = jv.Unmarshal(src.buf)
			case "UnmarshalString":
				v, err = jv.UnmarshalString(s.lend(src))
			case "MustUnmarshal":
				v = jv.MustUnmarshal(src.buf)
			case "MustUnmarshalString":
				v = jv.MustUnmarshalString(s.lend(src))
			case "UnmarshalJSON":
				err = v.UnmarshalJSON(src.buf)
			case "UnmarshalBinary":
				err = v.UnmarshalBinary(src.buf)
			default:
				err = json.Unmarshal(src.buf, v)
			}
			bad(err)
			made = &ownCell{v: v}
		case "raw":
			var g any = json.RawMessage(src.buf)
			via = r.pick([]string{"raw", "raw", "*raw", "json", "*json", "jsonv"})
			switch via {
			case "*raw":
				x := json.RawMessage(src.buf)
				g = &x
			case "json":
				g = ownJSON{src.buf}
			case "*json":
				g = &ownJSON{src.buf}
			case "jsonv": // one that contains another
				g = struct{ X any }{ownJSON{src.buf}}
			}
			var err error
			w := &jv.V{}
			v := w
			switch r.Intn(7) {
			case 0:
				v = jv.New(g)
			case 1:
				v, err = jv.NewObject().Set(g).At("a", "b")
			case 2:
				w, err = jv.Import([]any{g})
				v = w.MustGet(0)
			case 3:
				w, err = jv.Import(map[string]any{"a": g})
				v = w.MustGet("a")
			case 4:
				w, err = jv.Import(struct{ X any }{g})
				v = w.MustGet("X")
			case 5:
				v, err = jv.NewArray().Append(g).InTheEnd()
			default:
				v, err = jv.Import(g)
			}
			if via == "jsonv" {
				v = v.MustGet("X")
			}
			bad(err)
			made = &ownCell{v: v}
		case "txt":
			g := &ownTxt{src.buf}
			via = r.pick([]string{"Import", "New", "struct", "[]byte"})
			var err error
			v := &jv.V{}
			switch via {
			case "Import":
				v, err = jv.Import(g)
			case "New":
				v = jv.New(g)
			case "struct":
				var w *jv.V
				w, err = jv.Import(struct{ X *ownTxt }{g})
				v = w.MustGet("X")
			default: // bytes come back as they were
				v = jv.NewString(string(jv.NewBytes(src.buf).Bytes()))
			}
			bad(err)
			made = &ownCell{v: v}
		case "into":
			via = r.pick([]string{"UnmarshalJSON", "UnmarshalBinary", "json"})
			switch via {
			case "UnmarshalJSON":
				bad(dst.v.UnmarshalJSON(src.buf))
			case "UnmarshalBinary":
				bad(dst.v.UnmarshalBinary(src.buf))
			default:
				bad(json.Unmarshal(src.buf, dst.v))
			}
		case "mar":
			via = r.pick([]string{"Marshal", "Marshal", "MarshalString", "MarshalString", "MustMarshal", "MustMarshalString", "MarshalJSON", "MarshalBinary", "json", "String"})
			made = &ownCell{}
			var err error
			seq := jv.OptDefaultStringSequence()
			switch via {
			case "Marshal":
				made.buf, err = src.v.Marshal(seq)
			case "MarshalString":
				made.str, err = src.v.MarshalString(seq)
			case "MustMarshal":
				made.buf = src.v.MustMarshal(jv.OptSetSequence())
			case "MustMarshalString":
				made.str = src.v.MustMarshalString()
			case "MarshalJSON":
				made.buf, err = src.v.MarshalJSON()
			case "MarshalBinary":
				made.buf, err = src.v.MarshalBinary()
			case "json":
				made.buf, err = json.Marshal(src.v)
			default:
				made.str = src.v.MustMarshalString(jv.OptIndent("", " "))
			}
			bad(err)
		case "copy":
			via = r.pick([]string{"Import", "New", "struct", "slice", "map", "Set", "Append", "Export", "Exports"})
			var v, w *jv.V
			var err error
			switch via {
			case "Import":
				v, err = jv.Import(src.v)
			case "New":
				v = jv.New(src.v)
			case "struct":
				w, err = jv.Import(&ownHolder{1, src.v})
				v = w.MustGet("V")
			case "Export":
				v = &jv.V{}
				if r.p(30) {
					v = jv.MustUnmarshalString(`{"old":[1,{"a":2}]}`)
				}
				if r.p(30) {
					err = src.v.Export(&v)
				} else {
					err = src.v.Export(v)
				}
			case "Exports":
				x := map[string]jv.V{}
				y := jv.NewObject()
				_, err = y.Set(src.v).At("k")
				if err == nil {
					err = y.Export(&x)
				}
				z := x["k"]
				v = &z
			case "slice":
				w, err = jv.Import([]*jv.V{src.v})
				v = w.MustGet(0)
			case "map":
				w, err = jv.Import(map[string]any{"a": src.v})
				v = w.MustGet("a")
			case "Set":
				w = jv.NewObject()
				_, err = w.Set(ownHolder{2, src.v}).At("in")
				v = w.MustGet("in", "V")
			default:
				w = jv.NewArray()
				_, err = w.Append([]any{src.v}).InTheEnd()
				v = w.MustGet(0, 0)
			}
			bad(err)
			made = &ownCell{v: v}
		case "exp":
			via = r.pick([]string{"any", "map", "struct"})
			made = &ownCell{}
			switch via {
			case "any":
				var x any
				bad(src.v.Export(&x))
				made.g = x
			case "map":
				x := map[string]any{}
				bad(src.v.Export(&x))
				made.g = x
			default:
				x := &ownStruct{}
				bad(src.v.Export(x))
				made.g = x
			}
			if made.g == nil {
				made.str = "?"
			}
		case "imp":
			via = r.pick([]string{"Import", "New", "Set"})
			var err error
			v := &jv.V{}
			switch via {
			case "Import":
				v, err = jv.Import(src.g)
			case "New":
				v = jv.New(src.g)
			default:
				w := jv.NewObject()
				v, err = w.Set(src.g).At("a", "b")
			}
			bad(err)
			made = &ownCell{v: v}
		case "mut":
			s.content(o.C)
			s.setLeaves(dst.v, o.C)
		case "write":
			t := s.content(o.C)
			t = ownEscaped(t, dst.esc)
			switch {
			case dst.v != nil:
				dst.v = jv.NewString(string(t))
			case dst.g != nil:
				_, st := dst.g.(*ownStruct)
				dst.g = overwrite(dst.g, s.goOf(o.C, st))
			case dst.buf != nil && len(dst.buf) == len(t):
				copy(dst.buf, t) // in place
				for i := len(dst.buf); i < cap(dst.buf); i++ {
					dst.buf[:cap(dst.buf)][i] = '#'
				}
			case dst.buf != nil:
				clobber(dst.buf)
				dst.buf = append([]byte(nil), t...)
			default: // a string cannot be written: another one takes its place
				dst.str = string(t)
			}
		}
	})
	if made != nil {
		if made.v == nil && made.buf == nil && made.g == nil && made.str == "" {
			made.str = "?"
		}
		s.cells = append(s.cells, made)
	} else if pan && o.Op != "into" && o.Op != "mut" && o.Op != "write" {
		s.cells = append(s.cells, &ownCell{str: "?"})
	}
	var look L
	for _, c := range s.cells {
		look = append(look, s.see(c))
	}
	s.out.put(O{"op", o.Op, "s", o.S, "d", o.D, "c", o.C, "via", via, "e", fail, "look", look, "pan", pan})
}

func readOwn(path string) (res [][]ownOp) {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var ops []ownOp
		must(json.Unmarshal(sc.Bytes(), &ops))
		res = append(res, ops)
	}
	must(sc.Err())
	return res
}

func ownSize(r *rng) int {
	switch k := r.Intn(100); {
	case k < 60:
		return r.Intn(4)
	case k < 80:
		return 100 + r.Intn(80)
	case k < 97:
		return 800 + r.Intn(800)
	}
	return 6000 + r.Intn(4000)
}

// random drives one session of n operations.
func (s *ownSess) random(n, max int) {
	r := s.r
	kinds := map[string][]int{}
	s.run(ownOp{Op: "text", C: 1})
	kinds["buf"] = []int{1}
	any1 := func(k string) int {
		l := kinds[k]
		if len(l) == 0 {
			return 0
		}
		if r.p(60) {
			return l[len(l)-1]
		}
		return l[r.Intn(len(l))]
	}
	for i := 0; i < n; i++ {
		o := ownOp{C: 1 + r.Intn(9)}
		grow := len(s.cells) < max
		made := ""
		switch k := r.Intn(100); {
		case k < 6 && grow:
			o.Op, made = "text", "buf"
		case k < 22 && grow:
			o.Op, o.S, made = "parse", any1("buf"), "val"
		case k < 27 && grow:
			o.Op, o.S, made = "raw", any1("buf"), "val"
		case k < 29 && grow:
			o.Op, o.S, made = "txt", any1("buf"), "out"
		case k < 35:
			o.Op, o.S, o.D = "into", any1("buf"), any1("val")
		case k < 55 && grow:
			o.Op, o.S, made = "mar", any1("val"), "out"
		case k < 65 && grow:
			o.Op, o.S, made = "copy", any1("val"), "val"
		case k < 70 && grow:
			o.Op, o.S, made = "exp", any1("val"), "go"
		case k < 74 && grow:
			o.Op, o.S, made = "imp", any1("go"), "val"
		case k < 85:
			o.Op, o.D = "mut", any1("val")
		default:
			o.Op, o.D = "write", any1(r.pick([]string{"buf", "buf", "out", "go"}))
		}
		if o.Op != "text" && o.S == 0 && o.D == 0 || o.Op == "into" && (o.S == 0 || o.D == 0) {
			continue
		}
		if o.Op != "text" && o.Op != "mut" && o.Op != "write" {
			o.C = 0
		}
		s.run(o)
		if made != "" {
			kinds[made] = append(kinds[made], len(s.cells))
		}
	}
}

func famOwn(c cfg) {
	out := newOut(c.out, "own", c.shards)
	r := newRng(c.seed*71 + 3)
	sess := 0
	for _, ops := range readOwn(c.tests) {
		size := r.Intn(3)
		if r.p(8) {
			size = ownSize(r)
		}
		s := newOwn(r, out, size)
		for _, o := range ops {
			s.run(o)
		}
		out.advance()
		sess++
	}
	for done := 0; done < c.n; sess++ {
		s := newOwn(r, out, ownSize(r))
		n := 15 + r.Intn(25)
		max := 14
		if s.size > 5000 {
			n, max = 15, 6
		}
		s.random(n, max)
		done += n
		out.advance()
	}
	out.close()
	fmt.Printf("{\"lines\":%d,\"sessions\":%d}\n", out.lines, sess)
}
