package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// mopt is one marshal option, as in spec/JVMarshal.tla.
type mopt struct {
	O  string `json:"o"`
	B  int    `json:"b"`
	I  int    `json:"i"`
	S  bs     `json:"s"`
	S2 bs     `json:"s2"`
	Ks []bs   `json:"ks"`
	Nt int    `json:"nt"`
	Ns bs     `json:"ns"`
	It int    `json:"it"`
	Ip bs     `json:"ip"`
	In bs     `json:"in"`
}

func (o *mopt) enc() O {
	ks := make([][]byte, len(o.Ks))
	for i, k := range o.Ks {
		ks[i] = k
	}
	return O{"o", o.O, "b", o.B, "i", o.I, "s", []byte(o.S), "s2", []byte(o.S2), "ks", ks,
		"nt", o.Nt, "ns", []byte(o.Ns), "it", o.It, "ip", []byte(o.Ip), "in", []byte(o.In)}
}

func litFloat(s []byte) float64 {
	switch string(s) {
	case "NaN":
		return math.NaN()
	case "+Inf":
		return math.Inf(1)
	case "-Inf":
		return math.Inf(-1)
	}
	f, err := strconv.ParseFloat(string(s), 64)
	must(err)
	return f
}

type lessCall struct {
	i      int
	path   L
	k1, k2 string
	v1, v2 *Tree
}

type marSess struct {
	r    *rng
	out  *Out
	log  []lessCall
	kept []kept
	pool []kept   // option objects shared with other goroutines
	keys []string // of the objects of this session
}
type kept struct {
	os   []*mopt
	opts []jv.Option
}

func (s *marSess) less(i int) jv.MarshalLessFunc {
	if i == 0 {
		return nil
	}
	return func(p *jv.ParentInfo, k1, k2 string, v1, v2 *jv.V) bool {
		path := L{}
		if p != nil {
			for _, k := range p.KeyPath {
				if k.IsString() {
					path = append(path, O{"k", "s", "s", []byte(k.String()), "i", 0})
				} else {
					path = append(path, O{"k", "i", "s", []byte{}, "i", k.Int()})
				}
			}
			_ = p.KeyPath.String()
		}
		if len(s.log) < 60 {
			s.log = append(s.log, lessCall{i, path, k1, k2, project(v1), project(v2)})
		}
		switch i {
		case 1:
			return k1 < k2
		case 2:
			return k2 < k1
		case 3:
			return len(k1) < len(k2) || len(k1) == len(k2) && k1 < k2
		case 4:
			return v1.ValueType() < v2.ValueType() || v1.ValueType() == v2.ValueType() && k1 < k2
		}
		if len(path)%2 == 1 {
			return k2 < k1
		}
		return k1 < k2
	}
}

func (s *marSess) option(o *mopt) jv.Option {
	var ks []string
	for _, k := range o.Ks {
		ks = append(ks, string(k))
	}
	on := o.B == 1
	switch o.O {
	case "omit":
		return jv.OptOmitNull(on)
	case "ignomit":
		return jv.OptIgnoreOmitempty()
	case "less":
		return jv.OptKeySequenceWithLessFunc(s.less(o.I))
	case "defstr":
		return jv.OptDefaultStringSequence()
	case "keyseq":
		return jv.OptKeySequence(ks)
	case "setseq":
		return jv.OptSetSequence()
	case "nanF":
		return jv.OptFloatNaNToFloat(litFloat(o.S))
	case "nanN":
		return jv.OptFloatNaNToNull()
	case "nanS":
		return jv.OptFloatNaNToString(string(o.S))
	case "nanStd":
		return jv.OptFloatNaNToStringNaN()
	case "infF":
		return jv.OptFloatInfToFloat(litFloat(o.S))
	case "infN":
		return jv.OptFloatInfToNull()
	case "infS":
		return jv.OptFloatInfToString(string(o.S), string(o.S2))
	case "infStd":
		return jv.OptFloatInfToStringInf()
	case "html":
		return jv.OptEscapeHTML(on)
	case "utf8":
		return jv.OptUTF8()
	case "slash":
		return jv.OptEscapeSlash(on)
	case "indent":
		return jv.OptIndent(string(o.S), string(o.S2))
	case "opt":
		x := jv.Opt{OmitNull: on, MarshalLessFunc: s.less(o.I), MarshalKeySequence: ks,
			FloatNaNHandleType: jv.FloatNaNHandleType(o.Nt), FloatInfHandleType: jv.FloatInfHandleType(o.It)}
		switch o.Nt {
		case 1:
			x.FloatNaNToFloat = litFloat(o.Ns)
		case 3:
			x.FloatNaNToString = string(o.Ns)
		}
		switch o.It {
		case 1:
			x.FloatInfToFloat = litFloat(o.Ip)
		case 3:
			x.FloatInfPositiveToString, x.FloatInfNegativeToString = string(o.Ip), string(o.In)
		}
		return x
	}
	panic("DRIVER: option " + o.O)
}

func (s *marSess) options(os []*mopt) []jv.Option {
	var r []jv.Option
	for _, o := range os {
		r = append(r, s.option(o))
	}
	return r
}

func encOpts(os []*mopt) L {
	l := L{}
	for _, o := range os {
		l = append(l, o.enc())
	}
	return l
}

func (s *marSess) def(os []*mopt) {
	if len(os) == 0 && s.r.p(60) {
		jv.ResetDefaultMarshalOptions()
	} else {
		jv.SetDefaultMarshalOptions(s.options(os)...)
	}
	s.out.put(O{"op", "def", "opts", encOpts(os)})
}

func (s *marSess) mar(v *jv.V, os []*mopt, via string) {
	rep := 0
	var opts []jv.Option
	if len(s.pool) > 0 && s.r.p(50) {
		k := s.pool[s.r.Intn(len(s.pool))]
		os, opts, rep = k.os, k.opts, 1
	} else if len(s.kept) > 0 && s.r.p(20) && via != "test" { // option objects of an earlier call
		k := s.kept[s.r.Intn(len(s.kept))]
		os, opts, rep = k.os, k.opts, 1
	} else {
		opts = s.options(os)
		s.kept = append(s.kept, kept{os, opts})
	}
	if via == "test" {
		via = s.r.pick([]string{"Marshal", "Marshal", "Marshal", "MarshalString", "MustMarshal", "MustMarshalString"})
	}
	s.marWith(v, kept{os, opts}, rep, via)
}

func (s *marSess) marWith(v *jv.V, k kept, rep int, via string) {
	os, opts := k.os, k.opts
	before := project(v)
	s.log = nil
	var out []byte
	e := 0
	pan := guard(func() string { return fmt.Sprintf("%s of %.300s with %v", via, v.String(), opts) }, func() {
		var err error
		switch via {
		case "MarshalString":
			var str string
			str, err = v.MarshalString(opts...)
			out = []byte(str)
		case "MustMarshal":
			out = v.MustMarshal(opts...)
		case "MustMarshalString":
			out = []byte(v.MustMarshalString(opts...))
		case "MarshalJSON":
			out, err = v.MarshalJSON()
		case "MarshalBinary":
			out, err = v.MarshalBinary()
		default:
			out, err = v.Marshal(opts...)
		}
		e = b2i(err != nil)
	})
	out = append([]byte(nil), out...)
	calls := L{}
	for _, c := range s.log {
		calls = append(calls, O{"i", c.i, "p", c.path, "k1", []byte(c.k1), "k2", []byte(c.k2), "v1", c.v1, "v2", c.v2})
	}
	s.log = nil
	rt := 0
	if !pan && len(out) > 0 {
		guard(func() string { return fmt.Sprintf("reading back %q", out) }, func() {
			w, err := jv.Unmarshal(out)
			if err == nil && w.Equal(v) && v.Equal(w) {
				rt = 1
			}
		})
	}
	same := b2i(bytes.Equal(enc(nil, before), enc(nil, project(v))))
	s.out.put(O{"op", "mar", "via", via, "opts", encOpts(os), "rep", rep, "tree", before, "e", e, "out", out,
		"pan", pan, "less", calls, "rt", rt, "same", same})
}

// ---------------------------------------------------------------- generator

func (s *marSess) strv() bs {
	r := s.r
	if r.p(50) {
		return bs(r.pick([]string{"", "x", "NaN", "+Inf", "-Inf", "Inf", "++Inf", "+", "inf\"", "a/b", "<n>", "\u221e", "\t", "-"}))
	}
	return bs(randString(r, 4))
}
func (s *marSess) fltv() bs {
	return bs(s.r.pick([]string{"0", "1.5", "-2.25", "1e+300", "-1e-07", "12345678", "NaN", "+Inf", "-Inf", "-0", "1e+21"}))
}

var marKeys = []string{"a", "b", "c", "d", "aa", "ab", "B", "é", "k/", "<k>", "日", "z", "\U0001F600", "\x0b", "10", "9"}

// keyPool: mostly a fixed set; otherwise keys of one long common prefix.
func (s *marSess) keyPool() []string {
	if s.keys == nil {
		s.newKeys()
	}
	return s.keys
}
func (s *marSess) newKeys() {
	r := s.r
	s.keys = marKeys
	if r.p(25) {
		p := strings.Repeat(r.pick([]string{"k", "name", "é", "A_"}), 1+r.Intn(12))
		s.keys = nil
		for _, x := range []string{"", "1", "2", "10", "02", "9", "99", "100", "a", "B", "ab", "~", "\x00", "é", "11", "z9"} {
			s.keys = append(s.keys, p+x)
		}
	}
}

func (s *marSess) keyList() []bs {
	var ks []bs
	keys := s.keyPool()
	perm := s.r.Perm(len(keys))
	for n := s.r.Intn(6); n > 0; n-- {
		ks = append(ks, bs(keys[perm[n]]))
	}
	if s.r.p(20) {
		ks = append(ks, bs("absent"))
	}
	return ks
}

// opt picks an option for a focus property, or any.
func (s *marSess) opt(focus string) *mopt {
	r := s.r
	groups := map[string][]string{
		"C05": {"html", "utf8", "slash"},
		"C06": {"less", "defstr", "keyseq", "setseq", "less"},
		"C07": {"omit", "omit", "omit", "indent", "indent", "nanN", "infN", "nanS"},
		"C08": {"nanF", "nanN", "nanS", "nanStd", "infF", "infN", "infS", "infStd", "opt"},
	}
	all := []string{"omit", "less", "defstr", "keyseq", "setseq", "nanF", "nanN", "nanS", "nanStd", "infF", "infN", "infS", "infStd", "html", "utf8", "slash", "indent", "opt", "ignomit", "indent", "omit"}
	kind := r.pick(all)
	if g := groups[focus]; g != nil && r.p(70) {
		kind = r.pick(g)
	}
	return s.optOf(kind)
}

func (s *marSess) optOf(kind string) *mopt {
	r := s.r
	o := &mopt{O: kind, B: b2i(r.p(60))}
	switch kind {
	case "less":
		o.I = r.Intn(6)
	case "keyseq":
		o.Ks = s.keyList()
	case "nanF", "infF":
		o.S = s.fltv()
	case "nanS":
		o.S = s.strv()
	case "infS":
		o.S, o.S2 = s.strv(), s.strv()
	case "indent":
		o.S = bs(r.pick([]string{"", "", " ", "\t", "  "}))
		o.S2 = bs(r.pick([]string{"", " ", "  ", "\t", "    "}))
	case "opt":
		if r.p(40) {
			o.I = r.Intn(6)
		}
		if r.p(40) {
			o.Ks = s.keyList()
		}
		o.Nt, o.It = r.Intn(4), r.Intn(4)
		switch o.Nt {
		case 1:
			o.Ns = s.fltv()
		case 3:
			o.Ns = s.strv()
		}
		switch o.It {
		case 1:
			o.Ip = s.fltv()
		case 3:
			o.Ip, o.In = s.strv(), s.strv()
		}
	}
	return o
}

func (s *marSess) opts(focus string, max int) []*mopt {
	var os []*mopt
	for n := s.r.Intn(max + 1); n > 0; n-- {
		os = append(os, s.opt(focus))
	}
	return os
}

// value builds a value in one of several ways; nonfin allows NaN and Inf.
func (s *marSess) value(depth, width, nonfin int) *jv.V {
	r := s.r
	k := r.Intn(12)
	if depth > 0 && r.p(40) {
		k = 9 + r.Intn(3)
	}
	if depth <= 0 {
		k = r.Intn(8)
	}
	switch {
	case k == 0:
		return jv.NewNull()
	case k == 1:
		return jv.NewBool(r.p(50))
	case k <= 4:
		if r.p(nonfin) {
			return jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		}
		switch r.Intn(5) {
		case 0:
			return jv.NewInt64(int64(r.Uint64()) >> uint(r.Intn(64)))
		case 1:
			return jv.NewUint64(r.Uint64() >> uint(r.Intn(64)))
		case 2:
			f := math.Float64frombits(r.Uint64())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				f = 0
			}
			return jv.NewFloat64(f)
		case 3:
			return jv.NewFloat32(float32(r.Intn(2000)-1000) / 8)
		}
		return jv.MustUnmarshalString(randNumber(r))
	case k <= 7:
		if r.p(6) {
			return jv.NewString(brokenString(r))
		}
		return jv.NewString(randString(r, 10))
	case k <= 9:
		n := r.Intn(width + 1)
		v := jv.NewArray()
		for i := 0; i < n; i++ {
			v.MustAppend(s.value(depth-1, width, nonfin)).InTheEnd()
		}
		return v
	}
	n := r.Intn(width + 1)
	v := jv.NewObject()
	for i := 0; i < n; i++ {
		key := r.pick(s.keyPool())
		if r.p(10) {
			key = randString(r, 4)
		}
		if r.p(25) {
			v.MustSetNull().At(key)
		} else {
			v.MustSet(s.value(depth-1, width, nonfin)).At(key)
		}
	}
	if n > 0 && r.p(30) {
		_ = v.Delete(r.pick(s.keyPool()))
	}
	return v
}

// brokenString holds bytes that are not UTF-8.
func brokenString(r *rng) string {
	s := ""
	for n := 1 + r.Intn(6); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			s += r.pick([]string{"\x80", "\xbf", "\xff", "\xfe", "\xc0", "\xc1\xbf", "\xc3", "\xe4\xbd", "\xed\xa0\x80", "\xed\xb0\x80", "\xe0\x80\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf5", "\xf0\x80\x80\x80"})
		case 1:
			b := make([]byte, 1+r.Intn(5))
			r.Read(b)
			s += string(b)
		default:
			s += randString(r, 5)
		}
	}
	return s
}

// wide is an object (holding arrays and objects in turn) of many keys.
// denseRunes gives a string of at least n bytes with hardly anything but long
// characters, so that any cut between its bytes is likely to hit one.
func denseRunes(r *rng, n int) string {
	cps := []rune{0x1F600, 0x10FFFF, 0x10000, 0x65E5, 0xE9, 0x2028, 0xFFFD}
	most := cps[r.Intn(4)]
	b := []byte("abcd"[:r.Intn(4)])
	for len(b) < n {
		c := most
		if r.p(2) {
			c = cps[r.Intn(len(cps))]
		}
		b = append(b, string(c)...)
	}
	return string(b)
}

// acrossBlock gives a string with special characters at or across byte n.
func acrossBlock(r *rng, n int) string {
	special := []string{"\"", "\\", "/", "<", ">", "&", "\n", "\x00", "\x7f", "\u00e9", "\u65e5", "\U0001F600", "\u2028", "\u2029", "\xff", "\xe6\x97", "%", "\ufffd"}
	var b []byte
	for i := r.Intn(4); i > 0; i-- {
		b = append(b, r.pick(special)...)
	}
	for len(b) < n-r.Intn(5) {
		b = append(b, byte('a'+len(b)%26))
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		b = append(b, r.pick(special)...)
	}
	if r.p(50) {
		for i := r.Intn(n); i > 0; i-- {
			b = append(b, 'z')
		}
		b = append(b, r.pick(special)...)
	}
	return string(b)
}

func (s *marSess) wide(n int) *jv.V {
	v := jv.NewObject()
	in := v
	for i := 0; i < 3; i++ {
		in, _ = in.Set(jv.NewObject()).At("deep")
		in, _ = in.Set(jv.NewArray()).At("arr")
		in, _ = in.Append(jv.NewObject()).InTheEnd()
		for k := 0; k < 3; k++ {
			in.MustSetInt(k).At(fmt.Sprint("k", s.r.Intn(30)))
		}
	}
	for i := 0; i < n; i++ {
		v.MustSet(s.value(0, 1, 0)).At(fmt.Sprint("k", s.r.Intn(2*n)))
	}
	return v
}

// chain is a document of the given depth, with something at each level.
func (s *marSess) chain(depth, nonfin int) *jv.V {
	r := s.r
	v := s.value(1, 2, nonfin)
	for ; depth > 0; depth-- {
		var up *jv.V
		if r.p(50) {
			up = jv.NewArray()
			if r.p(20) {
				up.MustAppend(s.value(0, 1, nonfin)).InTheEnd()
			}
			up.MustAppend(v).InTheEnd()
			if r.p(20) {
				up.MustAppend(s.value(0, 1, nonfin)).InTheEnd()
			}
		} else {
			up = jv.NewObject()
			if r.p(20) {
				up.MustSet(s.value(0, 1, nonfin)).At(r.pick(s.keyPool()))
			}
			up.MustSet(v).At(r.pick(s.keyPool()))
		}
		v = up
	}
	return v
}

var concerns = [][]string{
	{"keyseq", "keyseq", "less", "defstr", "setseq", "opt"},
	{"nanF", "nanN", "nanS", "nanStd", "opt"},
	{"infF", "infN", "infS", "infS", "infStd", "opt"},
	{"html", "utf8", "slash", "html", "slash"},
	{"indent", "indent", "omit", "opt"},
}

// interfere lets options of one concern follow one another: as defaults and in
// calls, in one call and in several, with the same option objects and new ones.
func (s *marSess) interfere(g []string) {
	r := s.r
	v := jv.NewObject()
	keys := s.keyPool()
	for _, i := range r.Perm(len(keys))[:3+r.Intn(8)] {
		var c *jv.V
		switch x := r.Intn(6); {
		case x == 0 && (g[0] == "nanF" || g[0] == "infF"):
			c = jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		case x <= 1:
			c = jv.NewString(r.pick([]string{"a/b", "<i>&", "\u00e9\u65e5", "\U0001F600/", "\x00\n", "\u2028"}))
		case x == 2:
			c = jv.NewNull()
		case x == 3:
			c = s.value(1, 3, 0)
		default:
			c = jv.NewInt(i)
		}
		v.MustSet(c).At(keys[i])
	}
	if g[0] == "nanF" || g[0] == "infF" {
		v.MustSet(jv.NewFloat64(math.NaN())).At("z")
		if g[0] == "infF" {
			v.MustDelete("z")
		}
		v.MustSet(jv.NewFloat64(math.Inf(1 - 2*r.Intn(2)))).At("inf")
		if g[0] == "nanF" {
			v.MustDelete("inf")
		}
	}
	one := func() *mopt { return s.optOf(r.pick(g)) }
	x, y := one(), one()
	for i := 0; i < 8 && x.O == "opt" && y.O == "opt"; i++ {
		y = one()
	}
	both := kept{[]*mopt{x, y}, s.options([]*mopt{x, y})}
	part := func(i, j int) kept { return kept{both.os[i:j:j], both.opts[i:j:j]} }
	via := func() string { return r.pick([]string{"Marshal", "Marshal", "MarshalString", "MustMarshal"}) }
	if r.p(60) {
		if r.p(50) {
			jv.SetDefaultMarshalOptions(both.opts[0])
		} else {
			jv.SetDefaultMarshalOptions(s.options([]*mopt{x})...)
		}
		s.out.put(O{"op", "def", "opts", encOpts([]*mopt{x})})
	}
	for _, i := range []int{r.Intn(4), r.Intn(4), r.Intn(4), 3, 1} {
		switch i {
		case 0:
			s.marWith(v, both, 1, via())
		case 1:
			s.marWith(v, part(0, 1), 1, via())
		case 2:
			s.marWith(v, part(1, 2), 1, via())
		default:
			s.marWith(v, kept{}, 0, via())
		}
	}
}

// round sends a value through text or a copy, so that it has another origin.
func (s *marSess) origin(v *jv.V) *jv.V {
	if s.r.p(60) {
		return v
	}
	if s.r.p(50) {
		x, err := jv.Import(v)
		if err == nil {
			return x
		}
	}
	b, err := v.Marshal(jv.OptSetSequence())
	if err != nil {
		return v
	}
	x, err := jv.Unmarshal(b)
	if err != nil {
		return v
	}
	return x
}

// special builds a tree that may hold non-finite numbers.
func special(r *rng, t *Tree) *jv.V {
	switch t.T {
	case int(jv.Number):
		if c := t.S[len(t.S)-1]; c == 'N' || c == 'f' {
			return jv.NewFloat64(litFloat(t.S))
		}
	case int(jv.Array):
		a := jv.NewArray()
		for _, c := range t.E {
			a.MustAppend(special(r, c)).InTheEnd()
		}
		return a
	case int(jv.Object):
		o := jv.NewObject()
		for i, c := range t.E {
			o.MustSet(special(r, c)).At(string(t.K[i]))
		}
		return o
	case 0:
		return &jv.V{}
	}
	return build(r, t)
}

type marTest struct {
	Def  []*mopt `json:"def"`
	Call []*mopt `json:"call"`
	Tree *jtree  `json:"tree"`
}

func famMar(c cfg) {
	out := newOut(c.out, "mar", c.shards)
	r := newRng(c.seed*17 + 5)
	s := &marSess{r: r, out: out}
	start := func() {
		s.kept = nil
		jv.ResetDefaultMarshalOptions()
		out.put(O{"op", "reset"})
	}
	sess := 0
	if c.tests != "" {
		f, err := os.Open(c.tests)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var t marTest
			must(json.Unmarshal(sc.Bytes(), &t))
			start()
			v := special(r, t.Tree.tree())
			if len(t.Def) > 0 {
				s.def(t.Def)
			}
			s.mar(v, t.Call, "test")
			out.advance()
			sess++
		}
		must(sc.Err())
		f.Close()
	}
	// more keys than a small counter counts
	if c.focus == "C06" {
		for k := 0; k < 6; k++ {
			n := 257 + r.Intn(350)
			v := jv.NewObject()
			o := &mopt{O: r.pick([]string{"keyseq", "keyseq", "keyseq", "setseq", "defstr"})}
			for _, i := range r.Perm(n) {
				v.MustSetInt(i).At(fmt.Sprint("k", i))
			}
			for _, i := range r.Perm(n + 50)[:n-r.Intn(n/8)] {
				o.Ks = append(o.Ks, bs(fmt.Sprint("k", i)))
			}
			if o.O != "keyseq" {
				o.Ks = nil
			}
			start()
			s.mar(v, []*mopt{o}, "Marshal")
			out.advance()
		}
	}
	// every character in every escaping mode
	if c.focus == "C05" || c.focus == "C04" {
		lim := rune(0x900)
		if c.thorough() {
			lim = 0x11000
		}
		for mode := 0; mode < 8; mode++ {
			var os []*mopt
			if mode&1 != 0 {
				os = append(os, &mopt{O: "utf8"})
			}
			if mode&2 != 0 {
				os = append(os, &mopt{O: "html", B: 0})
			}
			if mode&4 != 0 {
				os = append(os, &mopt{O: "slash", B: 0})
			}
			var l []rune
			flush := func() {
				v := jv.NewString(string(l))
				if r.p(20) {
					v = jv.NewObject()
					v.MustSetString(string(l)).At(string(l))
				}
				start()
				s.mar(v, os, "Marshal")
				out.advance()
				l = nil
			}
			if c.thorough() && mode > 1 {
				lim = 0x200
			}
			for cp := rune(0); cp < lim; cp++ {
				if cp >= 0xd800 && cp < 0xe000 {
					continue
				}
				l = append(l, cp)
				if len(l) == 96 {
					flush()
				}
			}
			for _, cp := range interestingRunes {
				l = append(l, cp)
			}
			flush()
			for n := 0; n < 12; n++ {
				start()
				s.mar(jv.NewString(brokenString(r)), os, "Marshal")
				out.advance()
			}
			for _, n := range []int{600, 1100, 1300, 2100, 4200, 8300} {
				if n > 1500 && r.p(75) && !c.thorough() {
					continue
				}
				start()
				s.mar(jv.NewString(denseRunes(r, n)), os, "Marshal")
				out.advance()
			}
			for _, n := range []int{32, 64, 128, 256, 512, 1024, 2048, 4096, 8192} {
				if n > 600 && r.p(70) || n > 1500 && r.p(75) && !c.thorough() {
					continue
				}
				x := acrossBlock(r, n)
				v := jv.NewString(x)
				if n < 600 && r.p(30) {
					v = jv.NewObject()
					v.MustSetString(x).At(x[:n/2])
					v.MustSetString("/<").At(x)
				}
				start()
				s.mar(v, os, "Marshal")
				out.advance()
			}
		}
	}
	for g, n := range map[string][]int{"C09": {50, 16, 24, 16, 16}, "C06": {20}, "C08": {0, 10, 12}, "C05": {0, 0, 0, 12}, "C07": {0, 0, 0, 0, 14}} {
		for i := range n {
			for k := n[i]; g == c.focus && k > 0; k-- {
				start()
				s.newKeys()
				s.interfere(concerns[i])
				out.advance()
			}
		}
	}
	for done := 0; done < c.n; sess++ {
		start()
		s.newKeys()
		nonfin := 0
		if c.focus == "C08" || r.p(30) || c.focus == "C07" && r.p(40) {
			nonfin = 35
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			if c.focus == "C09" || r.p(40) {
				s.def(s.opts(c.focus, 4))
			}
			v := s.origin(s.value(1+r.Intn(3), 1+r.Intn(5), nonfin))
			if r.p(2) { // wide and deep
				v = s.origin(s.wide(r.rangeI(13, 60)))
			}
			if r.p(2) || c.focus == "C07" && r.p(10) {
				v = s.origin(s.chain(r.rangeI(9, 45), nonfin))
			}
			for n := 1 + r.Intn(4); n > 0; n-- {
				via := r.pick([]string{"Marshal", "Marshal", "Marshal", "Marshal", "MarshalString", "MustMarshal", "MustMarshalString", "MarshalJSON", "MarshalBinary"})
				if r.p(2) {
					s.mar([]*jv.V{{}, jv.MustUnmarshalString("{x"), jv.MustUnmarshalString("1").MustGet("a")}[r.Intn(3)], s.opts(c.focus, 2), "Marshal")
				}
				s.mar(v, s.opts(c.focus, 4), via)
				done++
			}
		}
		out.advance()
	}
	jv.ResetDefaultMarshalOptions()
	out.close()
	fmt.Printf("{\"lines\":%d,\"sessions\":%d}\n", out.lines, sess)
}
