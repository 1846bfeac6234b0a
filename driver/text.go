package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// readTests reads TLC-generated tests: one JSON array of byte values per line.
func readTests(path string) [][]byte {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	var res [][]byte
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var ints []int
		must(json.Unmarshal(sc.Bytes(), &ints))
		b := make([]byte, len(ints))
		for i, x := range ints {
			b[i] = byte(x)
		}
		res = append(res, b)
	}
	must(sc.Err())
	return res
}

type parseRes struct {
	e, p, n, vt int // error (2 unknown), panic, nil result, value type
	tree        *Tree
	out         []byte
	oe          int // error of marshaling
}

func summarize(v *jv.V, e int) parseRes {
	r := parseRes{e: e}
	if v == nil {
		r.n = 1
		return r
	}
	r.vt = int(v.ValueType())
	if r.vt != 0 {
		r.tree = project(v)
		b, err := v.Marshal(jv.OptSetSequence())
		r.oe = b2i(err != nil)
		r.out = b
	}
	return r
}

func (r parseRes) enc(eps string) O {
	return O{"e", r.e, "p", r.p, "n", r.n, "vt", r.vt, "tree", r.tree, "out", r.out, "oe", r.oe, "eps", eps}
}

var parseEntries = []struct {
	name string
	f    func(b []byte) (*jv.V, int)
}{
	{"Unmarshal", func(b []byte) (*jv.V, int) { v, err := jv.Unmarshal(b); return v, b2i(err != nil) }},
	{"UnmarshalString", func(b []byte) (*jv.V, int) { v, err := jv.UnmarshalString(string(b)); return v, b2i(err != nil) }},
	{"UnmarshalNoCopy", func(b []byte) (*jv.V, int) { v, err := jv.UnmarshalNoCopy(b); return v, b2i(err != nil) }},
	{"MustUnmarshal", func(b []byte) (*jv.V, int) { return jv.MustUnmarshal(b), 2 }},
	{"MustUnmarshalString", func(b []byte) (*jv.V, int) { return jv.MustUnmarshalString(string(b)), 2 }},
	{"MustUnmarshalNoCopy", func(b []byte) (*jv.V, int) { return jv.MustUnmarshalNoCopy(b), 2 }},
}

func textLine(in []byte) O {
	type grp struct {
		r   parseRes
		key string
		eps []string
	}
	var gs []*grp
	for _, ep := range parseEntries {
		ep := ep
		var r parseRes
		buf := append([]byte(nil), in...)
		if guard(func() string { return fmt.Sprintf("%s(%q)", ep.name, in) }, func() {
			v, e := ep.f(buf)
			r = summarize(v, e)
		}) {
			r = parseRes{p: 1}
		}
		key := string(enc(nil, r.enc("")))
		found := false
		for _, g := range gs {
			if g.key == key {
				g.eps = append(g.eps, ep.name)
				found = true
			}
		}
		if !found {
			gs = append(gs, &grp{r, key, []string{ep.name}})
		}
	}
	var l L
	for _, g := range gs {
		l = append(l, g.r.enc(strings.Join(g.eps, " ")))
	}
	return O{"op", "txt", "in", in, "g", l}
}

// ---------------------------------------------------------------- generators

type textGen struct {
	r    *rng
	b    []byte
	keys []string
	ws   int // percentage of blanks
	num  func() string
}

var plainKeys = []string{"a", "b", "c", "key", "Key", "", "a b", "日本", "é", "0", "x/y", "\U0001F600", "\t", "\"q\"", "\\", "null", "\u2028"}

func (g *textGen) blank() {
	for g.r.p(g.ws) {
		g.b = append(g.b, " \t\n\r"[g.r.Intn(4)])
	}
}

func (g *textGen) hex4(c rune) {
	f := "\\u%04x"
	if g.r.p(50) {
		f = "\\u%04X"
	}
	g.b = append(g.b, fmt.Sprintf(f, c)...)
}

// str writes a string token in one of its many spellings.
func (g *textGen) str(s string) {
	esc := []int{0, 10, 100}[g.r.Intn(3)]
	g.b = append(g.b, '"')
	for _, c := range s {
		short := strings.IndexRune("\"\\/\b\f\n\r\t", c)
		switch {
		case short >= 0 && (c < 32 || c == '"' || c == '\\' || g.r.p(50)) && !(g.r.p(esc)):
			g.b = append(g.b, '\\', "\"\\/bfnrt"[short])
		case c < 32 || c == '"' || c == '\\' || g.r.p(esc):
			if c > 0xffff {
				c -= 0x10000
				g.hex4(0xd800 + c>>10)
				g.hex4(0xdc00 + c&0x3ff)
			} else {
				g.hex4(c)
			}
		default:
			g.b = append(g.b, string(c)...)
		}
	}
	g.b = append(g.b, '"')
}

var interestingRunes = []rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 31, ' ', '!', '"', '#', '%', '&', '\'', '/', '0', '9', '<', '>', 'A', 'Z', '[', '\\', ']', '`', 'a', 'z', '{', '}', '~', 0x7f,
	0x80, 0x85, 0xa0, 0xe9, 0xff, 0x100, 0x2ff, 0x3b1, 0x416, 0x7ff, 0x800, 0xfff, 0x1000, 0x2027, 0x2028, 0x2029, 0x202a, 0x4e2d, 0x9fff, 0xabcd, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff,
	0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1f64f, 0x1ffff, 0x20000, 0x2ffff, 0x40000, 0x80000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}

func randString(r *rng, max int) string {
	n := r.Intn(max + 1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			sb.WriteRune(interestingRunes[r.Intn(len(interestingRunes))])
		case 1:
			sb.WriteByte(byte(r.rangeI(32, 126)))
		case 2:
			sb.WriteByte("abcABC/<>&\"\\"[r.Intn(12)])
		default:
			for {
				c := rune(r.Intn(0x110000))
				if r.p(60) {
					c = rune(r.Intn(0x3000))
				}
				if utf8.ValidRune(c) {
					sb.WriteRune(c)
					break
				}
			}
		}
	}
	return sb.String()
}

func randDigits(r *rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// randNumber yields a literal within the accepted ranges (mostly).
func randNumber(r *rng) string {
	switch r.Intn(8) {
	case 0:
		return r.pick([]string{"0", "-0", "0.0", "-0.0", "0e0", "0E+5", "-0e-3", "1", "-1", "10", "100", "1e2", "1E2", "1e+2", "1e-2", "0.1", "1.0", "1.50", "-1.5e-7",
			"9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e308", "-1e308", "1e-308", "5e-324", "1e-400", "1.7976931348623157e308", "0.1e1", "123456789.987654321", "1e23", "9007199254740993", "9007199254740993.0", "4.35", "2.2250738585072011e-308", "100000000000000000000.0"})
	case 1, 2:
		return fmt.Sprint(r.rangeI(-1000, 1000))
	case 3:
		return fmt.Sprint(int64(r.Uint64()))
	case 4:
		return fmt.Sprint(r.Uint64())
	case 5:
		s := fmt.Sprint(r.rangeI(-1000, 1000)) + "." + randDigits(r, 1+r.Intn(6))
		return s
	case 6:
		s := fmt.Sprint(r.rangeI(-9, 9))
		if r.p(50) {
			s += "." + randDigits(r, 1+r.Intn(20))
		}
		s += r.pick([]string{"e", "E"}) + r.pick([]string{"", "+", "-"}) + randDigits(r, 1+r.Intn(2))
		return s
	default:
		return r.pick([]string{"", "-"}) + fmt.Sprint(1+r.Intn(9)) + randDigits(r, r.Intn(18)) + "." + randDigits(r, 1+r.Intn(30))
	}
}

func (g *textGen) key() string {
	if len(g.keys) > 0 && g.r.p(85) {
		return g.keys[g.r.Intn(len(g.keys))]
	}
	return randString(g.r, 6)
}

func (g *textGen) value(depth, width int) {
	k := g.r.Intn(10)
	if depth <= 0 && k >= 6 {
		k = g.r.Intn(6)
	}
	switch {
	case k == 0:
		g.b = append(g.b, g.r.pick([]string{"true", "false"})...)
	case k == 1:
		g.b = append(g.b, "null"...)
	case k <= 3:
		g.b = append(g.b, g.num()...)
	case k <= 5:
		g.str(randString(g.r, 8))
	case k <= 7:
		n := g.r.Intn(width + 1)
		g.b = append(g.b, '[')
		g.blank()
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.blank()
			}
			g.value(depth-1, width)
			g.blank()
		}
		g.b = append(g.b, ']')
	default:
		n := g.r.Intn(width + 1)
		g.b = append(g.b, '{')
		g.blank()
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.blank()
			}
			g.str(g.key())
			g.blank()
			g.b = append(g.b, ':')
			g.blank()
			g.value(depth-1, width)
			g.blank()
		}
		g.b = append(g.b, '}')
	}
}

func genText(r *rng, depth, width int) []byte {
	g := &textGen{r: r, ws: []int{0, 20, 50}[r.Intn(3)], num: func() string { return randNumber(r) }}
	switch r.Intn(3) {
	case 0:
		g.keys = plainKeys
	case 1:
		g.keys = []string{"a", "b", "A"} // many repeated keys
	}
	g.blank()
	for try := 0; ; try++ {
		n := len(g.b)
		g.value(depth, width)
		if try < 3 && depth > 0 && g.b[n] != '{' && g.b[n] != '[' {
			g.b = g.b[:n]
			continue
		}
		break
	}
	g.blank()
	return g.b
}

var soup = []string{"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"b\"", "0", "1", "-", "-1", "1.5", "1e5", ".", "e", "+", "true", "false", "null", "t", "nul", "tru", " ", "\n", "\\", "\\u0041", "\\ud83d", "\\ude00", "\"\\ud83d\\ude00\"", "\"\\n\"", "\"\\x\"", "\"\\u12\"", "é", "\x00", "\x08", "\xff", "\xc3", "/", "'", "\ufeff", "01", "-01", "1.", "1.e1", "{}", "[]", "\"k\":", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e309"}

func mutate(r *rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			ins := soup[r.Intn(len(soup))]
			b = append(b[:i], append([]byte(ins), b[i:]...)...)
		case 2:
			b[i] = "{}[],:\"\\0-.e tfnu\x08\x00\xff"[r.Intn(20)]
		case 3:
			b[i] = byte(r.Intn(256))
		case 4: // swap structural characters
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 5: // change the closing bracket
			for j := i; j < len(b); j++ {
				if k := strings.IndexByte("{}[]:,", b[j]); k >= 0 {
					b[j] = "}{][,:"[k]
					break
				}
			}
		}
	}
	return b
}

func bigText(r *rng, kind int) []byte {
	var b []byte
	switch kind % 6 {
	case 0: // deep nesting
		n := 20 + r.Intn(80)
		var close []byte
		for i := 0; i < n; i++ {
			if r.p(50) {
				b = append(b, '[')
				close = append(close, ']')
			} else {
				b = append(b, `{"k":`...)
				close = append(close, '}')
			}
		}
		b = append(b, '1')
		for i := len(close) - 1; i >= 0; i-- {
			b = append(b, close[i])
		}
	case 1: // long array (past the initial capacity of 32)
		b = append(b, '[')
		n := 30 + r.Intn(80)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprint(i)...)
		}
		b = append(b, ']')
	case 2: // many keys
		b = append(b, '{')
		n := 20 + r.Intn(60)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprintf(`"k%d":%d`, r.Intn(n), i)...)
		}
		b = append(b, '}')
	case 3: // long string
		g := &textGen{r: r}
		g.str(randString(r, 400))
		b = g.b
	case 4: // more values than the size of the text predicts
		b = append(b, '[')
		n := 100 + r.Intn(200)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, r.pick([]string{"1", "[]", "{}", `""`, "0"})...)
		}
		b = append(b, ']')
	case 5: // blanks
		b = append(b, strings.Repeat(" \n\t\r", 100)...)
		b = append(b, '[')
		b = append(b, strings.Repeat(" ", 300)...)
		b = append(b, "{}]"...)
		b = append(b, strings.Repeat("\n", 100)...)
	}
	return b
}

// hugeTree has more members than any table may have been made for.
func hugeTree(r *rng, n int) *Tree {
	leaf := func(i int) *Tree {
		switch r.Intn(12) {
		case 0:
			return &Tree{T: int(jv.String), S: []byte(r.pick([]string{"", "x", "\"q\"", "日本"}))}
		case 1:
			return &Tree{T: int(jv.Array), E: []*Tree{{T: int(jv.Null)}}}
		case 2:
			return &Tree{T: int(jv.Object)}
		case 3:
			return &Tree{T: int(jv.Null)}
		}
		return &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(i % 1000))}
	}
	t := &Tree{T: int(jv.Array)}
	for i := 0; i < n; i++ {
		t.E = append(t.E, leaf(i))
	}
	if r.p(70) {
		t.T = int(jv.Object)
		for i := 0; i < n; i++ {
			t.K = append(t.K, []byte(strconv.FormatInt(int64(i*7919%n), 36)))
		}
		if gcd(7919, n) != 1 {
			for i := range t.K {
				t.K[i] = []byte(strconv.FormatInt(int64(i), 36))
			}
		}
	}
	return t
}

func gcd(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

func hugeSizes(c cfg, r *rng) []int {
	l := []int{1000 + r.Intn(60), 1500 + r.Intn(1000), 4000 + r.Intn(1000)}
	if c.thorough() {
		l = append(l, 2000+r.Intn(100), 8000+r.Intn(1000), 16000+r.Intn(1000))
	}
	return l
}

// flat lists the nodes in preorder.
func flat(t *Tree, key []byte, l L) L {
	l = append(l, L{t.T, t.S, key, len(t.E)})
	for i, c := range t.E {
		var k []byte
		if t.T == int(jv.Object) {
			k = t.K[i]
		}
		l = flat(c, k, l)
	}
	return l
}

func deepText(r *rng, n int) []byte {
	var b, end []byte
	arrays, plain := []int{0, 50, 100, 100}[r.Intn(4)], r.p(50)
	for i := 0; i < n; i++ {
		if r.p(arrays) {
			open := r.pick([]string{"[", "[1,", "[[],"})
			if plain {
				open = "["
			}
			b = append(b, open...)
			end = append(end, ']')
		} else {
			open := r.pick([]string{`{"k":`, `{"":0,"x":`, `{"k":1,"k":`})
			if plain {
				open = `{"k":`
			}
			b = append(b, open...)
			end = append(end, '}')
		}
	}
	b = append(b, r.pick([]string{"1", "[]", "{}", `"s"`, "null"})...)
	for i := len(end) - 1; i >= 0; i-- {
		b = append(b, end[i])
	}
	return b
}

func deepLine(in []byte) O {
	var first L
	e, p, same := 0, 0, 1
	for i, ep := range parseEntries {
		buf := append([]byte(nil), in...)
		if guard(func() string { return fmt.Sprintf("%s(%q)", ep.name, in) }, func() {
			v, er := ep.f(buf)
			if er == 2 {
				er = b2i(v.ValueType() == jv.NotExist)
			}
			l := L{}
			if er == 0 {
				l = flat(project(v), nil, nil)
			}
			if i == 0 {
				e, first = er, l
			} else if er != e || string(enc(nil, l)) != string(enc(nil, first)) {
				same = 0
			}
		}) {
			p = 1
		}
	}
	if first == nil {
		first = L{}
	}
	return O{"op", "deep", "in", in, "e", e, "p", p, "same", same, "fl", first}
}

// longText has a string with an escape or a wide character across one of the places at which
// something that works in blocks would begin a new one.
func longText(r *rng, block int) []byte {
	mid := r.pick([]string{`\u00e9`, `\ud83d\ude00`, `\\`, `\"`, `\n`, "\u00e9", "\u65e5", "\U0001F600", `\ud800`, `\udc00`, `\u0041\\`, "\\\\u0041", `\t\t\t`, "x", `\/`})
	fill := func(n int) []byte {
		var b []byte
		switch r.Intn(4) {
		case 0: // escapes from early on, so that what follows is moved
			b = append(b, r.pick([]string{`\n`, `\u0041`, `\\`, `\u4e2d`})...)
		case 1:
			for i := r.Intn(12); i > 0; i-- {
				b = append(b, r.pick([]string{`\n`, `\u0041`, `\\`, `\ud83d\ude00`, "abc"})...)
			}
		}
		for len(b) < n {
			b = append(b, byte('a'+len(b)%26))
		}
		return b[:len(b):len(b)]
	}
	var s []byte
	n := block - r.Intn(len(mid)+2)
	if r.p(50) { // counted from the first byte of the text
		n -= []int{1, 2, 3}[r.Intn(3)]
	}
	if n < 0 {
		n = 0
	}
	s = append(s, fill(n)...)
	s = append(s, mid...)
	switch r.Intn(3) {
	case 0:
		s = append(s, fill(1+r.Intn(10))...)
	case 1:
		s = append(s, fill(r.Intn(block+8))...)
		s = append(s, mid...)
	}
	switch r.Intn(4) {
	case 0:
		return []byte(`{"` + string(s) + `":1}`)
	case 1:
		return []byte(`["` + string(s) + `",0]`)
	case 2:
		return []byte(`{"a":"` + string(s) + `","a\n":"` + string(s[:n/2]) + `"}`)
	}
	return []byte(`"` + string(s) + `"`)
}

func famText(c cfg) {
	out := newOut(c.out, "text", c.shards)
	r := newRng(c.seed)
	emit := func(b []byte) {
		out.put(textLine(b))
		out.advance()
	}
	for _, t := range readTests(c.tests) {
		emit(t)
	}
	for _, s := range append(soup, "", " ", "\n\t ", "{", "[", "\"", "nul", "[1,2", `{"a"`, `{"a":`, `{"a":1`, `{"a" 1}`, `{:1}`, `{"a"::1}`, `[:]`, `[}`, `{]`, `"\ud800"`, `"\udc00"`, `"\ud800\u0041"`, `"\ud83d\ude00"`, `{"a":1}}`, `[]]`, `1 2`, `"a" "b"`, "\xef\xbb\xbf1", "nullx", "truefalse", "[1 2]", "{\"a\":1 \"b\":2}", "[1,,2]", "[,]", "{,}") {
		emit([]byte(s))
	}
	// every byte at every place of an escape, and around small texts
	for _, t := range []string{`"\u00e9"`, `{"\uFFFD":1}`, `["\ud83d\ude00"]`} {
		for i := strings.IndexByte(t, '\\') + 2; i < strings.LastIndexByte(t, '"'); i++ {
			for x := 0; x < 256; x++ {
				emit([]byte(t[:i] + string([]byte{byte(x)}) + t[i+1:]))
			}
		}
	}
	for _, t := range []string{`{"a":[1,true],"b":null}`, `[-1.5e+7,"x\n",0]`, `"\"\\\/\b\f\n\r\t"`, `{"a":{"b":"c"},"d":[]}`, ` [ 1 , {} ] `, `false`, "\"\U0001F600\u00e9\u4e2d\"", `[[],[[]]]`} {
		for i := 0; i <= len(t); i++ {
			for x := 0; x < 256; x++ {
				if !c.thorough() && !r.p(6) {
					continue
				}
				if i < len(t) {
					emit([]byte(t[:i] + string([]byte{byte(x)}) + t[i+1:]))
				}
				emit([]byte(t[:i] + string([]byte{byte(x)}) + t[i:]))
			}
			if i < len(t) {
				emit([]byte(t[:i] + t[i+1:]))
			}
			emit([]byte(t[:i]))
		}
	}
	deep := []int{130, 300, 700}
	if c.thorough() {
		deep = append(deep, 1100, 2000, 3000)
	}
	for _, n := range append([]int{260, 520 + r.Intn(100), 1030}, deep...) { // arrays alone, objects alone
		for _, open := range []string{"[", `{"k":`} {
			mark := map[bool]string{true: "]", false: "}"}[open == "["]
			out.put(deepLine([]byte(strings.Repeat(open, n) + "[]" + strings.Repeat(mark, n))))
			out.advance()
		}
	}
	for _, n := range deep {
		t := deepText(r, n)
		out.put(deepLine(t))
		out.put(deepLine(t[:len(t)-1]))
		out.put(deepLine(append(t, ']')))
		out.advance()
	}
	if c.focus != "small" {
		for _, n := range hugeSizes(c, r) {
			for k := 0; k < 2; k++ {
				t := treeText(hugeTree(r, n), nil)
				out.put(deepLine(t))
				if k == 1 {
					out.put(deepLine(t[:len(t)-1-r.Intn(3)]))
				}
				out.advance()
			}
		}
	}
	blocks := []int{16, 32, 48, 64, 100, 128, 255, 256, 257, 500, 512, 1000, 1024, 2048, 4096}
	if c.thorough() {
		blocks = append(blocks, blocks...)
		blocks = append(blocks, 8192, 10000, 16384, 32768, 65536)
	}
	for _, n := range blocks {
		k := 6
		if n > 3000 {
			k = 2
		}
		for ; k > 0; k-- {
			emit(longText(r, n))
		}
	}
	for i := 0; i < c.n; i++ {
		switch {
		case i%40 == 39:
			t := bigText(r, r.Intn(6))
			emit(t)
			if r.p(50) {
				emit(t[:r.Intn(len(t))])
			}
		case i%4 == 0, c.focus == "C01" && i%4 != 3:
			emit(genText(r, 1+r.Intn(4), 1+r.Intn(6)))
		case i%4 == 1: // every prefix of a small text
			t := genText(r, 2, 3)
			if len(t) > 60 {
				t = t[:60]
			}
			st := 1 + len(t)/12
			for j := r.Intn(st); j < len(t); j += st {
				emit(t[:j])
			}
		case i%4 == 2:
			emit(mutate(r, genText(r, 3, 3)))
		default:
			var b []byte
			for n := 1 + r.Intn(8); n > 0; n-- {
				b = append(b, soup[r.Intn(len(soup))]...)
			}
			if r.p(10) {
				b = make([]byte, r.Intn(20))
				r.Read(b)
			}
			emit(b)
		}
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}
