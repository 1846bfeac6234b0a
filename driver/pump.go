package main

import (
	"fmt"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Very long texts and strings: a head, many times a unit, a tail.

const pumpFew = 70

// observe describes a long string by its ends and the periods between.
func observe(s string) O {
	const w = 64
	h, t := s, s
	if len(s) > w {
		h, t = s[:w], s[len(s)-w:]
	}
	l := L{}
	if len(s) > 2*w {
		for p := 1; p <= 120; p++ {
			ok := true
			for i := 40; i < len(s)-40-p; i++ {
				if s[i] != s[i+p] {
					ok = false
					break
				}
			}
			if ok {
				l = append(l, p)
			}
		}
	}
	return O{"n", len(s), "h", []byte(h), "t", []byte(t), "per", l}
}

func pumpLeaf(ctx string, v *jv.V) string {
	switch ctx {
	case "key":
		res := ""
		v.RangeObjectsBySetSequence(func(k string, _ *jv.V) bool { res = k; return false })
		return res
	case "arr":
		v = v.MustGet(0)
	case "last":
		if v.IsArray() {
			v = v.MustGet(-1)
		} else {
			v = v.MustGet("last")
		}
	}
	return v.String()
}

// pumpTail is what is done with a value and its like, and one that differs.
func pumpTail(r *rng, v, like, other *jv.V, few func(k int) *jv.V) O {
	mo := []*mopt{{O: "setseq"}}
	for _, o := range []string{"html", "slash", "utf8"} {
		if r.p(30) {
			mo = append(mo, &mopt{O: o})
		}
	}
	var opts []jv.Option
	lo := L{}
	s := &marSess{r: r}
	for _, o := range mo {
		opts = append(opts, s.option(o))
		lo = append(lo, o.enc())
	}
	m, err := v.MarshalString(opts...)
	rt := 0
	if w, e := jv.UnmarshalString(m); e == nil && w.Equal(v) && v.Equal(w) {
		rt = 1
	}
	eq, ne := b2i(v.Equal(like)), 0
	if other != nil {
		ne = b2i(v.Equal(other) || other.Equal(v))
	}
	return O{"opts", lo, "m2", few(2).MustMarshal(opts...), "m3", few(3).MustMarshal(opts...), "mk", few(pumpFew).MustMarshal(opts...),
		"mar", observe(m), "me", b2i(err != nil), "rt", rt, "eq", eq, "ne", ne}
}

func (c cfg) pumpSize(r *rng, unit int) int {
	total := []int{32768, 65536, 65536, 65536, 131072}[r.Intn(5)]
	if r.p(20) {
		total = 5000 + r.Intn(200000)
	}
	if c.thorough() && r.p(10) {
		total = 1 << (18 + uint(r.Intn(5)))
	}
	if r.p(50) {
		total /= unit
	}
	return total + []int{0, 0, 1, -1, r.Intn(9) - 4}[r.Intn(5)]
}

func famPump(c cfg) {
	out := newOut(c.out, "pump", c.shards)
	r := newRng(c.seed)
	units := []string{"a", "xyz", `\n`, `\u00e9`, "\u00e9", "\u65e5", "\U0001F600", `\ud83d\ude00`, `\\`, `\"`, `\/`, "/", "<", `\u0041b`, "a\u65e5", `ab\t`, `\u2028`, "abcdefgh"}
	raw := []string{"a", "xyz", "\n", "\u00e9", "\u65e5", "\U0001F600", "\\", "\"", "/", "<&>", "\u2028", "\x00", "abcdefgh", "a\u65e5"}
	for i := 0; i < c.n; i++ {
		var line O
		if i%3 == 2 {
			line = pumpMade(c, r, raw)
		} else {
			n := -1
			if k := i - i/3; k < 4*len(units) { // 2^16 units, or as many as make 2^16 bytes, read or written, more or fewer
				u := units[k%len(units)]
				d := len(jv.MustUnmarshalString(`"` + u + `"`).String())
				n = 65536
				switch k / len(units) {
				case 1:
					n /= len(u)
				case 2:
					n /= d
				case 3:
					if d < len(u) {
						n /= len(u) - d
					}
				}
				line = pumpText(c, r, []string{u}, n)
			} else {
				line = pumpText(c, r, units, n)
			}
		}
		out.put(line)
		out.advance()
	}
	out.close()
}

func pumpText(c cfg, r *rng, units []string, n int) O {
	ctx, pre, suf, other := "", "", "", ""
	unit := units[r.Intn(len(units))]
	lead := r.pick([]string{"", "a", "ab", `\n`, "\u00e9", `\u65e5x`})
	k := r.Intn(12)
	if n >= 0 {
		k, lead = r.Intn(8), ""
	}
	switch k {
	case 0, 1:
		ctx, pre, suf, other = "str", `"`+lead, `end"`, `enD"`
	case 2, 3, 4:
		ctx, pre, suf, other = "arr", `["`+lead, `end",7]`, `enD",7]`
	case 5, 6, 7:
		ctx, pre, suf, other = "key", `{"`+lead, `end":7}`, `enD":7}`
	case 8:
		ctx, pre, suf = "last", `[1,`, `"a\u0041b"]`
		unit = r.pick([]string{" ", "\n\t", " \r\n"})
	case 9:
		ctx, pre, suf, other = "last", `[0`, `,"end\n"]`, `,"enD\n"]`
		unit = r.pick([]string{",1", `,"a"`, `,{"a":1}`, ",[]", ",true", `,""`, ",null"})
	case 10:
		ctx, pre, suf, other = "last", `{"a":0`, `,"last":"end"}`, `,"last":"enD"}`
		unit = r.pick([]string{`,"a":1`, `,"a":{"b":[]}`, `,"a":"\n"`})
	default:
		ctx, pre, suf = "num", r.pick([]string{"-1.", "0.", "7", "1", "-0.0"}), r.pick([]string{"5", "", "1e-3", "25E+2"})
		unit = r.pick([]string{"3", "12", "90"})
		if pre != "0." && pre != "-0.0" && pre != "-1." {
			pre = "0."
		}
	}
	if n < 0 {
		n = c.pumpSize(r, len(unit))
	}
	if ctx == "num" && n > 70000 { // big numbers take their time
		n = 70000 - r.Intn(3)
	}
	if r.p(15) && ctx != "num" { // broken near the end
		bad := []string{`\q`, `\u12G4`, `\x41`, "\xff", "\xc3", "\xe6\x97", `\ud800\u0041`, `\ud800`, `\udc00`, `"`, `\`, `\u00`, "\x00", "\n"}
		if ctx == "last" {
			bad = []string{`,tru`, `,1x`, `,"\q"`, `,-`, `,"a"1`, `,]`, `,[}`, `,{"x"}`, `,"a":nul`, `,"a":1.e3`, `,"a":{"b"1}`, `,"a":[}`, `1`}
		}
		suf = bad[r.Intn(len(bad))] + suf
		other = ""
	} else if r.p(8) { // broken at the end
		if ctx == "num" {
			suf = "e"
		} else {
			suf = suf[:len(suf)-1]
		}
	}
	text := func(k int, suf string) string { return pre + strings.Repeat(unit, k) + suf }
	full := text(n, suf)
	keep := strings.Clone(full)
	ep := parseEntries[r.Intn(len(parseEntries))]
	e, same, length := 0, 1, 0
	var leaf, tail O
	pan := b2i(guard(func() string { return fmt.Sprintf("%s(%q + %d * %q + %q)", ep.name, pre, n, unit, suf) }, func() {
		var v *jv.V
		if strings.HasSuffix(ep.name, "String") { // the very string
			if strings.HasPrefix(ep.name, "Must") {
				v, e = jv.MustUnmarshalString(full), 2
			} else {
				w, err := jv.UnmarshalString(full)
				v, e = w, b2i(err != nil)
			}
			same = b2i(full == keep)
		} else {
			v, e = ep.f([]byte(full))
		}
		if e == 2 {
			e = b2i(v.ValueType() == jv.NotExist)
		}
		if e == 1 {
			return
		}
		length = v.Len()
		leaf = observe(pumpLeaf(ctx, v))
		var o *jv.V
		if other != "" {
			o = jv.MustUnmarshalString(text(n, other))
		}
		tail = pumpTail(r, v, jv.MustUnmarshalString(keep), o, func(k int) *jv.V { return jv.MustUnmarshalString(text(k, suf)) })
	}))
	res := O{"op", "pump", "ctx", ctx, "pre", []byte(pre), "unit", []byte(unit), "suf", []byte(suf), "n", n, "via", ep.name,
		"pan", pan, "e", e, "same", same, "len", length, "leaf", leaf}
	return append(res, tail...)
}

func pumpMade(c cfg, r *rng, raw []string) O {
	via := r.pick([]string{"NewString", "New", "NewObject", "Import", "ImportMap", "SetString", "AppendString", "InsertString", "NewBytes", "NewBytes"})
	pre, unit, suf := r.pick([]string{"", "x", "\n", "\u00e9", "x\u65e5"}), raw[r.Intn(len(raw))], "end"
	if via == "NewBytes" {
		b := make([]byte, 3*(1+r.Intn(8)))
		r.Read(b)
		unit = string(b)
	}
	n := c.pumpSize(r, len(unit))
	if r.p(15) { // Base64 texts, some of them broken
		via = "Base64"
		unit = r.pick([]string{"QUJD", "QUJDAAAA", "++//", "a1b2", "QU\nJD", "QQ\r\nQQ\n"})
		pre = r.pick([]string{"", "AAAA", "Q", "QQ", "QUI=", "!", "\n"})
		suf = r.pick([]string{"", "QQ==", "QUI=", "!", "Q", "QQ", "QUI", "=", "==", "Q===", "\n", "QUI=\n", "-_-_", "QQ==QUJD", "Q Q="})
		if r.p(50) {
			pre = ""
		}
		if r.p(50) {
			n = pumpFew + 4*r.Intn(600)
		}
	}
	build := func(k int, suf string) *jv.V {
		s := pre + strings.Repeat(unit, k) + suf
		switch via {
		case "New":
			return jv.New(s)
		case "NewObject":
			return jv.NewObject(jv.M{"a": s}).MustGet("a")
		case "Import":
			v, err := jv.Import(struct{ S any }{&s})
			must(err)
			return v.MustGet("S")
		case "ImportMap":
			v, err := jv.Import(map[string]int{s: 1})
			must(err)
			return jv.NewString(pumpLeaf("key", v))
		case "SetString":
			v := jv.NewObject()
			v.MustSetString(s).At("a")
			return v.MustGet("a")
		case "AppendString":
			v := jv.NewArray()
			v.MustAppendString(s).InTheBeginning()
			return v.MustGet(0)
		case "InsertString":
			v := jv.MustUnmarshalString("[1]")
			v.MustInsertString(s).Before(0)
			return v.MustGet(0)
		case "NewBytes":
			return jv.NewBytes([]byte(s))
		}
		return jv.NewString(s)
	}
	var leaf, back, tail O
	pan := b2i(guard(func() string { return fmt.Sprintf("%s(%q + %d * %q + %q)", via, pre, n, unit, suf) }, func() {
		v := build(n, suf)
		leaf = observe(v.String())
		if via == "NewBytes" {
			back = observe(string(v.Bytes()))
			return
		}
		w := jv.NewArray()
		w.MustAppend(v).InTheEnd()
		s, err := w.GetString(0)
		must(err)
		back = observe(s)
		if via == "Base64" {
			back = observe(string(v.Bytes()))
			b, err := w.GetBytes(0)
			if string(b) != string(v.Bytes()) || err != nil && len(b) > 0 {
				back = observe("GetBytes and Bytes disagree")
			}
		}
		tail = pumpTail(r, v, build(n, suf), build(n, "enD"), func(k int) *jv.V { return build(k, suf) })
	}))
	res := O{"op", "made", "via", via, "pre", []byte(pre), "unit", []byte(unit), "suf", []byte(suf), "n", n, "pan", pan, "leaf", leaf, "back", back}
	return append(res, tail...)
}
