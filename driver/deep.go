package main

import (
	"encoding/json"
	"fmt"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Documents of very many levels: built, read, compared, copied and written.

type deepStep struct {
	arr   bool // otherwise an object
	key   string
	left  int // scalars before
	right int // scalars behind
}

func deepText2(st []deepStep, leaf string) []byte {
	var b, end []byte
	for _, x := range st {
		if x.arr {
			b = append(b, '[')
			for i := 0; i < x.left; i++ {
				b = append(b, fmt.Sprintf("%d,", i)...)
			}
			e := []byte{}
			for i := 0; i < x.right; i++ {
				e = append(e, fmt.Sprintf(",%d", i)...)
			}
			end = append(append(append([]byte{}, e...), ']'), end...)
			continue
		}
		b = append(b, '{')
		for i := 0; i < x.left; i++ {
			b = append(b, fmt.Sprintf(`"l%d":%d,`, i, i)...)
		}
		b = append(b, fmt.Sprintf("%q:", x.key)...)
		e := []byte{}
		for i := 0; i < x.right; i++ {
			e = append(e, fmt.Sprintf(`,"r%d":%d`, i, i)...)
		}
		end = append(append(append([]byte{}, e...), '}'), end...)
	}
	b = append(b, leaf...)
	return append(b, end...)
}

func deepBuild(st []deepStep, leaf *jv.V) *jv.V {
	v := leaf
	for i := len(st) - 1; i >= 0; i-- {
		x := st[i]
		var p *jv.V
		if x.arr {
			p = jv.NewArray()
			for j := 0; j < x.left; j++ {
				p.MustAppendInt(j).InTheEnd()
			}
			p.MustAppend(v).InTheEnd()
			for j := 0; j < x.right; j++ {
				p.MustAppendInt(j).InTheEnd()
			}
		} else {
			p = jv.NewObject()
			for j := 0; j < x.left; j++ {
				p.MustSetInt(j).At(fmt.Sprint("l", j))
			}
			p.MustSet(v).At(x.key)
			for j := 0; j < x.right; j++ {
				p.MustSetInt(j).At(fmt.Sprint("r", j))
			}
		}
		v = p
	}
	return v
}

func deepPath(st []deepStep) (p []any) {
	for _, x := range st {
		if x.arr {
			p = append(p, x.left)
		} else {
			p = append(p, x.key)
		}
	}
	return
}

func (w *deepSess) run(how string, st []deepStep, leaf string) {
	in := deepText2(st, leaf)
	other := deepText2(st, `"another"`)
	empty := L{}
	o := O{"op", "deep2", "how", how, "in", in}
	var fl, cp, cp2, rt, exp = empty, empty, empty, empty, empty
	var m, at []byte
	eq, ne, cn, me, vis := 0, 0, 0, 1, 0
	pan := guard(func() string { return fmt.Sprintf("document of %d levels, %s", len(st), how) }, func() {
		var v *jv.V
		path := deepPath(st)
		switch how {
		case "text":
			v = jv.MustUnmarshal(append([]byte(nil), in...))
		case "build":
			v = deepBuild(st, jv.MustUnmarshalString(leaf))
		default: // made by one call
			v = jv.NewObject()
			if st[len(st)-1].arr && w.r.p(60) {
				v.MustAppend(jv.MustUnmarshalString(leaf)).InTheEnd(path[:len(path)-1]...)
			} else {
				v.MustSet(jv.MustUnmarshalString(leaf)).At(path[0], path[1:]...)
			}
		}
		fl = flat(project(v), nil, nil)
		if l, err := v.Get(path[0], path[1:]...); err == nil {
			if b, err := l.Marshal(); err == nil {
				at = b
			}
		}
		mm, err := v.Marshal(jv.OptSetSequence())
		me, m = b2i(err != nil), mm
		if r, err := jv.Unmarshal(append([]byte(nil), m...)); err == nil {
			rt = flat(project(r), nil, nil)
		}
		u := jv.MustUnmarshal(other)
		if c, err := jv.Import(v); err == nil {
			cp = flat(project(c), nil, nil)
			eq = b2i(c.Equal(v) && v.Equal(c))
			ne = b2i(!u.Equal(v) && !v.Equal(u))
			cn = b2i(beta.Contains(v, c) && !beta.Contains(v, u))
		}
		h := jv.NewArray()
		if _, err := h.Append([]any{v}).InTheEnd(); err == nil {
			c, _ := h.Get(0, 0)
			cp2 = flat(project(c), nil, nil)
		}
		var x any
		if err := v.Export(&x); err == nil {
			if b, err := json.Marshal(x); err == nil {
				var y any
				if json.Unmarshal(in, &y) == nil {
					z, _ := json.Marshal(y)
					exp = L{b2i(string(z) == string(b))}
				}
			}
		}
		for x := v; x != nil; {
			var next *jv.V
			vis++
			see := func(c *jv.V) {
				if c.IsObject() || c.IsArray() {
					next = c
				}
			}
			x.RangeArray(func(_ int, c *jv.V) bool { see(c); return true })
			x.RangeObjects(func(_ string, c *jv.V) bool { see(c); return true })
			x = next
		}
	})
	o = append(o, "pan", pan, "fl", fl, "at", at, "leaf", []byte(leaf), "me", me, "m", m, "rt", rt, "cp", cp, "cp2", cp2, "eq", eq, "ne", ne, "cn", cn, "exp", exp, "vis", vis, "n", len(st))
	w.out.put(o)
	w.out.advance()
}

type deepSess struct {
	r   *rng
	out *Out
}

func famDeep(c cfg) {
	w := &deepSess{r: newRng(c.seed*31 + 3), out: newOut(c.out, "deep", c.shards)}
	r := w.r
	sizes := []int{1, 9, 17, 33, 65, 100, 129, 200, 256, 513}
	if c.thorough() {
		sizes = append(sizes, 700, 1025, 1500, 2000)
	}
	for _, how := range []string{"text", "build", "path"} {
		for k := 0; k < c.n; k++ {
			n := sizes[k%len(sizes)] + r.Intn(4)
			st := make([]deepStep, n)
			kind := r.Intn(4) // 0 objects, 1 arrays, mixed
			for i := range st {
				st[i] = deepStep{arr: kind == 1 || kind > 1 && r.p(50), key: r.pick([]string{"", "a", "b", "k0", "a b"})}
				if how == "path" && i == 0 {
					st[i].arr = false
				}
				if how != "path" && r.p(15) {
					st[i].left, st[i].right = r.Intn(3), r.Intn(3)
				}
			}
			w.run(how, st, r.pick([]string{"1", "true", `"s"`, "null", "1.5"}))
		}
	}
	w.out.close()
	fmt.Printf("{\"lines\":%d}\n", w.out.lines)
}
