package main

import (
	"encoding/base64"
	"fmt"
	"strconv"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

var heapKeys = []string{"a", "A", "b", "B", "ab", "Ab", "AB", "aB", "é", "É", "k", "K", "\u212a", "", "x", "日", "ж", "Ж", "c", "d", "0"}

type heapGen struct {
	*heapSess
	roots []int
	keys  []string
	focus string
}

func (g *heapGen) key() string { return g.keys[g.r.Intn(len(g.keys))] }

func (g *heapGen) scalar() *Tree {
	switch g.r.Intn(5) {
	case 0:
		if g.r.p(12) { // bytes of any length
			b := make([]byte, []int{1, 5, 16, 31, 48, 63, 64, 65, 100, 200}[g.r.Intn(10)])
			g.r.Read(b)
			return &Tree{T: int(jv.String), S: []byte(base64.StdEncoding.EncodeToString(b))}
		}
		return &Tree{T: int(jv.String), S: []byte(randString(g.r, 3))}
	case 1:
		return &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(g.r.rangeI(-20, 120)))}
	case 2:
		return &Tree{T: int(jv.Number), S: []byte(g.r.pick([]string{"1.5", "-0.25", "1e3", "12345678901234567890", "-9007199254740993", "0.10", "100",
			"0.1", "-7.7", "16777217", "2147483647", "-2147483648", "2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615"}))}
	case 3:
		return &Tree{T: int(jv.Boolean), S: []byte{byte(g.r.Intn(2))}}
	}
	return &Tree{T: int(jv.Null)}
}

func (g *heapGen) tree(depth, width int) *Tree {
	k := g.r.Intn(10)
	if depth <= 0 || k < 2 {
		return g.scalar()
	}
	t := &Tree{T: int(jv.Array)}
	n := g.r.Intn(width + 1)
	if k < 7 {
		t.T = int(jv.Object)
		perm := g.r.Perm(len(g.keys))
		if n > len(perm) {
			n = len(perm)
		}
		for i := 0; i < n; i++ {
			t.K = append(t.K, []byte(g.keys[perm[i]]))
		}
	}
	for i := 0; i < n; i++ {
		t.E = append(t.E, g.tree(depth-1, width))
	}
	return t
}

func (g *heapGen) bigTree() *Tree {
	if g.r.p(50) {
		t := &Tree{T: int(jv.Array)}
		for n := 25 + g.r.Intn(45); n > 0; n-- {
			t.E = append(t.E, &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(g.r.Intn(50)))})
		}
		return t
	}
	t := &Tree{T: int(jv.Object)}
	for i, n := 0, 10+g.r.Intn(25); i < n; i++ {
		t.K = append(t.K, []byte(fmt.Sprintf("%c%d", "kK"[i%2], i/2)))
		t.E = append(t.E, g.scalar())
	}
	return t
}

func (g *heapGen) img(id int) *image {
	if id < 1 || id > len(g.imgs) || g.imgs[id-1] == nil {
		return &image{}
	}
	return g.imgs[id-1]
}

func flipCase(r *rng, k []byte) []byte {
	rs := []rune(string(k))
	for i, c := range rs {
		if r.p(60) {
			switch {
			case c >= 'a' && c <= 'z', c >= 0xe0 && c < 0xf7, c >= 0x430 && c <= 0x44f:
				rs[i] = c - 32
			case c >= 'A' && c <= 'Z', c >= 0xc0 && c < 0xd7, c >= 0x410 && c <= 0x42f:
				rs[i] = c + 32
			case c == 0x212a:
				rs[i] = 'k'
			}
		}
	}
	return []byte(string(rs))
}

// path walks from a root; extra tells whether one more parameter follows
// (targets of Set and Insert).  It also returns the nodes walked over.
func (g *heapGen) path(root int, caseless, extra bool) ([]hparam, []int) {
	var p []hparam
	walk := []int{root}
	cur := root
	maxd := 1 + g.r.Intn(4)
	for len(p) < maxd {
		next := 0
		m := &image{t: 1}
		if cur > 0 {
			m = g.img(cur)
		}
		switch m.t {
		case int(jv.Object):
			switch {
			case g.r.p(4):
				p = append(p, hparam{K: "i", I: g.r.Intn(3)})
			case g.r.p(3):
				p = append(p, hparam{K: "b"})
			case len(m.k) > 0 && g.r.p(75):
				j := g.r.Intn(len(m.k))
				k := m.k[j]
				if caseless && g.r.p(60) {
					k = flipCase(g.r, k)
				}
				p = append(p, hparam{K: "s", S: k})
				next = m.e[j]
			default:
				k := g.key()
				p = append(p, hparam{K: "s", S: bs(k)})
				for j := range m.k {
					if string(m.k[j]) == k {
						next = m.e[j]
					}
				}
			}
		case int(jv.Array):
			n := len(m.e)
			switch {
			case g.r.p(4):
				p = append(p, hparam{K: "s", S: bs(g.key())})
			case g.r.p(3):
				p = append(p, hparam{K: "b"})
			case n > 0 && g.r.p(70):
				j := g.r.Intn(n)
				i := j
				if g.r.p(35) {
					i = j - n
				}
				p = append(p, hparam{K: "i", I: i})
				next = m.e[j]
			default:
				i := []int{n, n, n, n, -n - 1, n + 1, n + 2, -1, 0, 2000000000, -2000000000, 33, -33}[g.r.Intn(13)]
				p = append(p, hparam{K: "i", I: i})
				if i >= 0 && i < n {
					next = m.e[i]
				} else if i < 0 && i >= -n {
					next = m.e[n+i]
				}
			}
		default: // scalar or nothing there
			if cur > 0 && !g.r.p(15) {
				return p, walk
			}
			switch {
			case g.r.p(60):
				p = append(p, hparam{K: "s", S: bs(g.key())})
			case g.r.p(85):
				p = append(p, hparam{K: "i", I: []int{0, 0, 0, 0, 1, -1}[g.r.Intn(6)]})
			default:
				p = append(p, hparam{K: "b"})
			}
		}
		if next > 0 {
			walk = append(walk, next)
			cur = next
			t := g.img(cur).t
			if t != int(jv.Object) && t != int(jv.Array) && g.r.p(85) {
				break
			}
		} else {
			cur = 0
			if !extra && g.r.p(70) || extra && g.r.p(30) {
				break
			}
		}
	}
	return p, walk
}

func (g *heapGen) reach(id int, seen map[int]bool) {
	if seen[id] {
		return
	}
	seen[id] = true
	for _, c := range g.img(id).e {
		g.reach(c, seen)
	}
}

// size is the size of the tree below a node, shared nodes counted each time.
func (g *heapGen) size(id int) int { return g.sizeIn(id, 0) }

func (g *heapGen) sizeIn(id, depth int) int {
	n := 1
	if depth > 200 { // a cycle: only a broken library gets here
		return 3000
	}
	for _, c := range g.img(id).e {
		n += g.sizeIn(c, depth+1)
		if n > 2000 {
			return n
		}
	}
	return n
}

func (g *heapGen) someNode() int {
	if g.r.p(60) {
		return g.roots[g.r.Intn(len(g.roots))]
	}
	return 1 + g.r.Intn(len(g.nodes))
}

func (g *heapGen) container() int {
	for i := 0; i < 6; i++ {
		id := g.someNode()
		if t := g.img(id).t; t == int(jv.Object) || t == int(jv.Array) {
			return id
		}
	}
	return g.someNode()
}

func (g *heapGen) child(walk []int) hchild {
	switch k := g.r.Intn(100); {
	case k < 10:
		return hchild{ID: -1}
	case k < 40 && !g.stale: // an existing node
		for try := 0; try < 4; try++ {
			id := 1 + g.r.Intn(len(g.nodes))
			if g.img(id).t == 0 {
				continue
			}
			seen := map[int]bool{}
			g.reach(id, seen)
			ok := true
			for _, w := range walk {
				ok = ok && !seen[w]
			}
			if ok && g.size(walk[0])+g.size(id) < 300 {
				return hchild{ID: id}
			}
		}
	case k < 52 && !g.stale:
		c := g.copyOf()
		if c.Shape != "v" { // a bare *V is stored, not copied
			return c
		}
	case k < 70:
		return hchild{T: g.tree(2, 3)}
	}
	return hchild{T: g.scalar()}
}

func (g *heapGen) copyOf() hchild {
	c := hchild{ID: -5, Shape: g.r.pick([]string{"v", "slice", "any", "map", "struct", "embed"})}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		id := g.container()
		if g.size(id) > 60 || g.img(id).t == 0 {
			continue
		}
		c.Srcs = append(c.Srcs, id)
	}
	if len(c.Srcs) == 0 {
		return hchild{T: g.scalar()}
	}
	return c
}

func (g *heapGen) form(o *hop) {
	if len(o.P) > 0 && g.r.p(20) {
		o.F = 1
		if g.r.p(12) {
			o.F = 2
		}
	}
}

func (g *heapGen) weights() map[string]int {
	w := map[string]int{"get": 8, "cget": 8, "set": 18, "app": 8, "ins": 8, "del": 8, "cdel": 5, "iter": 8, "sort": 2, "mar": 5, "clob": 1, "imp": 4, "uj": 3, "new": 2, "eq": 3, "exp": 2, "byt": 1}
	up := func(f int, ops ...string) {
		for _, o := range ops {
			w[o] *= f
		}
	}
	switch g.focus {
	case "C10":
		up(5, "get")
	case "C12":
		up(3, "set")
	case "C13":
		up(2, "set", "app", "ins", "del", "cdel")
	case "C14":
		up(4, "app", "ins")
	case "C15":
		up(4, "del")
		up(2, "set")
	case "C16":
		up(4, "cget", "cdel")
		up(2, "set", "uj", "imp")
	case "C17":
		up(2, "set", "imp", "del", "mar")
	case "C18":
		up(5, "iter")
	case "C19":
		up(12, "sort")
		up(3, "app")
	case "C23":
		up(6, "uj", "mar")
	case "C24":
		up(4, "imp", "mar", "clob", "byt")
		up(2, "set")
	case "C25":
		up(2, "set", "app", "ins", "mar")
	}
	return w
}

func (g *heapGen) step(w map[string]int, total int) {
	k := g.r.Intn(total)
	op := ""
	for _, name := range []string{"get", "cget", "set", "app", "ins", "del", "cdel", "iter", "sort", "mar", "clob", "imp", "uj", "new", "eq", "exp", "byt"} {
		if k < w[name] {
			op = name
			break
		}
		k -= w[name]
	}
	lax := g.r.p(25)
	o := &hop{Op: op, R: g.container()}
	r := g.r
	switch op {
	case "get", "cget":
		o.P, _ = g.path(o.R, op == "cget", false)
		if len(o.P) == 0 {
			o.P = []hparam{{K: "s", S: bs(g.key())}}
		}
		o.Via = r.pick([]string{"Get", "Get", "Get", "MustGet", "GetArray", "GetObject", "GetString"})
		o.Lax = lax
		g.form(o)
	case "set", "app", "ins":
		var walk []int
		o.P, walk = g.path(o.R, false, true)
		if len(o.P) == 0 && op != "app" {
			o.P = []hparam{{K: r.pick([]string{"s", "i"}), S: bs(g.key()), I: r.Intn(2)}}
		}
		o.C = g.child(walk)
		o.N = r.Intn(2)
		if r.p(6) { // a way that does not exist, in part or in whole, for a value that may be refused
			o.P = o.P[:r.Intn(len(o.P)+1)]
			for n := 1 + r.Intn(3); n > 0; n-- {
				o.P = append(o.P, hparam{K: "s", S: bs(r.pick([]string{"new", "n2", g.key()}))})
				if r.p(30) {
					o.P = append(o.P, hparam{K: "i"})
				}
			}
			if r.p(70) {
				o.C = hchild{ID: -1}
			} else if o.C.ID > 0 {
				o.C = hchild{T: g.scalar()}
			}
		}
		if op == "app" && len(o.P) > 0 && r.p(50) {
			o.P = o.P[:r.Intn(len(o.P)+1)]
		}
		if op == "ins" && r.p(50) { // aim at an array
			for try := 0; try < 8; try++ {
				id := 1 + r.Intn(len(g.nodes))
				if m := g.img(id); m.t == int(jv.Array) && len(m.e) > 0 {
					if o.C.ID > 0 {
						o.C = hchild{T: g.scalar()}
					}
					o.R, o.P = id, []hparam{{K: "i", I: r.rangeI(-len(m.e)-1, len(m.e))}}
					break
				}
			}
		}
		o.Via = r.pick([]string{"", "", "Must", "Typed", "Typed", "MustTyped", "At"})
		if o.Via == "At" && op != "set" {
			o.Via = ""
		}
		g.form(o)
		if op == "app" && o.F == 2 && len(o.P) == 0 {
			o.F = 0
		}
		if m := g.img(o.R); op == "set" && len(m.e) > 0 && !g.stale && r.p(8) { // what is there already
			i := r.Intn(len(m.e))
			o.C, o.P = hchild{ID: m.e[i]}, []hparam{{K: "i", I: i}}
			if m.t == int(jv.Object) {
				o.P[0] = hparam{K: "s", S: m.k[i]}
			}
		}
		if op == "set" && o.C.ID > 0 && g.img(o.R).t == int(jv.Object) && len(o.P) == 1 && o.P[0].K == "s" && r.p(15) {
			o.Times = []int{1, 2, 255, 65536}[r.Intn(4)]
		}
		// a node put into an existing container adds no node: need not list
		o.Lax = lax && o.C.ID > 0 && len(o.P) == 1 && op == "set"
	case "del", "cdel":
		o.P, _ = g.path(o.R, op == "cdel", false)
		if len(o.P) == 0 {
			o.P = []hparam{{K: "s", S: bs(g.key())}}
		}
		o.Via = r.pick([]string{"", "", "Must"})
		o.Lax = lax && op == "del"
		g.form(o)
	case "iter":
		o.R = g.someNode()
		o.Via = r.pick([]string{"RangeArray", "RangeObjects", "RangeObjectsBySetSequence", "IterArray", "IterObjects", "ForRangeArr", "ForRangeObj", "nil"})
		if g.img(o.R).t == int(jv.Array) && r.p(70) {
			o.Via = r.pick([]string{"RangeArray", "IterArray", "ForRangeArr"})
		}
		if r.p(40) {
			o.N = 1 + r.Intn(3)
		}
		if o.Via == "nil" {
			o.N = 0
		}
		if r.p(25) {
			g.mutating(o)
		}
	case "sort":
		best := 0
		for try := 0; try < 6; try++ {
			id := 1 + r.Intn(len(g.nodes))
			if g.img(id).t == int(jv.Array) && (best == 0 || len(g.img(id).e) > len(g.img(best).e)) {
				best = id
			}
		}
		if best != 0 && !r.p(10) {
			o.R = best
		}
		o.N = r.Intn(6)
		if r.p(70) {
			o.N = []int{2, 4}[r.Intn(2)]
		}
		if g.stale { // the array before the call must be known to the specification
			return
		}
	case "mar":
		o.R = g.someNode()
		if g.size(o.R) > 400 || g.img(o.R).t == 0 {
			return
		}
		o.Via = r.pick([]string{"Marshal", "Marshal", "MarshalString", "MustMarshal", "MustMarshalString", "MarshalJSON", "MarshalBinary", "json"})
		o.Lax = lax
	case "clob", "exp":
		if g.size(o.R) > 1000 {
			return
		}
	case "imp":
		if g.stale {
			return
		}
		o.C = g.copyOf()
		if o.C.ID != -5 || r.p(8) {
			o.C = hchild{ID: -1}
		}
		o.Via = r.pick([]string{"Import", "Import", "New"})
		n := len(g.nodes)
		g.run(o)
		if len(g.nodes) > n {
			g.roots = append(g.roots, n+1)
		}
		return
	case "uj":
		t := treeText(g.tree(2, 4), nil)
		if r.p(50) {
			tg := &textGen{r: r, ws: 10}
			tg.tree(g.tree(2, 4))
			t = tg.b
		}
		if r.p(30) {
			t = t[:r.Intn(len(t))]
		} else if r.p(10) {
			t = append(t, r.pick([]string{"}", "x", "1"})...)
		}
		// the replaced node must not become its own ancestor: new nodes only, so it cannot
		o.B = t
		o.Via = r.pick([]string{"UnmarshalJSON", "UnmarshalBinary", "json"})
		if r.p(50) {
			o.R = 1 + r.Intn(len(g.nodes))
		}
	case "byt":
		o.R = 1 + r.Intn(len(g.nodes))
		if r.p(60) {
			o.R = g.container()
			o.P, _ = g.path(o.R, false, false)
		}
		for try := 0; try < 8 && len(o.P) == 0; try++ {
			if id := 1 + r.Intn(len(g.nodes)); g.img(id).t == int(jv.String) && len(g.img(id).s) > 3 {
				o.R = id
			}
		}
		g.form(o)
	case "new":
		o.Via = r.pick([]string{"parse", "build"})
		o.C = hchild{T: g.tree(2, 3)}
		o.R = 0
		g.roots = append(g.roots, len(g.nodes)+1)
	case "eq":
		o.N = g.someNode()
		if g.img(o.R).t == 0 || g.size(o.R) > 200 || g.size(o.N) > 200 {
			return
		}
		if r.p(30) {
			o.N = o.R
		}
	}
	g.run(o)
}

// chains are the properties about paths.
var chains = map[string]bool{"C10": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true}

func famHeap(c cfg) {
	out := newOut(c.out, "heap", c.shards)
	r := newRng(c.seed*31 + 7)
	if c.focus == "C29" {
		typedSessions(r, out)
	}
	for _, ops := range readOps(c.tests) {
		s := newSess(r, out)
		for _, o := range ops {
			s.run(o)
		}
		out.advance()
	}
	sess := 0
	if c.focus == "C19" {
		sortSessions(c, r, out)
	}
	switch c.focus {
	case "C10", "C12", "C15", "C17", "C18", "C24":
		sizes := []int{1025 + r.Intn(20), 1100 + r.Intn(1500)}
		if c.thorough() {
			sizes = append(sizes, 2049+r.Intn(100), 3000+r.Intn(1500))
		}
		for _, n := range sizes {
			hugeSession(r, out, n)
		}
	}
	for done := 0; done < c.n; sess++ {
		g := &heapGen{heapSess: newSess(r, out), focus: c.focus, keys: heapKeys}
		switch r.Intn(4) {
		case 0:
			g.keys = []string{"a", "A", "b"}
		case 1:
			g.keys = []string{"a", "b", "c", "d"}
		case 2:
			g.keys = []string{"ab", "Ab", "aB", "AB", "é", "É"}
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			t := g.tree(3, 4)
			if r.p(15) || c.focus == "C19" && r.p(50) {
				t = g.bigTree()
			}
			if t.T != int(jv.Array) && t.T != int(jv.Object) {
				t = &Tree{T: int(jv.Object)}
			}
			g.roots = append(g.roots, len(g.nodes)+1)
			g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
		}
		if c.focus == "C16" && r.p(50) || r.p(4) {
			done += g.caseBurst()
		}
		if chains[c.focus] && r.p(15) || r.p(2) {
			done += g.chainBurst()
		}
		switch c.focus {
		case "C14", "C15", "C19", "C25":
			if r.p(35) {
				done += g.twiceBurst()
			}
		default:
			if r.p(4) {
				done += g.twiceBurst()
			}
		}
		switch c.focus {
		case "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C25":
			if sess%40 == 7 || sess%20 == 11 && (c.focus == "C14" || c.focus == "C15") {
				done += g.sizeBurst(c.thorough()) / 4
			}
		}
		w := g.weights()
		total := 0
		for _, x := range w {
			total += x
		}
		for n := 30 + r.Intn(40); n > 0 && len(g.nodes) < 220; n-- {
			if len(g.nodes) == 0 {
				break
			}
			g.step(w, total)
			done++
		}
		g.run(&hop{Op: "clob"})
		out.advance()
	}
	out.close()
	fmt.Printf("{\"lines\":%d,\"sessions\":%d}\n", out.lines, sess)
}

// caseBurst works on one object whose keys are case variants of each other.
func (g *heapGen) caseBurst() int {
	r := g.r
	class := [][]string{
		{"ab", "Ab", "aB", "AB"},
		{"k", "K", "\u212a"},
		{"éa", "Éa", "éA", "ÉA"},
		{"ж", "Ж"},
		{"abc", "Abc", "aBc", "abC", "ABc", "AbC", "aBC", "ABC"},
		{"qwer", "Qwer", "qWer", "qwEr", "qweR", "QWer", "QwEr", "QweR", "qWEr", "qWeR", "qwER", "QWEr", "QWeR", "QwER", "qWER", "QWER"},
	}[[]int{0, 1, 2, 3, 4, 4, 5}[r.Intn(7)]]
	t := &Tree{T: int(jv.Object)}
	for _, k := range r.Perm(len(class))[:1+r.Intn(len(class)-1)] {
		t.K = append(t.K, []byte(class[k]))
		t.E = append(t.E, g.scalar())
	}
	if r.p(50) {
		t.K = append(t.K, []byte("other"))
		t.E = append(t.E, g.scalar())
	}
	id := len(g.nodes) + 1
	g.roots = append(g.roots, id)
	g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
	n := 8 + r.Intn(10)
	many := len(class) > 4
	if many {
		n = 3*len(class) + r.Intn(10)
	}
	for i := 0; i < n && len(g.nodes) < 200; i++ {
		o := &hop{R: id, P: []hparam{{K: "s", S: bs(class[r.Intn(len(class))])}}}
		switch x := r.Intn(100); {
		case many && i < n/2 && x > 15 && x < 75: // first many of them, then few
			o.Op, o.C = "set", hchild{T: g.scalar()}
			if r.p(40) {
				o.C = hchild{ID: id + 1}
			}
		case many && i >= n/2 && x > 30 && x < 85:
			o.Op = "del"
		case x < 40:
			o.Op, o.Via = "cget", r.pick([]string{"Get", "MustGet", "GetString"})
		case x < 65:
			o.Op, o.Via = "cdel", r.pick([]string{"", "Must"})
		case x < 90:
			o.Op, o.C = "set", hchild{T: g.scalar()}
		default:
			o.Op = "del"
		}
		g.run(o)
	}
	return n
}

// mutating lets the callback of an iteration replace or delete what it is given.
func (g *heapGen) mutating(o *hop) {
	switch o.Via {
	case "RangeArray", "RangeObjects", "RangeObjectsBySetSequence":
	default:
		return
	}
	if g.stale || g.img(o.R).t == 0 {
		return
	}
	if o.Via != "RangeArray" && g.r.p(50) {
		o.Mut = 2
		return
	}
	for id := range g.imgs {
		if c := g.img(id + 1); c.t != 0 && len(c.e) == 0 && id+1 != o.R && (o.C.ID == 0 || g.r.p(20)) {
			o.C.ID, o.Mut = id+1, 1
		}
	}
}

// chainBurst works on one document of many levels, along paths of all its length.
func (g *heapGen) chainBurst() int {
	r := g.r
	depth := 5 + r.Intn(8)
	if r.p(25) {
		depth += 12
	}
	var p []hparam
	t := g.tree(1, 2)
	names := []string{"ab", "Ab", "AB", "k", "K", "é", "x", ""}
	for d := 0; d < depth; d++ {
		up := &Tree{T: int(jv.Array)}
		if r.p(60) {
			up.T = int(jv.Object)
		}
		i, n := 0, 1
		if r.p(40) {
			n = 2
			i = r.Intn(2)
		}
		ks := r.Perm(len(names))
		for j := 0; j < n; j++ {
			if up.T == int(jv.Object) {
				up.K = append(up.K, []byte(names[ks[j]]))
			}
			if j == i {
				up.E = append(up.E, t)
			} else {
				up.E = append(up.E, g.scalar())
			}
		}
		q := hparam{K: "i", I: i}
		if up.T == int(jv.Object) {
			q = hparam{K: "s", S: up.K[i]}
		} else if r.p(40) {
			q.I = i - n
		}
		p = append([]hparam{q}, p...)
		t = up
	}
	id := len(g.nodes) + 1
	g.roots = append(g.roots, id)
	g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
	n := 6 + r.Intn(8)
	for i := 0; i < n && len(g.nodes) < 200; i++ {
		q := append([]hparam(nil), p...)
		if r.p(40) {
			q = q[:len(q)-r.Intn(4)]
		}
		o := &hop{R: id, Op: r.pick([]string{"get", "get", "cget", "cget", "cget", "cdel", "del", "set", "set", "app", "ins"}), N: r.Intn(2)}
		if o.Op == "cget" || o.Op == "cdel" {
			for j := range q {
				if q[j].K == "s" && r.p(40) {
					q[j].S = flipCase(r, q[j].S)
				}
			}
		}
		if r.p(12) { // wrong somewhere
			j := r.Intn(len(q))
			q[j] = []hparam{{K: "s", S: bs("absent")}, {K: "i", I: 2}, {K: "i", I: -3}, {K: "b"}}[r.Intn(4)]
		}
		switch o.Op {
		case "get", "cget":
			o.Via = r.pick([]string{"Get", "Get", "MustGet"})
		case "cdel", "del":
			o.Via = r.pick([]string{"", "Must"})
			if r.p(50) { // something off the way
				q[len(q)-1] = hparam{K: "s", S: bs(g.key())}
			}
		case "set", "app", "ins":
			o.C = hchild{T: g.scalar()}
			if o.Op != "ins" && r.p(60) { // a way to be created
				q = q[:1+r.Intn(len(q))]
				for m := 3 + r.Intn(8); m > 0; m-- {
					if r.p(65) {
						q = append(q, hparam{K: "s", S: bs(r.pick([]string{"n", "m", g.key()}))})
					} else {
						q = append(q, hparam{K: "i", I: 0})
					}
				}
				if r.p(20) {
					o.C = hchild{ID: -1}
				}
			}
		}
		o.P = q
		g.form(o)
		g.run(o)
	}
	return n
}

// twiceBurst works on one array that holds the same nodes several times.
func (g *heapGen) twiceBurst() int {
	r := g.r
	t := &Tree{T: int(jv.Array)}
	for n := 1 + r.Intn(4); n > 0; n-- {
		t.E = append(t.E, g.tree(1, 2))
	}
	id := len(g.nodes) + 1
	g.roots = append(g.roots, id)
	g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
	n := 8 + r.Intn(12)
	for i := 0; i < n && len(g.nodes) >= id && g.img(id).t == int(jv.Array) && len(g.nodes) < 200; i++ {
		es := g.img(id).e
		at := func() []hparam {
			if len(es) == 0 {
				return []hparam{{K: "i", I: 0}}
			}
			return []hparam{{K: "i", I: r.rangeI(-len(es), len(es)-1)}}
		}
		o := &hop{R: id, P: at(), N: r.Intn(2)}
		o.C = hchild{T: g.scalar()}
		if len(es) > 0 && r.p(80) {
			o.C = hchild{ID: es[r.Intn(len(es))]}
		}
		switch x := r.Intn(100); {
		case x < 25:
			o.Op, o.P = "app", nil
		case x < 45:
			o.Op = "ins"
		case x < 55:
			o.Op = "set"
		case x < 90:
			o.Op, o.Via, o.C = "del", r.pick([]string{"", "Must"}), hchild{}
		case x < 95:
			o.Op, o.Via, o.N, o.C = "iter", r.pick([]string{"RangeArray", "IterArray", "ForRangeArr"}), 0, hchild{}
		default:
			o.Op, o.N, o.C = "sort", r.Intn(6), hchild{}
		}
		g.run(o)
	}
	return n
}

// hugeSession works on one document with very many members.
func hugeSession(r *rng, out *Out, n int) {
	s := newSess(r, out)
	t := &Tree{T: int(jv.Object)}
	for i := 0; i < n; i++ {
		t.K = append(t.K, []byte(strconv.FormatInt(int64(i), 36)))
		t.E = append(t.E, &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(i % 100))})
	}
	if r.p(30) {
		t.T, t.K = int(jv.Array), nil
	}
	s.run(&hop{Op: "new", Via: r.pick([]string{"parse", "parse", "build"}), C: hchild{T: t}})
	at := func() []hparam {
		i := r.Intn(n)
		if t.T == int(jv.Array) {
			return []hparam{{K: "i", I: i - n*r.Intn(2)}}
		}
		return []hparam{{K: "s", S: t.K[i]}}
	}
	s.run(&hop{Op: "iter", R: 1, Via: "RangeObjectsBySetSequence"})
	for i := 0; i < 25 && len(s.nodes) > n; i++ {
		o := &hop{R: 1, P: at(), Lax: i%8 != 7}
		switch r.Intn(6) {
		case 0, 1:
			o.Op = "get"
		case 2:
			o.Op = "cget"
		case 3, 4:
			o.Op, o.C = "set", hchild{ID: 2 + r.Intn(n)}
		default:
			o.Op = "del"
		}
		s.run(o)
	}
	s.run(&hop{Op: "iter", R: 1, Via: r.pick([]string{"RangeArray", "ForRangeArr", "RangeObjects", "IterObjects", "ForRangeObj"})})
	s.run(&hop{Op: "clob"})
	out.advance()
}

// sizeBurst grows and shrinks one container through sizes a storage may be made
// for.  The nodes are put in several times, so that few of them are needed.
func (g *heapGen) sizeBurst(deep bool) int {
	r := g.r
	t := &Tree{T: int(jv.Array)}
	object := g.focus == "C12" || g.focus == "C16" || g.focus == "C17" || g.focus == "C25" && r.p(50) || r.p(20)
	if object {
		t.T = int(jv.Object)
	}
	key := func(i int) bs { return bs(fmt.Sprintf("k%d", i)) }
	for i, n := 0, []int{1, 7, 20, 50, 64, 100, 120, 150}[r.Intn(8)]; i < n; i++ {
		t.E = append(t.E, &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(i))})
		if object {
			t.K = append(t.K, key(i))
		}
	}
	first := len(t.E)
	id := len(g.nodes) + 1
	g.roots = append(g.roots, id)
	g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
	if len(g.nodes) < id {
		return 1
	}
	size := first
	done := 0
	call := func(o *hop) {
		o.R, o.Lax = id, done%20 != 19
		g.run(o)
		done++
	}
	some := func() hchild { return hchild{ID: id + 1 + r.Intn(first)} }
	peak := 100 + r.Intn(250)
	if deep {
		peak += r.Intn(1200)
	}
	again := r.p(60)
	for round := 0; round < 2; round++ {
		kind, back := r.Intn(7), 1+r.Intn(2)
		if g.focus == "C14" && r.p(25) {
			kind = 6
		}
		at := func(n int) hparam {
			i := 0
			switch {
			case n < 1:
			case kind > 4: // near the ends
				i = []int{0, 1, 2, 3, -1, -2, -3, -4, n - 1, n - 2, 1 - n, -n}[r.Intn(12)]
				if kind == 6 {
					i = -1 - r.Intn(back)
				}
				if i < -n || i >= n {
					i = 0
				}
			case kind == 1:
				i = -1
			case kind == 2:
				i = n / 2
			case kind > 2:
				i = r.rangeI(-n, n-1)
			}
			return hparam{K: "i", I: i}
		}
		for size < peak && !g.broken && done < 10000 {
			switch {
			case object:
				k := r.Intn(2 * peak)
				if again && r.p(50) {
					k = r.Intn(first)
				}
				call(&hop{Op: "set", P: []hparam{{K: "s", S: key(k)}}, C: some()})
				size = g.nodes[id-1].Len()
				if near := size&(size-1) == 0 || size&(size+1) == 0 || (size-1)&(size-2) == 0; g.focus == "C17" && (r.p(4) || near && size > 30 && r.p(60)) {
					g.run(&hop{Op: "iter", R: id, Via: "RangeObjectsBySetSequence"})
				}
				if r.p(3) {
					size = peak
				}
				continue
			case kind == 0 || size == 0 || r.p(10):
				call(&hop{Op: "app", N: 1, C: some()})
			case kind == 4 && r.p(40):
				call(&hop{Op: "app", N: 0, C: some()})
			default:
				n := r.Intn(2)
				if kind == 6 {
					n = 0
				}
				call(&hop{Op: "ins", N: n, P: []hparam{at(size)}, C: some()})
			}
			size++
		}
		g.run(&hop{Op: "iter", R: id, Via: r.pick([]string{"RangeArray", "IterArray", "ForRangeArr"})})
		kind = r.Intn(7)
		low := r.Intn(8)
		tries := 3 * peak
		for size > low && tries > 0 && !g.broken {
			tries--
			if object {
				call(&hop{Op: "del", P: []hparam{{K: "s", S: key(r.Intn(2 * peak))}}})
				size = g.nodes[id-1].Len()
				continue
			}
			call(&hop{Op: "del", P: []hparam{at(size)}})
			if r.p(2) {
				kind = r.Intn(7)
			}
			if size--; r.p(3) {
				call(&hop{Op: "app", N: 1, C: some()})
				size++
			}
		}
		g.run(&hop{Op: "iter", R: id, Via: r.pick([]string{"RangeArray", "IterArray", "ForRangeArr", "RangeObjects", "RangeObjectsBySetSequence"})})
		peak = 20 + r.Intn(60)
	}
	return done
}

// typedSessions goes through every typed form of set, append and insert with the
// least and greatest of its values.
func typedSessions(r *rng, out *Out) {
	for _, lit := range []string{"0", "1", "-1", "127", "-128", "255", "256", "32767", "-32768", "65535", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296",
		"9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615",
		"0.1", "-7.7", "1.5", "16777217", "16777216", "0.30000001", "123456.79", "s", "true", "false", "null", "{}", "[]"} {
		s := newSess(r, out)
		s.run(&hop{Op: "new", Via: "build", C: hchild{T: &Tree{T: int(jv.Object), K: [][]byte{[]byte("a"), []byte("b")},
			E: []*Tree{{T: int(jv.Array), E: []*Tree{{T: int(jv.Null)}}}, {T: int(jv.Null)}}}}})
		c := hchild{T: &Tree{T: int(jv.Number), S: []byte(lit)}}
		forms := 8
		switch lit {
		case "s":
			c.T.T = int(jv.String)
			forms = 1
		case "true", "false":
			c.T = &Tree{T: int(jv.Boolean), S: []byte{byte(b2i(lit == "true"))}}
			forms = 1
		case "null":
			c.T = &Tree{T: int(jv.Null)}
			forms = 1
		case "{}":
			c.T = &Tree{T: int(jv.Object)}
			forms = 1
		case "[]":
			c.T = &Tree{T: int(jv.Array)}
			forms = 1
		}
		key, idx := hparam{K: "s", S: bs("a")}, hparam{K: "i"}
		for f := 1; f <= forms; f++ {
			for _, via := range []string{"Typed", "MustTyped"} {
				for n := 0; n < 2; n++ {
					s.run(&hop{Op: "app", R: 1, P: []hparam{key}, C: c, N: n, Via: via, Form: f})
					s.run(&hop{Op: "ins", R: 1, P: []hparam{key, idx}, C: c, N: n, Via: via, Form: f})
				}
				s.run(&hop{Op: "set", R: 1, P: []hparam{{K: "s", S: bs("b")}}, C: c, Via: via, Form: f})
				s.run(&hop{Op: "set", R: 1, P: []hparam{key, idx}, C: c, Via: via, Form: f})
			}
			for i := 0; i < 20 && len(s.nodes) > 2 && s.nodes[1].Len() > 10; i++ {
				s.run(&hop{Op: "del", R: 1, P: []hparam{key, idx}})
			}
		}
		out.advance()
	}
}

// sortSessions sorts arrays of many sizes and arrangements.
func sortSessions(c cfg, r *rng, out *Out) {
	sizes := []int{0, 1, 2, 3, 5, 7, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 29, 31, 32, 33, 40, 47, 48, 49, 50, 51, 60, 63, 64, 65, 90, 100, 127, 128, 129, 200, 255, 256, 257, 400, 500, 513, 700}
	if c.thorough() {
		for i := 0; i < 3; i++ {
			sizes = append(sizes, sizes...)
		}
		for i := 1; i < 150; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 1000, 1024, 1025, 1500)
	}
	sizes = append(sizes, 2050+r.Intn(500), 3000+r.Intn(1200))
	if c.thorough() {
		sizes = append(sizes, 2048, 2049, 4096, 4097)
	}
	for _, n := range sizes {
		for k := 0; k < 2 || n > 2000 && k < 4; k++ {
			vals := make([]int, n)
			kind := r.Intn(9)
			if n > 2000 {
				kind = []int{0, 4, 1, 8}[k]
			}
			for i := range vals {
				switch kind {
				case 0:
					vals[i] = i
				case 1:
					vals[i] = n - i
				case 2: // up and down again
					vals[i] = i
					if 2*i > n {
						vals[i] = n - i
					}
				case 3:
					vals[i] = r.Intn(3)
				case 4:
					vals[i] = r.Intn(2*n + 1)
				case 5: // sorted, but for a few
					vals[i] = i
					if r.p(5) {
						vals[i] = r.Intn(n)
					}
				case 6: // sorted, the last one belongs to the front
					vals[i] = i
					if i == n-1 {
						vals[i] = -1
					}
				case 7: // saw
					vals[i] = i % 7
				default: // two sorted halves
					vals[i] = 2 * i % (n | 1)
				}
			}
			t := &Tree{T: int(jv.Array)}
			for _, x := range vals {
				switch {
				case kind != 4 || r.p(70): // as texts of one length
					t.E = append(t.E, &Tree{T: int(jv.String), S: []byte(fmt.Sprintf("%05d", x+1))})
				case r.p(50):
					t.E = append(t.E, &Tree{T: int(jv.Number), S: []byte(fmt.Sprint(x))})
				default:
					t.E = append(t.E, &Tree{T: 5 + r.Intn(2)})
					if e := t.E[len(t.E)-1]; e.T == int(jv.Boolean) {
						e.S = []byte{byte(r.Intn(2))}
					}
				}
			}
			s := newSess(r, out)
			s.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
			s.run(&hop{Op: "sort", R: 1, N: []int{2, 4, 3, 1}[r.Intn(4)]})
			s.run(&hop{Op: "sort", R: 1, N: r.Intn(6)})
			s.run(&hop{Op: "iter", R: 1, Via: "RangeArray"})
			out.advance()
		}
	}
}

// famSeq: one object set again and again, further than its counters may reach.
func famSeq(c cfg) {
	out := newOut(c.out, "seq", c.shards)
	r := newRng(c.seed*13 + 5)
	times := 1 << 22
	if c.thorough() {
		times = 1 << 32
	}
	sess := 0
	for _, n := range []int{254, 65534, times - 3} {
		s := newSess(r, out)
		obj := &Tree{T: int(jv.Object), K: [][]byte{[]byte("x"), []byte("a")}, E: []*Tree{{T: int(jv.Null)}, {T: int(jv.Null)}}}
		s.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: obj}})
		set := func(k string, id, n int) {
			s.run(&hop{Op: "set", R: 1, P: []hparam{{K: "s", S: bs(k)}}, C: hchild{ID: id}, Times: n})
		}
		s.run(&hop{Op: "new", Via: "build", C: hchild{T: &Tree{T: int(jv.Number), S: []byte("7")}}})
		num := len(s.nodes)
		set("m", num, 0)
		set("b", num, n)
		set("a", num, 0)
		s.run(&hop{Op: "iter", R: 1, Via: "RangeObjectsBySetSequence"})
		set("y", num, 1)
		s.run(&hop{Op: "imp", R: 1, C: hchild{ID: -5, Shape: "v", Srcs: []int{1}}, Via: "Import"})
		s.run(&hop{Op: "set", R: len(s.nodes), P: []hparam{{K: "s", S: bs("x")}}, C: hchild{ID: num}})
		set("c", num, 0)
		s.run(&hop{Op: "mar", R: 1, Via: "Marshal"})
		s.run(&hop{Op: "clob"})
		out.advance()
		sess++
	}
	out.close()
	fmt.Printf("{\"lines\":%d,\"sessions\":%d}\n", out.lines, sess)
}
