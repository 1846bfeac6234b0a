package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// ---------------------------------------------------------------- iteration of one value

// ran records what every way of iterating over a value visits.
func (s *valSess) ran(v *jv.V, t *Tree) {
	var forms L
	pan := guard(func() string { return fmt.Sprintf("iterating %.300s", v) }, func() {
		form := func(name string, ks [][]byte, es []*Tree) {
			forms = append(forms, O{"n", name, "k", ks, "e", es})
		}
		var ks [][]byte
		var es []*Tree
		add := func(k string, c *jv.V) { ks, es = append(ks, []byte(k)), append(es, project(c)) }
		addI := func(i int, c *jv.V) { add(fmt.Sprint(i), c) }
		done := func(name string) { form(name, ks, es); ks, es = nil, nil }
		v.RangeArray(func(i int, c *jv.V) bool { addI(i, c); return true })
		done("RangeArray")
		for i, c := range v.ForRangeArr() {
			addI(i, c)
		}
		done("ForRangeArr")
		for it := range v.IterArray() {
			addI(it.I, it.V)
		}
		done("IterArray")
		v.RangeObjects(func(k string, c *jv.V) bool { add(k, c); return true })
		done("RangeObjects")
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool { add(k, c); return true })
		done("RangeObjectsBySetSequence")
		m := v.ForRangeObj()
		var names []string
		for k := range m {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			add(k, m[k])
		}
		done("ForRangeObj")
		for it := range v.IterObjects() {
			add(it.K, it.V)
		}
		done("IterObjects")
	})
	s.out.put(O{"op", "ran", "t", t, "f", forms, "pan", pan})
}

// ---------------------------------------------------------------- goroutines side by side

type worker struct {
	r    *rng
	val  *valSess
	mar  *marSess
	imp  *impSess
	text *Out
	heap *Out
	i    int
}

func newWorker(c cfg, i int) *worker {
	w := &worker{r: newRng(c.seed*1009 + int64(i)), i: i}
	o := func(fam string) *Out { return newOut(c.out, fmt.Sprintf("%s-p%d", fam, i), 1) }
	w.text, w.heap = o("text"), o("heap")
	w.val = &valSess{r: w.r, out: o("val"), hs: &heapSess{r: w.r}}
	w.mar = &marSess{r: w.r, out: o("mar")}
	w.imp = &impSess{r: w.r, out: o("imp"), vs: w.val}
	return w
}

func (w *worker) close() (n int) {
	for _, o := range []*Out{w.text, w.heap, w.val.out, w.mar.out, w.imp.out} {
		o.close()
		n += o.lines
	}
	return n
}

type sharedV struct {
	v *jv.V
	t *Tree
}

// own: values of this goroutine only
func (w *worker) own(n int) {
	r := w.r
	for ; n > 0; n-- {
		switch x := r.Intn(20); {
		case x < 6:
			w.text.put(textLine(genText(r, 1+r.Intn(3), 4)))
			if r.p(10) {
				w.text.put(textLine(bigText(r, r.Intn(6))))
			}
		case x < 11:
			w.mar.out.put(O{"op", "reset"})
			w.mar.kept = nil
			v := w.mar.origin(w.mar.value(1+r.Intn(3), 4, 10))
			w.mar.mar(v, w.mar.opts("C26", 4), "Marshal")
		case x < 14:
			w.val.cmpRandom()
		case x < 15:
			w.val.cntRandom()
		case x < 17:
			w.imp.impRandom()
		case x < 18:
			w.imp.unj()
		default:
			g := &heapGen{heapSess: newSess(r, w.heap), focus: "C26", keys: heapKeys}
			t := g.tree(3, 4)
			if t.T != int(jv.Array) && t.T != int(jv.Object) {
				t = &Tree{T: int(jv.Object)}
			}
			g.roots = append(g.roots, 1)
			g.run(&hop{Op: "new", Via: r.pick([]string{"parse", "build"}), C: hchild{T: t}})
			wt := g.weights()
			total := 0
			for _, x := range wt {
				total += x
			}
			for k := 12; k > 0 && len(g.nodes) < 120 && len(g.nodes) > 0; k-- {
				g.step(wt, total)
			}
		}
	}
}

// reads of values nobody changes
func (w *worker) reads(sh []sharedV, n int) {
	r := w.r
	pick := func() sharedV { return sh[r.Intn(len(sh))] }
	for ; n > 0; n-- {
		a, b := pick(), pick()
		switch r.Intn(8) {
		case 0:
			w.val.cmp(a.v, b.v)
		case 1, 2:
			p, _ := w.val.treePath(a.t, false, 3)
			if len(p) > 0 {
				w.val.get(a.v, p, r.Intn(2), false)
			}
		case 3:
			w.val.acc(a.v)
		case 4:
			w.val.ran(a.v, a.t)
		case 5:
			w.imp.expOf(a.v)
		case 6:
			w.val.cnt(a.v, "V", 0, nil, b.t)
		default:
			w.mar.out.put(O{"op", "reset"})
			w.mar.kept = nil
			w.mar.mar(a.v, w.mar.opts("C26", 3), r.pick([]string{"Marshal", "MarshalString", "MarshalJSON", "MarshalBinary", "MustMarshal"}))
		}
	}
}

// leaves are the paths to the scalars of a tree.
func leaves(t *Tree, at []hparam, f func(p []hparam)) {
	for i, c := range t.E {
		p := hparam{K: "i", I: i}
		if t.T == int(jv.Object) {
			p = hparam{K: "s", S: t.K[i]}
		}
		leaves(c, append(append([]hparam(nil), at...), p), f)
	}
	if len(t.E) == 0 && len(at) > 0 {
		f(at)
	}
}

// storm: all goroutines do the same first reading of a value nobody has read
// before, at the same time.
func (w *worker) storm(sh []sharedV, shift int, together func(i int)) {
	r := w.r
	ordered := []string{"setseq", "defstr", "keyseq", "setseq", "html", "less"}
	for i, a := range sh {
		together(i)
		for k := 0; k < 2; k++ {
			switch (i + shift + 5*k) % 11 {
			case 0, 1, 2:
				n := 0
				leaves(a.t, nil, func(p []hparam) {
					if n++; n <= 5 {
						w.val.get(a.v, p, 0, i%2 == 1)
					}
				})
				if n == 0 {
					w.val.acc(a.v)
				}
			case 3:
				w.val.acc(a.v)
			case 4:
				w.val.ran(a.v, a.t)
			case 5:
				w.imp.expOf(a.v)
			case 6:
				w.val.cmp(a.v, sh[(i+1)%len(sh)].v)
			default:
				o := &mopt{O: ordered[r.Intn(len(ordered))]}
				if k == 0 {
					o.O = ordered[i%len(ordered)]
				}
				switch o.O {
				case "keyseq":
					o.Ks = w.mar.keyList()
				case "less":
					o.I = 1 + r.Intn(5)
				}
				w.mar.out.put(O{"op", "reset"})
				w.mar.kept = nil
				w.mar.mar(a.v, []*mopt{o}, r.pick([]string{"Marshal", "MarshalString", "MustMarshal", "MustMarshalString"}))
			}
		}
	}
}

// phase runs f for every worker: side by side, or one after another.
func phase(c cfg, ws []*worker, f func(w *worker)) {
	if c.serial {
		for _, w := range ws {
			f(w)
		}
		return
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			<-start
			f(w)
		}(w)
	}
	close(start)
	end := make(chan struct{})
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(150 * time.Second):
		fmt.Fprintln(os.Stderr, "HANG concurrent calls of jsonvalue do not return")
		os.Exit(7)
	}
}

func famConc(c cfg) {
	quietGuard = true
	var ws []*worker
	for i := 0; i < 8; i++ {
		ws = append(ws, newWorker(c, i))
	}
	r := newRng(c.seed*41 + 3)
	gen := &valSess{r: r}
	phases := 24
	per := c.n / phases / len(ws)
	for k := 0; k < phases; k++ {
		var sh []sharedV
		for len(sh) < 12 {
			t := gen.getterTree(1+r.Intn(3), 4)
			if r.p(40) {
				t = gen.tree(1+r.Intn(3), 4)
			}
			if !goodV(t) {
				continue
			}
			lower(t)
			v, err := jv.Unmarshal(treeText(t, nil)) // not read before the goroutines do
			if r.p(30) {
				v, err = gen.make(t), nil
			}
			if err != nil {
				continue
			}
			sh = append(sh, sharedV{v, t})
		}
		// option objects used by several goroutines
		var pool []kept
		ps := &marSess{r: r}
		for len(pool) < 6 {
			os := ps.opts("C26", 3)
			plain := true
			for _, o := range os {
				plain = plain && o.O != "less" && o.I == 0 // these write the log of their session
			}
			if r.p(50) {
				os, plain = append(os, &mopt{O: "keyseq", Ks: ps.keyList()}), plain
			}
			if plain && len(os) > 0 {
				pool = append(pool, kept{os, ps.options(os)})
			}
		}
		for _, w := range ws {
			w.mar.pool = pool
		}
		phase(c, ws, func(w *worker) {
			if k%3 == 2 {
				w.own(per)
				return
			}
			w.reads(sh, per)
			if k%3 == 1 {
				w.own(per / 4)
			}
		})
	}
	for k := 0; k < 6+c.n/4000; k++ {
		var sh []sharedV
		large, shift := k%2 == 1, 0 // large ones: what is done only from some size on
		for large && len(sh) < 10 {
			t := gen.large(len(sh) + k/2)
			if !goodV(t) {
				continue
			}
			lower(t)
			v, err := jv.Unmarshal(treeText(t, nil))
			if r.p(30) {
				v, err = gen.make(t), nil
			}
			if err == nil {
				sh = append(sh, sharedV{v, t})
			}
			shift = r.Intn(11)
		}
		for !large && len(sh) < 33 {
			t := gen.getterTree(r.Intn(3), 4)
			switch r.Intn(4) {
			case 0:
				t = gen.tree(1+r.Intn(2), 5)
			case 1: // an object, wide enough for its order to matter
				t = &Tree{T: int(jv.Object)}
				for i, p := range r.Perm(len(heapKeys))[:3+r.Intn(12)] {
					t.K, t.E = append(t.K, []byte(heapKeys[p])), append(t.E, gen.getterScalar())
					_ = i
				}
			}
			if !goodV(t) {
				continue
			}
			lower(t)
			v, err := jv.Unmarshal(treeText(t, nil))
			if r.p(30) {
				v, err = gen.make(t), nil
			}
			if err == nil {
				sh = append(sh, sharedV{v, t})
			}
		}
		gate := make([]int32, len(sh))
		phase(c, ws, func(w *worker) {
			w.mar.pool = nil
			w.storm(sh, shift, func(i int) {
				atomic.AddInt32(&gate[i], 1)
				for !c.serial && atomic.LoadInt32(&gate[i]) < int32(len(ws)) {
					runtime.Gosched()
				}
			})
		})
	}
	n := 0
	for _, w := range ws {
		n += w.close()
	}
	fmt.Printf("{\"lines\":%d}\n", n)
}

// ---------------------------------------------------------------- parse volume

// famBulk parses texts with known results after every phase of a history
// that moves the learned sizes to their extremes; the control run parses the
// same texts and skips the history.
func famBulk(c cfg) {
	out := newOut(c.out, "text", c.shards)
	r := newRng(c.seed*43 + 1)
	check := func(n int) {
		for i := 0; i < n; i++ {
			switch r.Intn(10) {
			case 0:
				out.put(textLine([]byte(r.pick([]string{"1", "{}", "[]", `""`, "", " ", "[1,2,3]", `{"a":{"b":[null]}}`, "tru", "[1"}))))
			case 1:
				out.put(textLine(bigText(r, r.Intn(6))))
			default:
				out.put(textLine(genText(r, 1+r.Intn(4), 1+r.Intn(6))))
			}
			out.advance()
		}
	}
	// long is one string of n bytes, parsed without copying
	long := func(n int) []byte {
		b := bytes.Repeat([]byte{'x'}, n)
		b[0], b[n-1] = '"', '"'
		return b
	}
	parse := func(b []byte, times int) {
		if c.serial {
			return
		}
		guard(func() string { return fmt.Sprintf("parsing %d bytes %d times", len(b), times) }, func() {
			for i := 0; i < times; i++ {
				v, err := jv.UnmarshalNoCopy(b)
				if err != nil || v.ValueType() == jv.NotExist {
					panic(fmt.Sprintf("refused after much data: %v", err))
				}
			}
		})
		atomic.StoreInt64(&callStart, 0)
	}
	n := c.n / 10
	check(n)
	for i := 0; i < 30; i++ { // one byte per value
		parse([]byte("1"), 20000)
		parse([]byte("[1]"), 10000)
		parse([]byte("0"), 20000)
	}
	check(n)
	for i := 0; i < 2000; i++ { // broken texts count too
		guard(func() string { return "parsing broken texts" }, func() {
			if !c.serial {
				_, _ = jv.UnmarshalString("[1,1,1,1,1,1,1,1,1")
				_, _ = jv.UnmarshalString("1]")
				_, _ = jv.UnmarshalString("")
			}
		})
	}
	check(n)
	for n := 1 << 20; n < 64<<20; n *= 2 { // the average grows again
		parse(long(n), 1)
	}
	check(n)
	big := long(64 << 20)
	for i := 0; i < 31; i++ { // up to the edge of 2 GiB
		parse(big, 1)
	}
	check(n)
	for i := 0; i < 8; i++ { // and over it in small steps
		parse(long(8<<20-1), 1)
		check(n / 8)
	}
	for i := 0; i < 40; i++ { // over it again
		parse(big, 1)
	}
	check(n)
	if c.thorough() {
		for k := 0; k < 4; k++ {
			for i := 0; i < 33; i++ {
				parse(big, 1)
			}
			check(n)
		}
	}
	// over it from several goroutines at a time
	if !c.serial {
		quietGuard = true
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := long(4 << 20)
				for i := 0; i < 80; i++ {
					parse(b, 1)
					parse([]byte("[1,2]"), 5)
				}
			}()
		}
		wg.Wait()
		quietGuard = false
	}
	check(n)
	for i := 0; i < 20; i++ {
		parse([]byte("1"), 10000)
	}
	check(n)
	if p := atomic.LoadInt64(&panicCount); p > 0 {
		out.put(O{"op", "boom", "n", int(p)})
	}
	out.close()
	fmt.Printf("{\"lines\":%d}\n", out.lines)
}
