package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// ---------------------------------------------------------------- default options as a register

// defSetting i: every concern carries the number i, so that an output made
// of two settings fits neither.
func defSetting(r *rng, i int) []*mopt {
	var os []*mopt
	if i%4 != 3 {
		os = append(os, &mopt{O: "nanS", S: bs(fmt.Sprint("n", i))})
		os = append(os, &mopt{O: "infS", S: bs(fmt.Sprint("+i", i)), S2: bs(fmt.Sprint("-i", i))})
	} else {
		os = append(os, &mopt{O: "nanF", S: bs(fmt.Sprint(i))})
		os = append(os, &mopt{O: "infF", S: bs(fmt.Sprint(i))})
	}
	if i%3 != 2 {
		p, q := make([]byte, i), make([]byte, 1+i%2)
		for k := range p {
			p[k] = ' '
		}
		for k := range q {
			q[k] = '\t'
		}
		os = append(os, &mopt{O: "indent", S: p, S2: q})
	}
	if i&1 == 1 {
		os = append(os, &mopt{O: "omit", B: 1})
	}
	if i&2 == 2 {
		os = append(os, &mopt{O: "slash", B: 0})
	}
	if i&4 == 4 {
		os = append(os, &mopt{O: "utf8"})
	}
	if r.p(50) {
		os = append(os, &mopt{O: "html", B: 0})
	}
	switch i % 4 {
	case 0:
		os = append(os, &mopt{O: "setseq"})
	case 1:
		os = append(os, &mopt{O: "defstr"})
	case 2:
		os = append(os, &mopt{O: "keyseq", Ks: []bs{bs("b"), bs("a"), bs("é/")}})
	default:
		os = append(os, &mopt{O: "keyseq", Ks: []bs{bs("é/"), bs("c")}})
	}
	r.Shuffle(len(os), func(a, b int) { os[a], os[b] = os[b], os[a] })
	if i%5 == 0 {
		os = append([]*mopt{{O: "opt", B: i & 1}}, os...)
	}
	return os
}

type defEvent struct {
	at   int64
	ret  bool
	w    bool
	id   int
	x    int // setting written, or output read
	pan  bool
	tree int
	call int
	via  string
	e    int
	out  string
}

// famDef: goroutines that set and reset the defaults while others marshal.
func famDef(c cfg) {
	quietGuard = true
	r := newRng(c.seed*47 + 9)
	const K, trees = 9, 5
	lines := 0
	deadline := time.Now().Add(200 * time.Second)
	for shard := 0; shard < c.shards; shard++ {
		out := newOut(c.out, fmt.Sprint("def-", shard), 1)
		ms := &marSess{r: r, out: out}
		filler := make([]jv.Option, 3000) // options without effect, which take their time
		for i := range filler {
			filler[i] = jv.OptIgnoreOmitempty()
		}
		sets := make([][]*mopt, K)
		opts := make([][]jv.Option, K)
		slow := make([][]jv.Option, K)
		for i := 1; i < K; i++ {
			sets[i] = defSetting(r, i)
			opts[i] = ms.options(sets[i])
			at := r.Intn(len(opts[i]) + 1)
			slow[i] = append(slow[i], opts[i][:at]...)
			slow[i] = append(slow[i], filler...)
			slow[i] = append(slow[i], opts[i][at:]...)
		}
		calls := [][]*mopt{nil, {{O: "omit", B: shard & 1}}, {{O: "nanS", S: bs("call")}, {O: "indent", S2: bs(" ")}}, {{O: "defstr"}, {O: "html", B: 1}}}
		callOpts := make([][]jv.Option, len(calls))
		for i := range calls {
			callOpts[i] = ms.options(calls[i])
		}
		// values: not finite, null and character-laden members, so that every concern shows
		vals := make([]*jv.V, trees)
		for i := range vals {
			v := jv.NewArray()
			for k := 0; k < 2+i; k++ {
				o := jv.NewObject()
				if i != 1 || k == 0 {
					o.MustSet(jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[(i+k)%3])).At("c")
				}
				if i != 1 {
					o.MustSet("</é").At("é/")
					o.MustSetNull().At("b")
				}
				o.MustSet([]any{nil, k}).At("a")
				v.MustAppend(o).InTheEnd()
			}
			if i == 0 { // finite: also fits the reset state
				v = jv.MustUnmarshalString(`{"b":null,"a":["</é",{"c":null}]}`)
			}
			vals[i] = v
		}
		tr := make([]*Tree, trees)
		for i := range vals {
			tr[i] = project(vals[i])
		}
		var clock int64
		type outKey struct {
			tree, call int
			via        string
			e          int
			pan        bool
			out        string
		}
		outs := map[outKey]int{}
		var outList []outKey
		var events L
		rounds := c.n / c.shards / 110
		for round := 0; round < rounds; round++ {
			stamped := round%3 != 2
			setters, readers := 1+r.Intn(3), 3+r.Intn(2)
			var mu sync.Mutex
			var all []defEvent
			var wg sync.WaitGroup
			start := make(chan struct{})
			run := func(f func(r *rng, add func(e defEvent))) {
				wg.Add(1)
				gr := newRng(r.Int63())
				go func() {
					defer wg.Done()
					var mine []defEvent
					<-start
					f(gr, func(e defEvent) { mine = append(mine, e) })
					mu.Lock()
					all = append(all, mine...)
					mu.Unlock()
				}()
			}
			var one sync.Mutex // control run: one call at a time
			enter := func() {
				if c.serial {
					one.Lock()
				}
			}
			leave := func() {
				if c.serial {
					one.Unlock()
				}
			}
			tick := func() int64 {
				if !stamped {
					return 0
				}
				return atomic.AddInt64(&clock, 1)
			}
			for g := 0; g < setters; g++ {
				g := g
				run(func(r *rng, add func(e defEvent)) {
					for k := 0; k < 12; k++ {
						x := r.Intn(K)
						id := 1000*g + k + 1
						enter()
						t0 := tick()
						pan := guard(func() string { return fmt.Sprint("setting defaults ", sets[x]) }, func() {
							switch {
							case x == 0:
								jv.ResetDefaultMarshalOptions()
							case (k+g)%2 == 0:
								jv.SetDefaultMarshalOptions(slow[x]...)
							default:
								jv.SetDefaultMarshalOptions(opts[x]...)
							}
						})
						t1 := tick()
						leave()
						add(defEvent{at: t0, w: true, id: id, x: x, pan: pan})
						add(defEvent{at: t1, ret: true, id: id, pan: pan})
						for d := r.Intn(30); d > 0; d-- {
							_ = jv.NewString("pause")
						}
					}
				})
			}
			for g := 0; g < readers; g++ {
				g := g
				run(func(r *rng, add func(e defEvent)) {
					for k := 0; k < 16; k++ {
						e := defEvent{id: 100000 + 1000*g + k, tree: r.Intn(trees), call: r.Intn(2 * len(calls))}
						if e.call >= len(calls) {
							e.call = 0
						}
						e.via = r.pick([]string{"Marshal", "MarshalString", "MarshalJSON"})
						v := vals[e.tree]
						o := callOpts[e.call]
						if r.p(25) {
							o = append(append([]jv.Option{}, filler...), o...)
						}
						enter()
						t0 := tick()
						e.pan = guard(func() string { return "marshaling while the defaults change" }, func() {
							var err error
							var b []byte
							var s string
							switch e.via {
							case "MarshalJSON":
								b, err = v.MarshalJSON()
								s = string(b)
							case "MarshalString":
								s, err = v.MarshalString(o...)
							default:
								b, err = v.Marshal(o...)
								s = string(b)
							}
							e.e, e.out = b2i(err != nil), s
						})
						t1 := tick()
						leave()
						if e.via == "MarshalJSON" {
							e.call = 0
						}
						e.at = t0
						add(e)
						add(defEvent{at: t1, ret: true, id: e.id})
					}
				})
			}
			close(start)
			end := make(chan struct{})
			go func() { wg.Wait(); close(end) }()
			select {
			case <-end:
			case <-time.After(time.Until(deadline)):
				fmt.Fprintln(os.Stderr, "HANG setting defaults and marshaling with jsonvalue do not return")
				os.Exit(7)
			}
			for i := range all {
				e := &all[i]
				if e.w || e.ret {
					continue
				}
				k := outKey{e.tree, e.call, e.via, e.e, e.pan, e.out}
				n, ok := outs[k]
				if !ok {
					n = len(outList) + 1
					outs[k] = n
					outList = append(outList, k)
				}
				e.x = n
			}
			if stamped {
				sort.Slice(all, func(a, b int) bool { return all[a].at < all[b].at })
				for _, e := range all {
					switch {
					case e.ret:
						events = append(events, O{"op", "r", "id", e.id})
					case e.w:
						events = append(events, O{"op", "w", "id", e.id, "x", e.x, "pan", e.pan})
					default:
						events = append(events, O{"op", "q", "id", e.id, "x", e.x})
					}
				}
			} else { // the setting in force is not known: start over with a known one
				pan := false
				for _, e := range all {
					pan = pan || e.w && e.pan
				}
				jv.ResetDefaultMarshalOptions()
				events = append(events, O{"op", "sync", "x", 0, "pan", pan})
			}
			if time.Now().After(deadline.Add(-20 * time.Second)) {
				break
			}
		}
		jv.ResetDefaultMarshalOptions()
		sl, ol := L{}, L{}
		for i := range sets {
			sl = append(sl, encOpts(sets[i]))
		}
		for _, k := range outList {
			ol = append(ol, O{"t", k.tree + 1, "c", encOpts(calls[k.call]), "via", k.via, "e", k.e, "pan", k.pan, "out", []byte(k.out)})
			if len(ol) >= 700 {
				break
			}
		}
		out.put(O{"op", "reset", "sets", sl, "trees", tr, "outs", ol})
		for _, e := range events {
			out.put(e)
		}
		lines += out.lines
		out.close()
	}
	fmt.Printf("{\"lines\":%d}\n", lines)
}
