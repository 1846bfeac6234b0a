package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// ---------------------------------------------------------------- trace lines

// O is an ordered JSON object: key, value, key, value...
type O []any

// L is a JSON array.
type L []any

// Tree is the projection of a value: see spec/JVBase.tla.
type Tree struct {
	T int
	S []byte
	K [][]byte
	E []*Tree
}

func enc(b []byte, x any) []byte {
	switch x := x.(type) {
	case int:
		return strconv.AppendInt(b, int64(x), 10)
	case bool:
		if x {
			return append(b, '1')
		}
		return append(b, '0')
	case string: // only plain ASCII labels
		return strconv.AppendQuote(b, x)
	case []byte:
		b = append(b, '[')
		for i, c := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendInt(b, int64(c), 10)
		}
		return append(b, ']')
	case [][]byte:
		b = append(b, '[')
		for i, c := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = enc(b, c)
		}
		return append(b, ']')
	case []int:
		b = append(b, '[')
		for i, c := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendInt(b, int64(c), 10)
		}
		return append(b, ']')
	case L:
		b = append(b, '[')
		for i, c := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = enc(b, c)
		}
		return append(b, ']')
	case O:
		b = append(b, '{')
		for i := 0; i < len(x); i += 2 {
			if i > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendQuote(b, x[i].(string))
			b = append(b, ':')
			b = enc(b, x[i+1])
		}
		return append(b, '}')
	case *Tree:
		if x == nil {
			return enc(b, O{"t", 0, "s", []byte{}, "k", L{}, "e", L{}})
		}
		b = append(b, `{"t":`...)
		b = strconv.AppendInt(b, int64(x.T), 10)
		b = append(b, `,"s":`...)
		b = enc(b, x.S)
		b = append(b, `,"k":`...)
		b = enc(b, x.K)
		b = append(b, `,"e":[`...)
		for i, c := range x.E {
			if i > 0 {
				b = append(b, ',')
			}
			b = enc(b, c)
		}
		return append(b, "]}"...)
	case []*Tree:
		b = append(b, '[')
		for i, c := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = enc(b, c)
		}
		return append(b, ']')
	}
	panic(fmt.Sprintf("enc: %T", x))
}

// Out writes trace lines over shards.
type Out struct {
	files []*os.File
	ws    []*bufio.Writer
	next  int
	lines int
}

func newOut(dir, name string, shards int) *Out {
	o := &Out{}
	for i := 0; i < shards; i++ {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("%s-%d.ndjson", name, i)))
		must(err)
		o.files = append(o.files, f)
		o.ws = append(o.ws, bufio.NewWriterSize(f, 1<<20))
	}
	return o
}

// put writes a line to the current shard; advance moves on.
func (o *Out) put(line any) {
	b := enc(nil, line)
	if nesting(b) > 250 && bytes.HasPrefix(b, []byte(`{"op":`)) {
		// more than the reader of TLC takes; only lines that no other line depends on
		for _, op := range []string{"exp", "imp", "cmp", "cnt", "get", "acc", "ran", "mar", "unj"} {
			if bytes.HasPrefix(b[6:], []byte(`"`+op+`"`)) {
				return
			}
		}
	}
	b = append(b, '\n')
	_, err := o.ws[o.next].Write(b)
	must(err)
	o.lines++
}
func nesting(b []byte) (most int) {
	n := 0
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '{', '[':
			if n++; n > most {
				most = n
			}
		case '}', ']':
			n--
		case '"': // names only; texts are written as numbers
			for i++; b[i] != '"'; i++ {
				if b[i] == '\\' {
					i++
				}
			}
		}
	}
	return
}
func (o *Out) advance() { o.next = (o.next + 1) % len(o.ws) }
func (o *Out) close() {
	for i, w := range o.ws {
		must(w.Flush())
		must(o.files[i].Close())
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR:", err)
		os.Exit(9)
	}
}

// ---------------------------------------------------------------- guarded calls

var (
	journal    *os.File
	callStart  int64 // unix nano of the running call, 0 if none
	callDesc   atomic.Value
	panicCount int64

	// quietGuard: no bookkeeping in guard, which would order the goroutines and
	// hide data races (conc.go)
	quietGuard bool
)

// guard runs a call into the library; it reports whether it panicked.
// desc is only evaluated when journaling or on a hang.
func guard(desc func() string, f func()) (panicked bool) {
	if quietGuard {
		defer func() {
			if e := recover(); e != nil {
				panicked = true
				if atomic.AddInt64(&panicCount, 1) <= 3 {
					fmt.Fprintf(os.Stderr, "PANIC in %s: %v\n", clip(desc()), e)
				}
			}
		}()
		f()
		return false
	}
	if journal != nil {
		_, _ = journal.WriteString(strings.ReplaceAll(desc(), "\n", " ") + "\n")
	}
	callDesc.Store(desc)
	atomic.StoreInt64(&callStart, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&callStart, 0)
		if e := recover(); e != nil {
			panicked = true
			if atomic.AddInt64(&panicCount, 1) <= 3 {
				fmt.Fprintf(os.Stderr, "PANIC in %s: %v\n", clip(desc()), e)
			}
		}
	}()
	f()
	return false
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// watchdog ends the process with code 7 if one call runs for too long.
func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(time.Second)
			st := atomic.LoadInt64(&callStart)
			if st != 0 && time.Since(time.Unix(0, st)) > limit {
				if d, ok := callDesc.Load().(func() string); ok {
					fmt.Fprintf(os.Stderr, "HANG %s\n", clip(d()))
				}
				os.Exit(7)
			}
		}
	}()
}

// ---------------------------------------------------------------- projections

// project reads the whole tree through the public API.
func project(v *jv.V) *Tree {
	if v == nil {
		return &Tree{T: 0}
	}
	t := &Tree{T: int(v.ValueType())}
	switch v.ValueType() {
	case jv.String, jv.Number:
		t.S = []byte(v.String())
	case jv.Boolean:
		t.S = []byte{0}
		if v.Bool() {
			t.S[0] = 1
		}
	case jv.Array:
		v.RangeArray(func(i int, c *jv.V) bool {
			t.E = append(t.E, project(c))
			return true
		})
	case jv.Object:
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool {
			t.K = append(t.K, []byte(k))
			t.E = append(t.E, project(c))
			return true
		})
	}
	return t
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng          { return &rng{rand.New(rand.NewSource(seed))} }
func (r *rng) p(pct int) bool         { return r.Intn(100) < pct }
func (r *rng) pick(s []string) string { return s[r.Intn(len(s))] }
func (r *rng) rangeI(a, b int) int    { return a + r.Intn(b-a+1) }
