package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

type cfg struct {
	fam    string
	seed   int64
	out    string
	shards int
	tests  string
	n      int
	focus  string
	tier   string
	serial bool // control run: the same calls, one after another
}

func (c cfg) thorough() bool { return c.tier == "thorough" }

func main() {
	c := cfg{}
	var jf string
	flag.StringVar(&c.fam, "fam", "", "family")
	flag.Int64Var(&c.seed, "seed", 1, "seed")
	flag.StringVar(&c.out, "out", ".", "output directory")
	flag.IntVar(&c.shards, "shards", 8, "trace shards")
	flag.StringVar(&c.tests, "tests", "", "tests generated by TLC (ndjson)")
	flag.IntVar(&c.n, "n", 1000, "budget")
	flag.StringVar(&c.focus, "focus", "", "property in focus")
	flag.StringVar(&c.tier, "tier", "quick", "tier")
	flag.BoolVar(&c.serial, "serial", false, "control run: the same calls, one after another")
	flag.StringVar(&jf, "journal", "", "write every call to this file before making it")
	flag.Parse()
	if jf != "" {
		f, err := os.Create(jf)
		must(err)
		journal = f
	}
	watchdog(60 * time.Second)
	fams := map[string]func(cfg){
		"text":   famText,
		"deep":   famDeep,
		"number": famNumber,
		"heap":   famHeap,
		"seq":    famSeq,
		"own":    famOwn,
		"mar":    famMar,
		"val":    famVal,
		"imp":    famImp,
		"conc":   famConc,
		"bulk":   famBulk,
		"def":    famDef,
		"new":    famNew,
		"pump":   famPump,
	}
	f, ok := fams[c.fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR: unknown family", c.fam)
		os.Exit(9)
	}
	f(c)
}
