package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

// A profile is a small instance of the machine to be explored completely.
type profile struct {
	name    string
	cfg     *Cfg
	keys    []string
	pre     string
	maxlen  int
	maxdata int
	lines   int
	maxkill int
	letters string // the line has no others (empty: any)
	dirty   int    // how many history entries may be changed
	depth   int    // how many keys from the start (0: no bound)
	max     int    // at most so many tours are walked (0: all)
}

// explore model checks the profile and returns the tours through it: sequences of
// keys that together take every transition.
func (c *check) explore(p profile) []*Scenario {
	keys := make([][]int, len(p.keys))
	for i, k := range p.keys {
		keys[i] = str(k)
	}
	in := obj{"cfgs": specCfgs([]*Cfg{p.cfg}), "keys": keys, "pre": str(p.pre), "disk": obj{"none": []int{}},
		"maxlen": p.maxlen, "maxdata": p.maxdata, "lines": p.lines, "print": true}
	if p.depth == 0 {
		p.depth = 1000
	}
	in["depth"], in["maxkill"], in["dirty"], in["letters"] = p.depth, p.maxkill, p.dirty, str(p.letters)
	b, err := json.Marshal(in)
	must(err)
	path := filepath.Join(scratch(), p.name+".json")
	must(os.WriteFile(path, b, 0644))
	var paths [][]int
	t0 := time.Now()
	r, err := runTLC("MC.tla", "MC.cfg", []string{"MC=" + path}, 14*time.Minute, runtime.NumCPU(), func(s string) {
		var x []int
		if json.Unmarshal([]byte(s), &x) == nil {
			paths = append(paths, x)
		}
	})
	must(err)
	if os.Getenv("VH_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "profile %s: %d states, %d transitions, %.1fs\n", p.name, r.distinct, r.generated, time.Since(t0).Seconds())
	}
	if r.violated != "" || !r.ok {
		must(errf("the specification itself fails in profile %s:\n%s", p.name, r.violated+"\n"+tail(r.output, 60)))
	}
	if len(paths) != r.generated-1 {
		must(errf("profile %s: %d transitions printed, %d taken", p.name, len(paths), r.generated-1))
	}
	c.add("states", r.distinct)
	c.add("transitions", r.generated)
	// those that go on in another one are walked with it
	sort.Slice(paths, func(i, j int) bool { return lessInts(paths[i], paths[j]) })
	var keep [][]int
	for i, x := range paths {
		if i+1 < len(paths) && isPrefix(x, paths[i+1]) {
			continue
		}
		keep = append(keep, x)
	}
	c.add("tours", len(keep))
	rnd := rand.New(rand.NewSource(seed() + hash(p.name)))
	if p.max > 0 && len(keep) > p.max {
		rnd.Shuffle(len(keep), func(i, j int) { keep[i], keep[j] = keep[j], keep[i] })
		keep = keep[:p.max]
	}
	c.add("tours_walked", len(keep))
	var out []*Scenario
	for i, x := range keep {
		var b strings.Builder
		b.WriteString(p.pre)
		for _, k := range x {
			b.WriteString(p.keys[k-1])
		}
		s := b.String() + "\r"
		cfg := *p.cfg
		observe(rnd, &cfg)
		if p.cfg.Mask {
			cfg.Paint = ""
		}
		out = append(out, &Scenario{ID: sprintf("mc-%s-%d", p.name, i), Cfgs: []*Cfg{&cfg}, EOF: true,
			Chunks: split(rnd, s, false), Steps: readlines(enders(s) + 1)})
	}
	return out
}

func lessInts(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func isPrefix(a, b []int) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
