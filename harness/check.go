package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// A check decides one property. Everything it finds wrong with the real code goes
// through violation; anything else that goes wrong is an error of the check.
type check struct {
	id      string
	tier    string
	start   time.Time
	level   string
	cov     obj
	assume  []string
	samples []interface{}
	viols   int
	seen    map[string]bool
	known   []known
	knownN  map[string]bool
}

type checkError struct{ err error }

func must(err error) {
	if err != nil {
		panic(checkError{err})
	}
}

func (c *check) thorough() bool { return c.tier == "thorough" }

// pickN is how many of something: quick or thorough
func (c *check) pickN(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

func (c *check) add(key string, n int) {
	v, _ := c.cov[key].(int)
	c.cov[key] = v + n
}

func (c *check) sample(v interface{}) {
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
}

// violation reports one; what describes it and replay is written to a file
func (c *check) violation(what string, replay interface{}) {
	for _, k := range c.known {
		if k.matches(c.id, what, replay) {
			if !c.knownN[k.text] {
				c.knownN[k.text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
			}
			return
		}
	}
	c.viols++
	if c.viols > 5 {
		return
	}
	dir := filepath.Join(verifDir(), "out")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, c.viols))
	b, err := json.MarshalIndent(obj{"property": c.id, "what": what, "replay": replay}, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0644))
	fmt.Printf("%s: %s\n", c.id, what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
}

type known struct{ id, text string }

func (k known) matches(id, what string, replay interface{}) bool { return false }

func (c *check) writeEvidence() error {
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	if len(c.samples) > 0 {
		c.cov["samples"] = c.samples
	}
	e := obj{"property": c.id, "tier": c.tier, "seed": int(seed()), "level": c.level, "coverage": c.cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": c.viols}
	if c.assume == nil {
		e["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0644)
}

func checkMain(id, tier string) (code int) {
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	c := &check{id: id, tier: tier, start: time.Now(), level: "model_checking", cov: obj{}, knownN: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			ce, ok := e.(checkError)
			if !ok {
				panic(e)
			}
			if c.viols > 0 {
				fmt.Fprintln(os.Stderr, "error after violations:", ce.err)
				code = 1
				c.writeEvidence()
				return
			}
			fmt.Fprintln(os.Stderr, "check error:", ce.err)
			code = 3
		}
	}()
	f(c)
	if err := c.writeEvidence(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d violations, %.1fs\n", id, tier, c.viols, time.Since(c.start).Seconds())
	if c.viols > 0 {
		return 1
	}
	return 0
}

// conform runs the scenarios on the real code and the recorded traces against the
// specification.
func (c *check) conform(scs []*Scenario) { c.conformTo("Trace", scs) }

// conformScreen includes all output
func (c *check) conformScreen(scs []*Scenario) {
	for _, sc := range scs {
		sc.Screen = true
	}
	c.conformTo("ScreenTrace", scs)
}

func (c *check) conformTo(spec string, scs []*Scenario) {
	var tasks []*task
	byID := map[string]*Scenario{}
	for _, sc := range scs {
		if byID[sc.ID] != nil {
			must(fmt.Errorf("two scenarios %s", sc.ID))
		}
		byID[sc.ID] = sc
		b, err := json.Marshal(sc)
		must(err)
		tasks = append(tasks, &task{Kind: "edit", ID: sc.ID, Data: b})
	}
	rep := map[string]interface{}{}
	for id, sc := range byID {
		rep[id] = sc
	}
	c.runAndValidate(spec, tasks, rep)
	for i := 0; i < len(scs) && i < 3; i++ {
		sc := scs[i*len(scs)/3]
		c.sample(obj{"scenario": sc.ID, "input": strings.Join(sc.Chunks, "|"), "steps": len(sc.Steps)})
	}
}

// runAndValidate runs the tasks on the real code and the traces against spec;
// byID is what the tasks were made from.
func (c *check) runAndValidate(spec string, tasks []*task, byID map[string]interface{}) {
	t0 := time.Now()
	res, err := runTasks(tasks)
	must(err)
	t1 := time.Now()
	var traces []json.RawMessage
	ids := map[string]json.RawMessage{}
	for _, r := range res {
		if r.crash || r.hang {
			what := "it panicked"
			if r.hang {
				what = "it hangs"
			}
			c.violation(what+" in "+r.t.ID+": "+firstLines(r.stderr, 2), obj{"scenario": byID[r.t.ID], "stderr": r.stderr})
			continue
		}
		traces = append(traces, r.trace)
		ids[r.t.ID] = r.trace
	}
	if len(traces) < len(tasks) && c.viols == 0 {
		must(fmt.Errorf("%d of %d scenarios were not run", len(tasks)-len(traces), len(tasks)))
	}
	mm := c.validate(spec+".tla", spec+".cfg", traces)
	t2 := time.Now()
	for _, m := range mm {
		c.violation(m.what, obj{"scenario": byID[m.id], "mismatch": m.what, "events": eventsAround(ids[m.id], m.step), "trace": ids[m.id]})
	}
	if os.Getenv("VH_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "run %.1fs validate %.1fs for %d\n", t1.Sub(t0).Seconds(), t2.Sub(t1).Seconds(), len(tasks))
	}
}

// model checks a module of the specification that reads its instance from MC;
// onPrint gets what it prints
func (c *check) model(module, cfg string, instance []byte) []string {
	path := filepath.Join(scratch(), module+".json")
	must(os.WriteFile(path, instance, 0644))
	var prints []string
	t0 := time.Now()
	r, err := runTLC(module, cfg, []string{"MC=" + path}, 14*time.Minute, runtime.NumCPU(), func(s string) { prints = append(prints, s) })
	must(err)
	if os.Getenv("VH_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d states, %d transitions, %.1fs\n", module, r.distinct, r.generated, time.Since(t0).Seconds())
	}
	if r.violated != "" || !r.ok {
		must(fmt.Errorf("the specification itself fails in %s:\n%s", module, r.violated+"\n"+tail(r.output, 60)))
	}
	c.add("states", r.distinct)
	c.add("transitions", r.generated)
	return prints
}

// modelFaults checks that a model, with one of its faults switched on, does not
// have its properties any more: that they say something.
func (c *check) modelFaults(module string, faults ...string) {
	c.modelFaultsOf(module, module, faults...)
}

func (c *check) modelFaultsOf(module, cfg string, faults ...string) {
	base, err := os.ReadFile(filepath.Join(specDir(), cfg+".cfg"))
	must(err)
	for _, f := range faults {
		cfg := strings.Replace(string(base), f+" = FALSE", f+" = TRUE", 1)
		if cfg == string(base) {
			must(fmt.Errorf("%s has no fault %s", module, f))
		}
		path := filepath.Join(scratch(), module+f+".cfg")
		must(os.WriteFile(path, []byte(cfg), 0644))
		r, err := runTLC(module+".tla", path, nil, 14*time.Minute, runtime.NumCPU(), nil)
		must(err)
		if r.violated == "" {
			must(fmt.Errorf("%s with %s still has its properties", module, f))
		}
		c.add("model_faults_detected", 1)
	}
}

type mismatch struct {
	id, what string
	step     int
}

// validate runs the trace specification on recorded traces, as many at a time
// as TLC has the memory for.
func (c *check) validate(module, cfg string, traces []json.RawMessage) []mismatch {
	var mm []mismatch
	for len(traces) > 0 {
		n := 0
		for size := 0; n < len(traces) && (n == 0 || size+len(traces[n]) <= 48<<20); n++ {
			size += len(traces[n])
		}
		mm = append(mm, c.validatePart(module, cfg, traces[:n])...)
		traces = traces[n:]
	}
	return mm
}

// validatePart runs the trace specification on traces, one line each.
func (c *check) validatePart(module, cfg string, traces []json.RawMessage) []mismatch {
	path := filepath.Join(scratch(), "trace.ndjson")
	f, err := os.Create(path)
	must(err)
	w := bufio.NewWriter(f)
	want := 0
	for _, t := range traces {
		w.Write(t)
		w.WriteByte('\n')
		var x struct {
			Ev []json.RawMessage `json:"ev"`
		}
		must(json.Unmarshal(t, &x))
		want += len(x.Ev) + 1
	}
	must(w.Flush())
	must(f.Close())
	if os.Getenv("VH_KEEP") == "" {
		defer os.Remove(path)
	} else {
		os.Rename(path, "/tmp/trace.ndjson")
		path = "/tmp/trace.ndjson"
	}
	var mm []mismatch
	r, err := runTLC(module, cfg, []string{"TRACE=" + path}, 14*time.Minute, runtime.NumCPU(), func(s string) {
		var m struct {
			Mismatch string          `json:"mismatch"`
			Step     int             `json:"step"`
			What     string          `json:"what"`
			Spec     json.RawMessage `json:"spec"`
		}
		if json.Unmarshal([]byte(s), &m) == nil && m.Mismatch != "" {
			mm = append(mm, mismatch{m.Mismatch, fmt.Sprintf("%s, event %d: %s; specification: %s", m.Mismatch, m.Step, m.What, m.Spec), m.Step})
		}
	})
	if err != nil && r != nil {
		// a step the specification cannot take at all: it takes something from an
		// empty sequence, say
		if m, ok := noSuchStep(r.output, traces); ok {
			return append(mm, m)
		}
	}
	must(err)
	if r.violated != "" {
		must(fmt.Errorf("trace specification: %s", tail(r.output, 30)))
	}
	if !r.ok {
		must(fmt.Errorf("TLC did not finish:\n%s", tail(r.output, 40)))
	}
	if len(mm) == 0 && r.distinct != want {
		must(fmt.Errorf("the traces have %d states, TLC found %d", want, r.distinct))
	}
	c.add("states", r.distinct)
	c.add("transitions", r.generated)
	c.add("traces_validated_against_impl", len(traces)-len(mm))
	c.add("steps_validated", r.distinct-len(traces))
	return mm
}

var reStateVar = regexp.MustCompile(`(?m)^/\\ (r|l) = (\d+)$`)

// noSuchStep is the step at which TLC could not evaluate the specification
func noSuchStep(out string, traces []json.RawMessage) (mismatch, bool) {
	i := strings.Index(out, "Error: The behavior up to this point is:")
	if i < 0 {
		return mismatch{}, false
	}
	at := map[string]int{}
	for _, m := range reStateVar.FindAllStringSubmatch(out[i:], -1) {
		at[m[1]], _ = strconv.Atoi(m[2])
	}
	if at["r"] < 1 || at["r"] > len(traces) {
		return mismatch{}, false
	}
	var x struct {
		ID string `json:"id"`
	}
	if json.Unmarshal(traces[at["r"]-1], &x) != nil || x.ID == "" {
		return mismatch{}, false
	}
	step := at["l"] + 1
	return mismatch{x.ID, fmt.Sprintf("%s, event %d: the specification has no such step: %s", x.ID, step, firstLines(fromError(out), 6)), step}, true
}

// eventsAround are the last events of a trace up to the one that does not fit
func eventsAround(tr json.RawMessage, step int) []json.RawMessage {
	var x struct {
		Ev []json.RawMessage `json:"ev"`
	}
	json.Unmarshal(tr, &x)
	a, b := step-4, step
	if a < 0 {
		a = 0
	}
	if b > len(x.Ev) {
		b = len(x.Ev)
	}
	return x.Ev[a:b]
}
