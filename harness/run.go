package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chzyer/readline"
)

type obj = map[string]interface{}

// Trace is what Trace.tla reads.
type Trace struct {
	ID   string           `json:"id"`
	Cfgs []obj            `json:"cfgs"`
	Inp  []int            `json:"inp"`
	Disk map[string][]int `json:"disk"`
	Ev   []obj            `json:"ev"`
	Note string           `json:"note"`
	Abov []int            `json:"above"` // on the screen before
}

// stdin delivers the chunks of a scenario, one per Read.
type stdin struct {
	mu     sync.Mutex
	chunks []string
	eof    bool
	closed chan struct{}
	once   sync.Once
	reads  int32
}

func newStdin(chunks []string, eof bool) *stdin {
	return &stdin{chunks: append([]string{}, chunks...), eof: eof, closed: make(chan struct{})}
}

func (s *stdin) Read(p []byte) (int, error) {
	atomic.AddInt32(&s.reads, 1)
	s.mu.Lock()
	select {
	case <-s.closed:
		s.mu.Unlock()
		return 0, io.EOF
	default:
	}
	for len(s.chunks) > 0 {
		n := copy(p, s.chunks[0])
		s.chunks[0] = s.chunks[0][n:]
		if s.chunks[0] == "" {
			s.chunks = s.chunks[1:]
		}
		if n > 0 {
			s.mu.Unlock()
			return n, nil
		}
	}
	s.mu.Unlock()
	if s.eof {
		return 0, io.EOF
	}
	<-s.closed
	return 0, io.EOF
}

func (s *stdin) Close() error {
	s.once.Do(func() { close(s.closed) })
	return nil
}

// unread counts the characters that were not delivered
func (s *stdin) unread() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len([]rune(strings.Join(s.chunks, "")))
}

type snap struct {
	what string
	was  []int
	is   []rune
}

// runner runs one scenario.
type runner struct {
	sc  *Scenario
	dir string
	tr  *Trace

	mu        sync.Mutex
	cur       obj // the event observations belong to
	keys      int
	ci        int
	shared    int
	snapLists []snapList
	snaps     []snap

	width   int32
	onWidth func()
	in      *stdin
	out     *output
	cfgs    []*readline.Config
	rl      *readline.Instance

	compN, lisN map[int]int
	late        []Step
	captures    int32 // functions that want to know about signals
	captured    int32 // how often they were called
	progress    int64

	raceWG  *sync.WaitGroup
	raced   bool
	racing  bool // raw is recorded
	raceBad int32
	raw     []byte
}

func (r *runner) path(label string) string {
	if label == "" {
		return ""
	}
	return filepath.Join(r.dir, label)
}

func (r *runner) event(e obj) obj {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.eventLocked(e)
}

func noPaint() obj { return obj{"on": false, "line": []int{}, "pos": 0} }

func (r *runner) eventLocked(e obj) obj {
	switch e["e"] {
	case "key", "call", "ret", "api":
		e["comp"] = []obj{}
		e["lis"] = []obj{}
		e["p"] = noPaint()
		if r.sc.Screen {
			e["out"] = [][]int{}
		}
		r.cur = e
	}
	r.tr.Ev = append(r.tr.Ev, e)
	atomic.AddInt64(&r.progress, 1)
	return e
}

type completer struct {
	r  *runner
	ci int
}

func (c completer) Do(line []rune, pos int) ([][]rune, int) {
	r := c.r
	cfg := r.sc.Cfgs[c.ci]
	if cfg.Comp == "fix" {
		var out [][]rune
		for _, s := range cfg.Cands {
			out = append(out, runesOf(s))
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.snapAll("candidate", out)
		return out, cfg.Off
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	var cands [][]rune
	off := 0
	if len(cfg.Script) > 0 {
		a := cfg.Script[r.compN[c.ci]%len(cfg.Script)]
		for _, s := range a.Cands {
			cands = append(cands, runesOf(s))
		}
		off = a.Off
	} else {
		b := pos
		for b > 0 && line[b-1] != ' ' {
			b--
		}
		last := string(line[b:pos])
		off = pos - b
		for _, w := range cfg.Words {
			if strings.HasPrefix(w, last) {
				cands = append(cands, []rune(w)[off:])
			}
		}
	}
	if off > pos {
		off = pos
	}
	r.compN[c.ci]++
	r.snapAll("candidate", cands)
	cl := make([][]int, len(cands))
	for i, s := range cands {
		cl[i] = ints(s)
	}
	r.cur["comp"] = append(r.cur["comp"].([]obj), obj{"line": ints(line), "pos": pos, "cands": cl, "off": off})
	r.snaps = append(r.snaps, snap{"line given to the completer", ints(line), line})
	return cands, off
}

func (r *runner) snapAll(what string, rs [][]rune) {
	if len(r.snaps) > 400 {
		return
	}
	for _, s := range rs {
		full := s[:cap(s)]
		r.snaps = append(r.snaps, snap{what, ints(full), full})
	}
	if len(rs) > 0 {
		// also the slice of candidates itself: its elements in order
		var flat []rune
		for _, s := range rs {
			flat = append(flat, s...)
			flat = append(flat, -1)
		}
		r.snapLists = append(r.snapLists, snapList{what, ints(flat), rs})
	}
}

type painter struct {
	r     *runner
	upper bool
}

func (p painter) Paint(line []rune, pos int) []rune {
	r := p.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cur != nil {
		r.cur["p"] = obj{"on": true, "line": ints(line), "pos": pos}
	}
	if len(r.snaps) < 300 {
		r.snaps = append(r.snaps, snap{"line given to the painter", ints(line), line})
	}
	if p.upper {
		out := make([]rune, len(line))
		for i, c := range line {
			if c >= 'a' && c <= 'z' {
				c -= 32
			}
			out[i] = c
		}
		return out
	}
	return line
}

type listener func([]rune, int, rune) ([]rune, int, bool)

func (f listener) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	return f(line, pos, key)
}

func (r *runner) listen(ci int) func([]rune, int, rune) ([]rune, int, bool) {
	return func(line []rune, pos int, key rune) ([]rune, int, bool) {
		r.mu.Lock()
		defer r.mu.Unlock()
		e := obj{"line": ints(line), "pos": pos, "key": int(key), "ok": false, "nline": []int{}, "npos": 0}
		r.cur["lis"] = append(r.cur["lis"].([]obj), e)
		if line != nil {
			r.snaps = append(r.snaps, snap{"line given to the listener", ints(line), line})
		}
		script := r.sc.Cfgs[ci].LisScript
		if len(script) == 0 {
			return nil, 0, false
		}
		a := script[r.lisN[ci]%len(script)]
		r.lisN[ci]++
		if !a.OK {
			return nil, 0, false
		}
		var nl []rune
		np := a.Pos
		switch a.Kind {
		case "upper":
			nl = []rune(strings.ToUpper(string(line)))
			np = pos
			if np > len(nl) {
				np = len(nl)
			}
		case "append":
			nl = append(append([]rune{}, line...), runesOf(a.Line)...)
			np = len(nl)
		case "same": // the slice it was given
			nl = line
			np = 0
		default:
			nl = runesOf(a.Line)
		}
		e["ok"] = true
		e["nline"] = ints(nl)
		e["npos"] = np
		full := nl[:cap(nl)]
		r.snaps = append(r.snaps, snap{"line answered by the listener", ints(full), full})
		return nl, np, true
	}
}

func (r *runner) filter(ci int) func(rune) (rune, bool) {
	return func(k rune) (rune, bool) {
		r.mu.Lock()
		n := r.keys
		r.keys++
		e := r.eventLocked(obj{"e": "key", "k": int(k), "pre": []obj{}, "q": false, "mode": []bool{}})
		if r.sc.Race == nil && r.sc.Std == "" {
			e["mode"] = []bool{r.rl.Operation.IsNormalMode(), r.rl.Operation.IsSearchMode(), r.rl.Operation.IsInCompleteMode()}
		}
		if r.sc.Susp {
			e["raw"] = isRaw()
		}
		r.mu.Unlock()
		if r.sc.Race != nil {
			r.raceKey(e, n, k)
		}
		if k == exitKey && r.sc.Susp {
			r.late = append(r.late, Step{F: "exitsig"})
		}
		if r.sc.Late && pausing(k) { // after a key that does not end the line
			r.late = append(r.late, r.sc.Inj[n]...)
			n = -1
		}
		for _, s := range append(r.late, r.sc.Inj[n]...) {
			a := r.api(s)
			r.mu.Lock()
			e["pre"] = append(e["pre"].([]obj), a)
			r.mu.Unlock()
		}
		if n >= 0 {
			r.late = nil
		}
		for _, f := range r.sc.Cfgs[ci].Filt {
			if f[0] == int(k) {
				return rune(f[1]), f[2] == 1
			}
		}
		return k, true
	}
}

// raceKey starts the writers at their key and waits for them at the last one
func (r *runner) raceKey(e obj, n int, k rune) {
	rc := r.sc.Race
	apart := k == 12 || pausing(k)
	if n >= rc.At && r.raceWG == nil && !r.raced && !apart {
		r.raced = true
		r.raceWG = &sync.WaitGroup{}
		r.mu.Lock()
		r.raw = nil
		r.racing = true
		r.mu.Unlock()
		for i, ts := range rc.Texts {
			r.raceWG.Add(1)
			go func(i int, ts []string) {
				defer r.raceWG.Done()
				w := []io.Writer{r.rl, r.rl.Stdout(), r.rl.Stderr()}[i%3]
				for _, t := range ts {
					m, err := w.Write([]byte(t))
					if m != len(t) || err != nil {
						atomic.AddInt32(&r.raceBad, 1)
					}
					time.Sleep(time.Duration((i*37+len(t)*11)%90) * time.Microsecond)
				}
			}(i, ts)
		}
	}
	if r.raceWG == nil {
		return
	}
	if n < rc.At+rc.Len && !apart {
		r.mu.Lock()
		e["q"] = true
		r.mu.Unlock()
		time.Sleep(time.Duration(20+n*13%70) * time.Microsecond)
		return
	}
	r.raceWG.Wait()
	r.raceWG = nil
	r.mu.Lock()
	defer r.mu.Unlock()
	r.racing = false
	// in what order they appeared
	type at struct{ pos, w, i int }
	var all []at
	raw := string(r.raw)
	for w, ts := range rc.Texts {
		for i, t := range ts {
			for p, from := 0, 0; ; from = p + 1 {
				if p = strings.Index(raw[from:], t); p < 0 {
					break
				}
				p += from
				all = append(all, at{p, w + 1, i + 1})
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].pos < all[j].pos })
	seq, text, cnt := [][]int{}, []int{}, []int{}
	for _, a := range all {
		seq = append(seq, []int{a.w, a.i})
		text = append(text, str(rc.Texts[a.w-1][a.i-1])...)
	}
	for _, ts := range rc.Texts {
		cnt = append(cnt, len(ts))
	}
	e["pre"] = append(e["pre"].([]obj), obj{"f": "race", "t": text, "seq": seq, "cnt": cnt, "n": int(atomic.LoadInt32(&r.raceBad))})
}

// config builds the Config of description ci
func (r *runner) config(ci int) *readline.Config {
	d := r.sc.Cfgs[ci]
	c := &readline.Config{}
	if d.Mask && d.Limit == -1 && r.rl != nil {
		c = r.rl.GenPasswordConfig()
	} else {
		c.EnableMask = d.Mask
		c.HistoryLimit = d.Limit
	}
	c.Prompt = stringOf(d.Prompt)
	c.HistoryFile = r.path(d.Path)
	c.DisableAutoSaveHistory = !d.Auto
	c.HistorySearchFold = d.Fold
	c.VimMode = d.Vim
	c.MaskRune = rune(d.Mrune)
	c.UniqueEditLine = d.Unique
	c.InterruptPrompt = d.IntP
	c.EOFPrompt = d.EofP
	c.Stdin = r.in
	c.Stdout = r.out
	c.Stderr = r.out
	c.FuncIsTerminal = func() bool { return true }
	c.ForceUseInteractive = true
	c.FuncMakeRaw = func() error { return nil }
	c.FuncExitRaw = func() error { return nil }
	if r.sc.Susp {
		c.FuncMakeRaw, c.FuncExitRaw = r.makeRaw, r.exitRaw
	}
	early := d.Early
	c.FuncGetWidth = func() int {
		if early != 0 {
			return early
		}
		return int(atomic.LoadInt32(&r.width))
	}
	c.FuncOnWidthChanged = func(f func()) {
		early = 0
		if r.onWidth == nil {
			r.onWidth = f
		}
	}
	switch d.Comp {
	case "fix", "log":
		c.AutoComplete = completer{r, ci}
	}
	if d.Lis == "log" {
		c.SetListener(r.listen(ci))
	}
	switch d.Paint {
	case "log":
		c.Painter = painter{r, false}
	case "upper":
		c.SetPainter(painter{r, true}) // as the field, by way of the method
	}
	if d.Mark || len(d.Filt) > 0 {
		c.FuncFilterInputRune = r.filter(ci)
	}
	return c
}

func (r *runner) open(ci int) error {
	r.rl = nil
	r.onWidth = nil
	r.cfgs = make([]*readline.Config, len(r.sc.Cfgs))
	atomic.StoreInt32(&r.width, int32(r.sc.Cfgs[ci].Width))
	r.cfgs[ci] = r.config(ci)
	rl, err := readline.NewEx(r.cfgs[ci])
	r.rl = rl
	return err
}

func (r *runner) cfg(ci int) *readline.Config {
	if r.cfgs[ci] == nil {
		r.cfgs[ci] = r.config(ci)
	}
	return r.cfgs[ci]
}

func pausing(k rune) bool { return k == 3 || k == 4 || k == 10 || k == 13 }

func isErr(err error) bool { return err != nil }

// api does what step s says and returns the event
func (r *runner) api(s Step) obj {
	e := obj{"f": s.F, "t": s.T, "b": s.B, "n": s.N, "ci": s.CI, "path": s.Path, "err": false, "u": 0, "want": 0}
	if s.T == nil {
		e["t"] = []int{}
	}
	if r.sc.Std != "" && !r.sc.New {
		r.stdAPI(s, e)
		return e
	}
	switch s.F {
	case "save":
		e["err"] = isErr(r.rl.SaveHistory(stringOf(s.T)))
	case "reset":
		r.rl.ResetHistory()
	case "enable":
		if s.B {
			r.rl.HistoryEnable()
		} else {
			r.rl.HistoryDisable()
		}
	case "path":
		r.rl.SetHistoryPath(r.path(s.Path))
	case "prompt":
		r.rl.SetPrompt(stringOf(s.T))
	case "mask":
		r.rl.SetMaskRune(rune(s.N))
	case "vim":
		r.rl.SetVimMode(s.B)
	case "isvim":
		e["b"] = r.rl.IsVimMode()
	case "setcfg":
		r.rl.SetConfig(r.cfg(s.CI - 1))
	case "write":
		b := []byte(stringOf(s.T))
		var w io.Writer = r.rl
		if s.N == 1 {
			w = r.rl.Stdout()
		} else if s.N == 2 {
			w = r.rl.Stderr()
		}
		n, err := w.Write(b)
		e["n"] = n
		e["want"] = len(b)
		e["err"] = isErr(err)
	case "stdin":
		e["u"] = r.in.unread()
		n, err := r.rl.WriteStdin([]byte(stringOf(s.T)))
		e["n"] = n
		e["err"] = isErr(err)
	case "width":
		if r.sc.Std != "" {
			resize(r, s.N)
			break
		}
		atomic.StoreInt32(&r.width, int32(s.N))
		if r.onWidth != nil {
			r.onWidth()
		}
	case "refresh":
		r.rl.Refresh()
	case "capture":
		r.rl.CaptureExitSignal()
	case "exitsig":
		syscall.Kill(os.Getpid(), []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[len(r.sc.ID)%2])
	case "capturef":
		r.captures++
		readline.CaptureExitSignal(func() { atomic.AddInt32(&r.captured, 1) })
	case "signal": // the functions are called, each time
		was := atomic.LoadInt32(&r.captured)
		syscall.Kill(os.Getpid(), []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[s.N])
		for i := 0; i < 500 && atomic.LoadInt32(&r.captured)-was < r.captures; i++ {
			time.Sleep(time.Duration(i/50) * time.Millisecond)
		}
		e["n"], e["want"] = atomic.LoadInt32(&r.captured)-was, r.captures
	case "clean":
		r.rl.Clean()
	case "raw": // to the terminal, not by the instance
		r.out.Write([]byte(stringOf(s.T)))
	case "title":
		r.rl.Operation.SetTitle(stringOf(s.T))
	case "setbuf":
		r.rl.Operation.SetBuffer(stringOf(s.T))
	case "nop":
	default:
		panic("harness: unknown step " + s.F)
	}
	return e
}

func (r *runner) call(s Step) {
	var t []rune
	var err error
	e := obj{"e": "call", "f": s.F, "t": s.T, "ci": s.CI}
	if s.T == nil {
		e["t"] = []int{}
	}
	blind := !r.sc.Cfgs[r.ci].Mark
	switch s.F {
	case "password", "passcfg", "passex":
		blind = !r.sc.Cfgs[s.CI-1].Mark
	}
	e["blind"] = blind
	name := s.F
	switch s.F {
	case "slice", "line", "runes":
		e["f"] = "readline"
	case "passex":
		e["f"] = "password"
	}
	var cfg *readline.Config
	if s.F == "passcfg" {
		cfg = r.cfgs[s.CI-1]
		if cfg == nil || !r.sc.Cfgs[s.CI-1].Keep {
			cfg = r.config(s.CI - 1)
			r.cfgs[s.CI-1] = cfg
			e["f"] = "password"
		}
	}
	if r.sc.Std != "" && !r.sc.New {
		name = "std " + name
		if s.F == "readline" {
			e["f"] = "std"
		}
	}
	r.event(e)
	var line string
	can := []bool{}
	switch name {
	case "std readline":
		line, err = readline.Line(stringOf(s.T))
	case "std password":
		var b []byte
		b, err = readline.Password(stringOf(r.sc.Cfgs[s.CI-1].Prompt))
		line = string(b)
		name = "password"
	case "readline":
		line, err = r.rl.Readline()
	case "line":
		res := r.rl.Line()
		line, err = res.Line, res.Error
		can = []bool{res.CanContinue(), res.CanBreak()}
	case "runes":
		var rs []rune
		rs, err = r.rl.Operation.Runes()
		line = string(rs)
		if err == nil {
			r.mu.Lock()
			r.snaps = append(r.snaps, snap{"line that was returned", ints(rs), rs})
			r.mu.Unlock()
		}
	case "slice":
		var b []byte
		b, err = r.rl.ReadSlice()
		line = string(b)
	case "default":
		line, err = r.rl.ReadlineWithDefault(stringOf(s.T))
	case "password":
		var b []byte
		b, err = r.rl.ReadPassword(stringOf(r.sc.Cfgs[s.CI-1].Prompt))
		line = string(b)
	case "passex":
		var b []byte
		b, err = r.rl.ReadPasswordEx(stringOf(r.sc.Cfgs[s.CI-1].Prompt), listener(r.listen(s.CI-1)))
		line = string(b)
	case "passcfg":
		var b []byte
		b, err = r.rl.ReadPasswordWithConfig(cfg)
		line = string(b)
	}
	t = []rune(line)
	k := "line"
	switch err {
	case nil:
	case io.EOF:
		k = "eof"
	case readline.ErrInterrupt:
		k = "int"
	default:
		k = "err"
	}
	// what the last key did is in the events before; at the end of the input there is none
	r.mu.Lock()
	ret := obj{"e": "ret", "k": k, "t": ints(t), "blind": blind, "ispw": name == "password" || name == "passcfg" || name == "passex" || name == "slice", "can": can}
	ret["comp"] = []obj{}
	ret["lis"] = []obj{}
	ret["p"] = noPaint()
	if r.sc.Screen {
		ret["out"] = [][]int{}
	}
	r.cur = ret
	r.tr.Ev = append(r.tr.Ev, ret)
	r.mu.Unlock()
	atomic.AddInt64(&r.progress, 1)
}

func (r *runner) files() {
	if len(r.sc.Disk) == 0 {
		return
	}
	var labels []string
	for l := range r.sc.Disk {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	if es, err := os.ReadDir(r.dir); err == nil {
		for _, e := range es {
			if _, ok := r.sc.Disk[e.Name()]; !ok {
				labels = append(labels, e.Name())
			}
		}
	}
	for _, l := range labels {
		b, err := os.ReadFile(r.path(l))
		if strings.Contains(l, "/") && err != nil {
			continue
		}
		r.event(obj{"e": "file", "path": l, "data": str(string(b))})
	}
}

func (r *runner) run() {
	sc := r.sc
	if sc.Std != "" {
		readline.Stdin, readline.Stdout, readline.Stderr = r.in, r.out, r.out
		r.cfgs = make([]*readline.Config, len(sc.Cfgs))
		if sc.New {
			rl, err := readline.New(stringOf(sc.Cfgs[0].Prompt))
			if err != nil {
				r.tr.Note = "New: " + err.Error()
				return
			}
			r.rl, r.cfgs[0] = rl, rl.Config
			tellWidth(rl.Config)
		}
	} else if err := r.open(0); err != nil {
		r.tr.Note = "NewEx: " + err.Error()
		return
	}
	r.event(obj{"e": "new"})
	r.files()
	for _, s := range sc.Steps {
		switch s.F {
		case "readline", "line", "runes", "slice", "default", "password", "passcfg", "passex":
			r.call(s)
			r.files()
		case "restart":
			r.rl.Close()
			r.in = newStdin(s.Chunks, s.EOF)
			if err := r.open(s.CI - 1); err != nil {
				r.tr.Note = "NewEx: " + err.Error()
				return
			}
			r.ci = s.CI - 1
			r.event(obj{"e": "restart", "ci": s.CI, "inp": str(strings.Join(s.Chunks, ""))})
			r.files()
		case "disk": // somebody else writes the file
			os.WriteFile(r.path(s.Path), []byte(stringOf(s.T)), 0644)
			r.event(obj{"e": "disk", "path": s.Path, "t": s.T})
		default:
			e := r.event(obj{"e": "api"})
			a := r.api(s)
			r.mu.Lock()
			for k, v := range a {
				e[k] = v
			}
			r.mu.Unlock()
			if s.F == "setcfg" {
				r.ci = s.CI - 1
			}
			switch s.F {
			case "save", "path", "reset", "setcfg":
				r.files()
			}
		}
	}
	if sc.Std == "" || sc.New {
		r.rl.Close()
	}
	r.files()
	r.mu.Lock()
	for _, s := range r.snaps {
		if !sameInts(s.was, s.is) {
			r.tr.Ev = append(r.tr.Ev, obj{"e": "shared", "what": s.what, "was": s.was, "is": ints(s.is)})
		} else {
			r.shared++
		}
	}
	for _, s := range r.snapLists {
		var flat []rune
		for _, x := range s.is {
			flat = append(flat, x...)
			flat = append(flat, -1)
		}
		if !sameInts(s.was, flat) {
			r.tr.Ev = append(r.tr.Ev, obj{"e": "shared", "what": s.what, "was": s.was, "is": ints(flat)})
		} else {
			r.shared++
		}
	}
	if r.shared > 0 {
		r.tr.Ev = append(r.tr.Ev, obj{"e": "shared", "what": "all others", "was": []int{r.shared}, "is": []int{r.shared}})
	}
	r.mu.Unlock()
}

func sameInts(a []int, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != int(b[i]) {
			return false
		}
	}
	return true
}

// specCfgs are the configurations as the specification has them
func specCfgs(cs []*Cfg) []obj {
	var r []obj
	for _, c := range cs {
		cands, filt := c.Cands, c.Filt
		if cands == nil {
			cands = [][]int{}
		}
		if filt == nil {
			filt = [][]int{}
		}
		r = append(r, obj{"vim": c.Vim, "auto": c.Auto, "fold": c.Fold, "limit": c.Limit, "path": c.Path,
			"width": c.Width, "mask": c.Mask, "mrune": c.Mrune, "unique": c.Unique, "comp": c.Comp,
			"cands": cands, "off": c.Off, "lis": c.Lis, "filt": filt, "prompt": c.Prompt, "paint": c.Paint,
			"intp": str(c.IntP), "eofp": str(c.EofP)})
	}
	return r
}

type snapList struct {
	what string
	was  []int
	is   [][]rune
}

// runScenario runs sc in a scratch directory; ok is false if it hangs.
func runScenario(sc *Scenario, limit time.Duration) (tr *Trace, ok bool) {
	dir := ""
	if len(sc.Disk) > 0 {
		var err error
		dir, err = os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for l, s := range sc.Disk {
			if s != "" && !strings.Contains(l, "/") {
				if err := os.WriteFile(filepath.Join(dir, l), []byte(s), 0644); err != nil {
					panic(err)
				}
			}
		}
	}
	tr = &Trace{ID: sc.ID, Cfgs: specCfgs(sc.Cfgs), Inp: str(strings.Join(sc.Chunks, "")), Disk: map[string][]int{}, Ev: []obj{}, Abov: str(sc.Above)}
	for l, s := range sc.Disk {
		tr.Disk[l] = str(s)
		if strings.Contains(l, "/") { // in a directory that is not there
			tr.Disk[l] = []int{-1}
		}
	}
	r := &runner{sc: sc, dir: dir, tr: tr, compN: map[int]int{}, lisN: map[int]int{}}
	r.in = newStdin(sc.Chunks, sc.EOF)
	r.out = &output{r: r}
	done := make(chan struct{})
	go func() {
		r.run()
		close(done)
	}()
	return tr, watch(done, limit, func() int64 { return atomic.LoadInt64(&r.progress) })
}

// output is the terminal
type output struct {
	r   *runner
	esc []byte
}

func (o *output) Write(b []byte) (int, error) {
	if !o.r.sc.Screen {
		return len(b), nil
	}
	r := o.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cur == nil {
		return len(b), nil
	}
	if r.racing {
		r.raw = append(r.raw, b...)
	}
	toks, rest := tokens(append(o.esc, b...))
	o.esc = append([]byte{}, rest...)
	r.cur["out"] = append(r.cur["out"].([][]int), toks...)
	return len(b), nil
}

func (o *output) Close() error { return nil }

// tokens splits output: {0 c} a character, {1..6 n} cursor up, down, right, left,
// erase below (J), erase in line (K), {8 1} what follows stands out, {8 0} not any more,
// {9 b} something else
func tokens(b []byte) (toks [][]int, rest []byte) {
	for len(b) > 0 {
		if b[0] == 27 {
			if len(b) < 2 {
				return toks, b
			}
			if b[1] == ']' { // a title
				i := bytes.IndexByte(b, 7)
				if i < 0 {
					return toks, b
				}
				t := string(b[2:i])
				b = b[i+1:]
				if !strings.HasPrefix(t, "2;") && !strings.HasPrefix(t, "0;") {
					toks = append(toks, []int{9, ']'})
					continue
				}
				toks = append(toks, []int{11, 0})
				for _, c := range t[2:] {
					toks = append(toks, []int{10, int(c)})
				}
				continue
			}
			if b[1] != '[' {
				toks = append(toks, []int{9, int(b[1])})
				b = b[2:]
				continue
			}
			i := 2
			for i < len(b) && (b[i] >= '0' && b[i] <= '9' || b[i] == ';' || b[i] == '?') {
				i++
			}
			if i == len(b) {
				return toks, b
			}
			n := -1
			fmt.Sscanf(string(b[2:i]), "%d", &n)
			switch b[i] {
			case 'A', 'B', 'C', 'D':
				if n < 1 {
					n = 1 // 0 and no number mean 1
				}
				toks = append(toks, []int{1 + int(b[i]-'A'), n})
			case 'J':
				if n < 0 {
					n = 0
				}
				toks = append(toks, []int{5, n})
			case 'K':
				if n < 0 {
					n = 0
				}
				toks = append(toks, []int{6, n})
			case 'm':
				hl := 0
				for _, x := range strings.Split(string(b[2:i]), ";") {
					if x == "47" || x == "7" {
						hl = 1
					}
				}
				toks = append(toks, []int{8, hl})
			case 'H':
				toks = append(toks, []int{7, 0})
			default:
				toks = append(toks, []int{9, int(b[i])})
			}
			b = b[i+1:]
			continue
		}
		if b[0] >= 0x80 && !fullRune(b) {
			return toks, b
		}
		c, n := decodeRune(b)
		toks = append(toks, []int{0, int(c)})
		b = b[n:]
	}
	return toks, nil
}
