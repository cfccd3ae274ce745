package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/chzyer/readline"
)

// A session runs the editor with all its goroutines; whatever can be seen of them
// is recorded in the order it happens.  Callbacks are the places where the
// schedule can be held, delayed and where Close is called.
type sessTask struct {
	Cfgs   []*Cfg            `json:"cfgs"`
	Disk   map[string]string `json:"disk"`
	Steps  []Step            `json:"steps"`
	Chunks Chunks            `json:"chunks"` // eintr: no data but that error
	End    string            `json:"end"`    // after them: eof, err, data (with the last chunk), block, more (EOF, then again input)
	Seed   int64             `json:"seed"`
	Jitter int               `json:"jitter"` // how much the schedule is disturbed
	Procs  int               `json:"procs"`
	Gate   int               `json:"gate"` // the callback at which Close is called, -1: none
	How    string            `json:"how"`  // hold: until Close cannot go on; spawn; inline
	N      int               `json:"n"`    // Close is called that often at the same time
	TTY    bool              `json:"tty"`  // with a terminal
	Mid    int               `json:"mid"`  // SetConfig of it when the first call began
	Filter bool              `json:"filter"`
}

const eintr = "\x00eintr"

type session struct {
	st  *sessTask
	dir string
	mu  sync.Mutex
	ev  []obj

	gates    int64
	closing  int32
	closers  sync.WaitGroup
	progress int64
	rl       *readline.Instance
	in       *sessIn
	cfgs     []*readline.Config
	rnd      *rand.Rand
	rndMu    sync.Mutex
	mid      int32

	over    bool
	tty     *pty
	ttyRaw  bool
	ttyOrig syscall.Termios
}

func (s *session) log(e obj) {
	s.mu.Lock()
	s.logLocked(e)
	s.mu.Unlock()
}

func (s *session) logLocked(e obj) {
	if s.over {
		return
	}
	if s.tty != nil {
		s.sample()
	}
	s.ev = append(s.ev, e)
	atomic.AddInt64(&s.progress, 1)
}

// sample records a change of the mode of the terminal
func (s *session) sample() {
	t := s.tty.get()
	raw := t.Lflag&(syscall.ICANON|syscall.ECHO|syscall.ISIG) == 0
	if raw == s.ttyRaw && (raw || t == s.ttyOrig) {
		return
	}
	if !raw && t != s.ttyOrig {
		s.ev = append(s.ev, obj{"e": "rawbad"})
		return
	}
	s.ttyRaw = raw
	s.ev = append(s.ev, obj{"e": "raw", "who": 0, "on": raw})
}

func (s *session) intn(n int) int {
	s.rndMu.Lock()
	defer s.rndMu.Unlock()
	return s.rnd.Intn(n)
}

// gate is passed in every callback
func (s *session) gate(kind string) {
	n := int(atomic.AddInt64(&s.gates, 1)) - 1
	if s.st.Jitter > 0 {
		switch k := s.intn(8); {
		case k < 3:
			for i := s.intn(20); i >= 0; i-- {
				runtime.Gosched()
			}
		case k == 3 && s.st.Jitter > 1:
			time.Sleep(time.Duration(s.intn(120)) * time.Microsecond)
		}
	}
	if n == s.st.Gate {
		s.close(s.st.How, kind)
	}
}

func (s *session) close1() {
	s.log(obj{"e": "cb"})
	s.rl.Close()
	s.log(obj{"e": "ce"})
}

func (s *session) close(how, kind string) {
	if s.rl == nil || !atomic.CompareAndSwapInt32(&s.closing, 0, 1) {
		return
	}
	if how == "inline" {
		switch kind {
		case "listener", "filter", "main", "complete":
			s.close1()
			return
		}
	}
	var n int32
	for i := 0; i < s.st.N; i++ {
		s.closers.Add(1)
		go func() {
			defer s.closers.Done()
			s.close1()
			atomic.AddInt32(&n, 1)
		}()
	}
	if how == "hold" {
		for i := 0; i < 30 && int(atomic.LoadInt32(&n)) < s.st.N; i++ {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

// sessIn is the Stdin
type sessIn struct {
	s      *session
	chunks []string
	part   []byte // of a character
	ended  bool
	closed chan struct{}
	once   sync.Once
}

func (in *sessIn) runes(b []byte) []int {
	in.part = append(in.part, b...)
	n := []int{}
	for len(in.part) > 0 && fullRune(in.part) {
		c, k := decodeRune(in.part)
		n = append(n, int(c))
		in.part = in.part[k:]
	}
	return n
}

func (in *sessIn) Read(p []byte) (n int, err error) {
	s := in.s
	s.log(obj{"e": "rs"})
	s.gate("read")
	s.mu.Lock()
	select {
	case <-in.closed:
		s.mu.Unlock()
		return 0, io.EOF
	default:
	}
	if in.ended && s.st.End == "more" {
		// a terminal can go on after the end
		n = copy(p, "zz\r")
		s.logLocked(obj{"e": "rd", "t": in.runes(p[:n])})
	} else if len(in.chunks) > 0 {
		if in.chunks[0] == eintr {
			in.chunks = in.chunks[1:]
			s.logLocked(obj{"e": "rd", "t": []int{}})
			s.mu.Unlock()
			return 0, errors.New("read: interrupted system call")
		}
		n = copy(p, in.chunks[0])
		if in.chunks[0] = in.chunks[0][n:]; in.chunks[0] == "" {
			in.chunks = in.chunks[1:]
		}
		s.logLocked(obj{"e": "rd", "t": in.runes(p[:n])})
		if len(in.chunks) == 0 && s.st.End == "data" {
			s.logLocked(obj{"e": "reof"})
			in.ended = true
			err = io.EOF
		}
	} else if s.st.End != "block" {
		s.logLocked(obj{"e": "reof"})
		in.ended = true
		err = io.EOF
		if s.st.End == "err" {
			err = errors.New("no more")
		}
	} else {
		s.mu.Unlock()
		s.close("spawn", "starved")
		<-in.closed
		return 0, io.EOF
	}
	s.mu.Unlock()
	s.gate("got")
	return n, err
}

func (in *sessIn) Close() error {
	in.once.Do(func() {
		in.s.log(obj{"e": "sc"})
		close(in.closed)
	})
	in.s.gate("stdinclose")
	return nil
}

type sessOut struct{ s *session }

func (o sessOut) Write(b []byte) (int, error) {
	o.s.gate("write")
	return len(b), nil
}

type sessPainter struct{ s *session }

func (p sessPainter) Paint(line []rune, pos int) []rune {
	p.s.gate("paint")
	return line
}

type sessCompleter struct {
	s *session
	c *Cfg
}

func (c sessCompleter) Do(line []rune, pos int) ([][]rune, int) {
	c.s.gate("complete")
	var out [][]rune
	for _, x := range c.c.Cands {
		out = append(out, runesOf(x))
	}
	return out, c.c.Off
}

func (s *session) config(ci int) *readline.Config {
	d := s.st.Cfgs[ci]
	c := &readline.Config{}
	c.Prompt = stringOf(d.Prompt)
	if d.Path != "" {
		c.HistoryFile = filepath.Join(s.dir, d.Path)
	}
	c.HistoryLimit = d.Limit
	c.DisableAutoSaveHistory = !d.Auto
	c.VimMode = d.Vim
	c.UniqueEditLine = d.Unique
	c.Stdin = s.in
	c.Stdout = sessOut{s}
	c.Stderr = sessOut{s}
	c.FuncIsTerminal = func() bool { return true }
	c.FuncGetWidth = func() int { s.gate("width"); return d.Width }
	c.FuncOnWidthChanged = func(f func()) {}
	if !s.st.TTY {
		c.FuncMakeRaw = func() error {
			s.log(obj{"e": "raw", "who": ci + 1, "on": true})
			s.gate("makeraw")
			return nil
		}
		c.FuncExitRaw = func() error {
			s.gate("exitraw")
			s.log(obj{"e": "raw", "who": ci + 1, "on": false})
			s.gate("exitedraw")
			return nil
		}
	}
	if d.Comp == "fix" {
		c.AutoComplete = sessCompleter{s, d}
	}
	c.Painter = sessPainter{s}
	c.SetListener(func(line []rune, pos int, key rune) ([]rune, int, bool) {
		if key == 0 && line == nil && s.st.Mid > 0 && atomic.CompareAndSwapInt32(&s.mid, 0, 1) {
			s.api(Step{F: "setcfg", CI: s.st.Mid})
		}
		s.gate("listener")
		return nil, 0, false
	})
	if s.st.Filter || len(d.Filt) > 0 {
		c.FuncFilterInputRune = func(k rune) (rune, bool) {
			s.gate("filter")
			for _, f := range d.Filt {
				if f[0] == int(k) {
					return rune(f[1]), f[2] == 1
				}
			}
			return k, true
		}
	}
	return c
}

func (s *session) cfg(ci int) *readline.Config {
	if s.cfgs[ci] == nil {
		s.cfgs[ci] = s.config(ci)
	}
	return s.cfgs[ci]
}

func (s *session) api(a Step) {
	e := obj{"e": "api", "f": a.F, "t": a.T, "b": a.B, "ci": a.CI}
	if a.T == nil {
		e["t"] = []int{}
	}
	if a.F == "idle" {
		return
	}
	if a.F == "ttymode" { // the program changes the mode
		if s.tty != nil {
			s.mu.Lock()
			s.ttyOrig.Lflag ^= syscall.ECHO
			s.ttyOrig.Iflag ^= syscall.IXON
			s.tty.set(&s.ttyOrig)
			s.mu.Unlock()
		}
		return
	}
	s.log(e)
	switch a.F {
	case "stdin":
		s.rl.WriteStdin([]byte(stringOf(a.T)))
	case "prompt":
		s.rl.SetPrompt(stringOf(a.T))
	case "vim":
		s.rl.SetVimMode(a.B)
	case "setcfg":
		s.rl.SetConfig(s.cfg(a.CI - 1))
	case "save":
		s.rl.SaveHistory(stringOf(a.T))
	default:
		panic("harness: unknown step " + a.F)
	}
}

func (s *session) call(a Step) {
	e := obj{"e": "call", "f": a.F, "t": a.T, "ci": a.CI}
	if a.T == nil {
		e["t"] = []int{}
	}
	if a.F == "slice" || a.F == "line" {
		e["f"] = "readline"
	}
	e["mid"] = a.F != "password" && s.st.Mid > 0 && atomic.LoadInt32(&s.mid) == 0
	s.log(e)
	var line string
	var err error
	switch a.F {
	case "readline":
		line, err = s.rl.Readline()
	case "line":
		r := s.rl.Line()
		line, err = r.Line, r.Error
	case "slice":
		var b []byte
		b, err = s.rl.ReadSlice()
		line = string(b)
	case "default":
		line, err = s.rl.ReadlineWithDefault(stringOf(a.T))
	case "password":
		var b []byte
		b, err = s.rl.ReadPassword(stringOf(s.st.Cfgs[a.CI-1].Prompt))
		line = string(b)
	}
	k := "line"
	switch err {
	case nil:
	case io.EOF:
		k = "eof"
	case readline.ErrInterrupt:
		k = "int"
	default:
		k = "err"
	}
	s.log(obj{"e": "ret", "k": k, "t": str(line), "ispw": a.F == "slice" || a.F == "password"})
}

func (s *session) run() error {
	s.in = &sessIn{s: s, chunks: append([]string{}, s.st.Chunks...), closed: make(chan struct{})}
	s.cfgs = make([]*readline.Config, len(s.st.Cfgs))
	rl, err := readline.NewEx(s.cfg(0))
	if err != nil {
		return err
	}
	s.rl = rl
	for _, a := range s.st.Steps {
		s.gate("main")
		s.log(obj{"e": "idle"})
		switch a.F {
		case "readline", "line", "slice", "default", "password":
			s.call(a)
		default:
			s.api(a)
		}
	}
	s.gate("main")
	s.close("hold", "end")
	s.closers.Wait()
	s.log(obj{"e": "idle"})
	s.call(Step{F: "readline"})
	s.close1()
	s.call(Step{F: "password", CI: len(s.st.Cfgs)})
	s.log(obj{"e": "idle"})
	var labels []string
	for l := range s.st.Disk {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	for _, l := range labels {
		b, _ := os.ReadFile(filepath.Join(s.dir, l))
		s.log(obj{"e": "file", "path": l, "data": str(string(b))})
	}
	return nil
}

func runSession(t *task) (interface{}, bool) {
	s := &session{st: &sessTask{}}
	if err := json.Unmarshal(t.Data, s.st); err != nil {
		panic(err)
	}
	s.rnd = rand.New(rand.NewSource(s.st.Seed))
	if s.st.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(s.st.Procs))
	}
	var err error
	if s.dir, err = os.MkdirTemp("", "vs"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(s.dir)
	disk := map[string][]int{}
	for l, x := range s.st.Disk {
		disk[l] = str(x)
		if x != "" {
			if err := os.WriteFile(filepath.Join(s.dir, l), []byte(x), 0644); err != nil {
				panic(err)
			}
		}
	}
	if s.st.TTY {
		if s.tty, err = openPty(); err != nil {
			panic(err)
		}
		defer s.tty.close()
		s.ttyOrig = s.tty.get()
	}
	done := make(chan struct{})
	var failed error
	go func() {
		failed = s.run()
		close(done)
	}()
	if !watch(done, time.Duration(t.Ms)*time.Millisecond, func() int64 { return atomic.LoadInt64(&s.progress) }) {
		s.mu.Lock()
		n := len(s.ev)
		if n > 12 {
			n = 12
		}
		b, _ := json.Marshal(s.ev[len(s.ev)-n:])
		fmt.Fprintf(os.Stderr, "hangs after %s\n", b)
		return nil, false
	}
	if failed != nil {
		panic(failed)
	}
	s.mu.Lock()
	s.over = true
	s.mu.Unlock()
	return obj{"id": t.ID, "cfgs": specCfgs(s.st.Cfgs), "disk": disk, "ev": s.ev, "gates": atomic.LoadInt64(&s.gates)}, true
}

// pty is a terminal, and the standard input of the process
type pty struct{ master, slave int }

func ioctl(fd int, req, arg uintptr) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, arg)
	if e != 0 {
		return e
	}
	return nil
}

func openPty() (*pty, error) {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var n, zero int32
	if err := ioctl(m, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); err != nil {
		return nil, err
	}
	if err := ioctl(m, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		return nil, err
	}
	sl, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	if err := syscall.Dup3(sl, 0, 0); err != nil {
		return nil, err
	}
	return &pty{m, sl}, nil
}

func (p *pty) get() (t syscall.Termios) {
	if err := ioctl(p.slave, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err != nil {
		panic(err)
	}
	return t
}

func (p *pty) set(t *syscall.Termios) {
	if err := ioctl(p.slave, syscall.TCSETS, uintptr(unsafe.Pointer(t))); err != nil {
		panic(err)
	}
}

func (p *pty) close() {
	if fd, err := syscall.Open("/dev/null", syscall.O_RDWR, 0); err == nil {
		syscall.Dup3(fd, 0, 0)
		syscall.Close(fd)
	}
	syscall.Close(p.slave)
	syscall.Close(p.master)
}

// -----------------------------------------------------------------------------

// conformSessions runs sessions; those with Gate -2 are run with Close called at
// every callback there is, or at some
func (c *check) conformSessions(ids []string, ss []*sessTask, sweep int) {
	var tasks []*task
	byID := map[string]interface{}{}
	add := func(id string, s *sessTask) {
		b, err := json.Marshal(s)
		must(err)
		tasks = append(tasks, &task{Kind: "sess", ID: id, Data: b, Ms: 15000})
		byID[id] = obj{"session": s}
	}
	r := rand.New(rand.NewSource(seed()*77 + 5))
	var dry []*task
	for i, s := range ss {
		if s.Gate != -2 {
			add(ids[i], s)
			continue
		}
		d := *s
		d.Gate = -1
		b, err := json.Marshal(d)
		must(err)
		dry = append(dry, &task{Kind: "sess", ID: ids[i], Data: b, Ms: 15000})
	}
	if len(dry) > 0 {
		res, err := runTasks(dry)
		must(err)
		gates := map[string]int{}
		for _, x := range res {
			if x.crash || x.hang {
				what := map[bool]string{true: "it hangs", false: "it panicked"}[x.hang]
				c.violation(what+" in "+x.t.ID+": "+firstLines(x.stderr, 2), obj{"session": x.t.Data, "stderr": x.stderr})
				continue
			}
			var g struct{ Gates int }
			must(json.Unmarshal(x.trace, &g))
			gates[x.t.ID] = g.Gates
		}
		for i, s := range ss {
			if s.Gate != -2 {
				continue
			}
			n := gates[ids[i]]
			for k := 0; k < n; k++ {
				if sweep > 0 && n > sweep && r.Intn(n) >= sweep {
					continue
				}
				d := *s
				d.Gate = k
				d.Seed += int64(k)
				d.How = []string{"hold", "inline", "spawn"}[(k+i)%3]
				d.N = 1 + (k/3)%3
				add(fmt.Sprintf("%s-%d", ids[i], k), &d)
			}
		}
	}
	c.runAndValidate("SessionTrace", tasks, byID)
	for i := 0; i < len(tasks) && i < 3; i++ {
		t := tasks[i*len(tasks)/3]
		c.sample(obj{"session": t.ID, "task": t.Data})
	}
}

func sessCfg() *Cfg {
	c := baseCfg()
	c.Mark, c.Paint = false, ""
	return c
}

var mSess = mix{{8, "a"}, {6, "b"}, {3, " "}, {2, "世"}, {1, "é"}}.with(mMove, mDel, mKill, mYank, mHist, mFind, mTab, mEnd.times(5),
	mix{{1, "\x1b"}, {1, "\x1b["}, {2, "\x1b[5;7R"}, {1, "\x00"}, {1, ctrl('G')}})

// sessionInput is some input and how many lines it has at most
func sessionInput(r *rand.Rand, m mix, n int) (string, int) {
	var b strings.Builder
	lines := 0
	for i := 0; i < n; i++ {
		s := m.pick(r)
		if pausing(rune(s[0])) {
			lines++
		}
		b.WriteString(s)
	}
	if chance(r, 2) {
		b.WriteString("\r")
		lines++
	}
	return b.String(), lines
}

func makeSession(r *rand.Rand, n int) *sessTask {
	s := &sessTask{Seed: r.Int63n(1 << 40), Gate: -1, N: 1, How: "hold", Disk: map[string]string{}, Jitter: r.Intn(3), Filter: chance(r, 3)}
	cfg := sessCfg()
	cfg.Vim = chance(r, 5)
	cfg.Unique = chance(r, 6)
	cfg.Auto = !chance(r, 6)
	if chance(r, 3) {
		cfg.Path = "h"
		s.Disk["h"] = []string{"", "one\ntwo\n"}[r.Intn(2)]
	}
	if chance(r, 4) {
		cfg.Comp = "fix"
		cfg.Cands = [][][]int{{str("xx"), str("xyz")}, {str("a"), str("b")}, {str("ab"), str("c"), str("")}}[r.Intn(3)]
	}
	if chance(r, 8) {
		cfg.Filt = [][]int{{'a', 'a', 0}}
		if chance(r, 2) {
			cfg.Filt = [][]int{{13, 13, 0}, {3, 3, 0}}
		}
	}
	if chance(r, 4) {
		s.Procs = 1 + r.Intn(3)
	}
	s.Cfgs = []*Cfg{cfg, func() *Cfg { c := sessCfg(); c.Prompt = str("two> "); c.Vim = chance(r, 3); return c }(), passwordCfg("pw: ")}
	m := mSess
	if cfg.Comp == "fix" && chance(r, 2) {
		m = m.with(mTab.times(20), mix{{3, ctrl('G')}, {3, ctrl('C')}, {4, ctrl('F')}})
	}
	in, lines := sessionInput(r, m, n)
	switch r.Intn(4) {
	case 0:
		s.Chunks = []string{in}
	case 1:
		s.Chunks = chunk1(in)
	default:
		s.Chunks = split(r, in, chance(r, 2))
	}
	if in == "" {
		s.Chunks = nil
	}
	if chance(r, 6) {
		k := r.Intn(len(s.Chunks) + 1)
		s.Chunks = append(s.Chunks[:k:k], append([]string{eintr}, s.Chunks[k:]...)...)
	}
	s.End = []string{"eof", "eof", "block", "block", "err", "data", "more"}[r.Intn(7)]
	if len(s.Chunks) > 0 && s.Chunks[len(s.Chunks)-1] == eintr && s.End == "data" {
		s.End = "eof"
	}
	if len(s.Chunks) == 0 && s.End == "data" {
		s.End = "eof"
	}
	for i := 0; i < lines+3; i++ {
		switch k := r.Intn(16); {
		case k < 8:
			s.Steps = append(s.Steps, Step{F: "readline"})
		case k < 9:
			s.Steps = append(s.Steps, Step{F: "line"})
		case k < 10:
			s.Steps = append(s.Steps, Step{F: "slice"})
		case k < 12:
			s.Steps = append(s.Steps, Step{F: "default", T: str("dflt")})
		case k < 15:
			s.Steps = append(s.Steps, Step{F: "password", CI: 3})
		default:
			s.Steps = append(s.Steps, Step{F: "readline"})
			switch r.Intn(4) {
			case 0:
				s.Chunks = s.Chunks.whole()
				s.Steps = append(s.Steps, Step{F: "stdin", T: str([]string{"pre", "p\rq", "世"}[r.Intn(3)])})
			case 1:
				s.Steps = append(s.Steps, Step{F: "prompt", T: str("new> ")})
			case 2:
				s.Steps = append(s.Steps, Step{F: "setcfg", CI: 1 + r.Intn(2)})
			case 3:
				s.Steps = append(s.Steps, Step{F: "ttymode"})
			}
		}
	}
	return s
}

// sessions makes n of them, with more done to each
func (c *check) sessions(name string, n, size int, more func(r *rand.Rand, s *sessTask)) (ids []string, ss []*sessTask) {
	r := rand.New(rand.NewSource(seed()*1000003 + int64(len(name))*31 + int64(name[0])))
	for i := 0; i < n; i++ {
		s := makeSession(r, 2+r.Intn(size))
		if more != nil {
			more(r, s)
		}
		ids = append(ids, fmt.Sprintf("%s-%d", name, i))
		ss = append(ss, s)
	}
	return
}

func checkC14(c *check) {
	c.assume = append(c.assume, "the terminal is a pseudo terminal, or stand-ins for FuncMakeRaw and FuncExitRaw")
	ids, ss := c.sessions("raw", c.pickN(400, 4000), 30, func(r *rand.Rand, s *sessTask) {
		s.TTY = chance(r, 2)
		if chance(r, 3) {
			s.Mid = 2
		}
	})
	i2, s2 := c.sessions("rawclose", c.pickN(24, 120), 8, func(r *rand.Rand, s *sessTask) {
		s.TTY = chance(r, 2)
		s.Gate = -2
	})
	c.conformSessions(append(ids, i2...), append(ss, s2...), c.pickN(60, 0))
}

// sessionModel checks how the goroutines of the editor work together
func (c *check) sessionModel() {
	cfg := "SessionMC.cfg"
	if c.tier == "thorough" {
		cfg = "SessionMCDeep.cfg"
		c.modelFaults("SessionMC", "NoKick", "NoStop", "Eager", "NoWait")
	}
	c.model("SessionMC.tla", cfg, nil)
}

func checkC15(c *check) {
	c.sessionModel()
	ids, ss := c.sessions("close", c.pickN(60, 400), 12, func(r *rand.Rand, s *sessTask) { s.Gate = -2 })
	c.conformSessions(ids, ss, c.pickN(60, 0))
}

func checkC16(c *check) {
	ids, ss := c.sessions("input", c.pickN(1500, 15000), 60, nil)
	c.conformSessions(ids, ss, 0)
}

func checkC17(c *check) {
	ids, ss := c.sessions("ahead", c.pickN(1500, 15000), 50, func(r *rand.Rand, s *sessTask) {
		if chance(r, 2) {
			s.Jitter = 2
		}
	})
	c.conformSessions(ids, ss, 0)
}
