package main

import (
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/chzyer/readline"
)

// A ttyTask are calls of the functions for terminals, on one that is made for them.
type ttyTask struct {
	Start ttyMode `json:"start"`
	Ops   []ttyOp `json:"ops"`
}

// ttyMode has all flags of a mode but those of a terminal that is no line
type ttyMode struct {
	I, O, L uint32
	CC      map[int]byte
}

type ttyOp struct {
	F    string  `json:"f"`
	K    int     `json:"k"`
	M    ttyMode `json:"m"`
	Text []byte  `json:"text"` // pass: what is typed
	Fds  []int   `json:"fds"`
	W    int     `json:"w"`
	H    int     `json:"h"`
}

func bits(x uint32) []int {
	b := []int{}
	for i := 0; i < 32; i++ {
		if x&(1<<uint(i)) != 0 {
			b = append(b, i)
		}
	}
	return b
}

func modeObj(t syscall.Termios) obj {
	return obj{"i": bits(t.Iflag), "o": bits(t.Oflag), "c": bits(t.Cflag), "l": bits(t.Lflag), "cc": bytesOf(t.Cc[:])}
}

func (p *pty) setMode(m ttyMode) {
	t := p.get()
	t.Iflag, t.Oflag, t.Lflag = m.I, m.O, m.L
	for k, c := range m.CC {
		t.Cc[k] = c
	}
	p.set(&t)
}

// notEchoing waits until passwords can be typed
func (p *pty) notEchoing() syscall.Termios {
	limit := 4 * time.Second
	if atomic.LoadInt32(&ttyBad) != 0 {
		limit = 100 * time.Millisecond
	}
	for end := time.Now().Add(limit); ; time.Sleep(50 * time.Microsecond) {
		t := p.get()
		if t.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG) == syscall.ICANON|syscall.ISIG && t.Iflag&syscall.ICRNL != 0 {
			return t
		}
		if time.Now().After(end) {
			atomic.StoreInt32(&ttyBad, 1)
			return t
		}
	}
}

var ttyBad int32

// shown is what the terminal was given to show
func (p *pty) shown() []byte {
	var all []byte
	b := make([]byte, 4096)
	syscall.SetNonblock(p.master, true)
	defer syscall.SetNonblock(p.master, false)
	for {
		n, err := syscall.Read(p.master, b)
		if n <= 0 || err != nil {
			return all
		}
		all = append(all, b[:n]...)
	}
}

type ttyRun struct {
	p        *pty
	ev       []obj
	progress int64
	saved    []*readline.State
	raw      readline.RawMode
	cb       int
	called   chan int
	modes    []syscall.Termios
}

// mode is the number of a mode in the list of all there were
func (r *ttyRun) mode(t syscall.Termios) int {
	for k, m := range r.modes {
		if m == t {
			return k + 1
		}
	}
	r.modes = append(r.modes, t)
	return len(r.modes)
}

func (r *ttyRun) log(e obj) obj {
	e["m"] = r.mode(r.p.get())
	r.ev = append(r.ev, e)
	atomic.AddInt64(&r.progress, 1)
	return e
}

func (r *ttyRun) state(e string, s *readline.State, err error) {
	ok := err == nil && s != nil
	r.saved = append(r.saved, s)
	r.log(obj{"e": e, "ok": ok})
}

// at calls f with the terminal at some of 0, 1 and 2
func (r *ttyRun) at(fds []int, f func()) {
	null, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	var keep [3]int
	for fd := range keep {
		keep[fd], err = syscall.Dup(fd)
		if err != nil {
			panic(err)
		}
		syscall.CloseOnExec(keep[fd])
		syscall.Dup3(null, fd, 0)
	}
	for _, fd := range fds {
		syscall.Dup3(r.p.slave, fd, 0)
	}
	f()
	for fd, k := range keep {
		syscall.Dup3(k, fd, 0)
		syscall.Close(k)
	}
	syscall.Close(null)
}

func (r *ttyRun) do(o ttyOp) {
	switch o.F {
	case "set":
		r.p.setMode(o.M)
		r.log(obj{"e": "set"})
	case "raw":
		s, err := readline.MakeRaw(0)
		r.state("raw", s, err)
	case "state":
		s, err := readline.GetState(0)
		r.state("state", s, err)
	case "restore":
		err := readline.Restore(0, r.saved[o.K-1])
		r.log(obj{"e": "restore", "k": o.K, "ok": err == nil})
	case "enter":
		err := r.raw.Enter()
		r.log(obj{"e": "enter", "ok": err == nil})
	case "exit":
		err := r.raw.Exit()
		r.log(obj{"e": "exit", "ok": err == nil})
	case "pass":
		r.pass(o.Text)
	case "none":
		r.none(o.K)
	case "is":
		r.log(obj{"e": "is", "tty": readline.IsTerminal(0)})
	case "resize":
		ws := [4]uint16{uint16(o.H), uint16(o.W), 0, 0}
		if err := ioctl(r.p.master, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))); err != nil {
			panic(err)
		}
		r.log(obj{"e": "resize", "w": o.W, "h": o.H})
	case "size":
		w, h, err := readline.GetSize(0)
		r.log(obj{"e": "size", "w": w, "h": h, "ok": err == nil})
	case "screen":
		var w int
		var tty bool
		r.at(o.Fds, func() { w, tty = readline.GetScreenWidth(), readline.DefaultIsTerminal() })
		r.log(obj{"e": "screen", "fds": o.Fds, "w": w, "tty": tty})
	case "reg":
		r.cb++
		n := r.cb
		readline.DefaultOnWidthChanged(func() { r.called <- n })
		r.log(obj{"e": "reg"})
	case "winch":
		ids := []int{}
		syscall.Kill(os.Getpid(), syscall.SIGWINCH)
		ids = append(ids, <-r.called)
		for more := true; more; {
			select {
			case n := <-r.called:
				ids = append(ids, n)
			case <-time.After(2 * time.Millisecond):
				more = false
			}
		}
		r.log(obj{"e": "winch", "ids": ids})
	default:
		panic("harness: unknown call " + o.F)
	}
}

// pass types t, and one password is read
func (r *ttyRun) pass(t []byte) {
	r.p.shown()
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res)
	go func() {
		b, err := readline.ReadPassword(0)
		ch <- res{b, err}
	}()
	var got res
	during := r.p.get()
	if len(t) > 0 { // or else it was typed before
		during = r.p.notEchoing()
		for x := t; len(x) > 0; {
			n, err := syscall.Write(r.p.master, x)
			if err != nil {
				panic(err)
			}
			x = x[n:]
		}
	}
	got = <-ch
	e := ""
	if got.err == io.EOF {
		e = "EOF"
	} else if got.err != nil {
		e = "other"
	}
	r.log(obj{"e": "pass", "t": bytesOf(t), "got": bytesOf(got.b), "err": e, "echo": bytesOf(r.p.shown()), "during": r.mode(during)})
}

// none makes all calls with something that is no terminal
func (r *ttyRun) none(k int) {
	var fd int
	var fds [2]int
	switch k % 3 {
	case 0:
		fd, _ = syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
		defer syscall.Close(fd)
	case 1:
		syscall.Pipe2(fds[:], syscall.O_CLOEXEC)
		defer syscall.Close(fds[1])
		defer syscall.Close(fds[0])
		fd = fds[0]
	case 2:
		fd = -1
	}
	good := []string{}
	note := func(what string, err error) {
		if err == nil {
			good = append(good, what)
		}
	}
	_, err := readline.MakeRaw(fd)
	note("MakeRaw", err)
	_, err = readline.GetState(fd)
	note("GetState", err)
	_, err = readline.ReadPassword(fd)
	note("ReadPassword", err)
	_, _, err = readline.GetSize(fd)
	note("GetSize", err)
	if s, err := readline.GetState(0); err == nil {
		note("Restore", readline.Restore(fd, s))
	}
	var rm readline.RawMode
	r.at(nil, func() { note("Enter", rm.Enter()) })
	if rm.Exit() != nil {
		good = append(good, "Exit failed without Enter")
	}
	r.log(obj{"e": "none", "tty": readline.IsTerminal(fd), "oks": good})
}

func runTty(t *task) (interface{}, bool) {
	var st ttyTask
	if err := json.Unmarshal(t.Data, &st); err != nil {
		panic(err)
	}
	p, err := openPty()
	if err != nil {
		panic(err)
	}
	defer p.close()
	r := &ttyRun{p: p, called: make(chan int, 100)}
	p.setMode(st.Start)
	r.mode(p.get())
	done := make(chan struct{})
	go func() {
		for _, o := range st.Ops {
			r.do(o)
		}
		close(done)
	}()
	ok := watch(done, time.Duration(t.Ms)*time.Millisecond, func() int64 { return atomic.LoadInt64(&r.progress) })
	var modes []obj
	for _, m := range r.modes {
		modes = append(modes, modeObj(m))
	}
	return obj{"id": t.ID, "ev": r.ev, "modes": modes}, ok
}

// some modes: those of TtyMC first
var ttyModes = []ttyMode{
	{syscall.ICRNL | syscall.IXON, 5, syscall.ISIG | syscall.ICANON | syscall.ECHO | syscall.ECHOE | syscall.ECHOK | syscall.IEXTEN, map[int]byte{syscall.VMIN: 1, syscall.VTIME: 0}},
	{0, 5, syscall.ECHO, map[int]byte{syscall.VMIN: 0, syscall.VTIME: 3}},
	{syscall.ICRNL, 1, syscall.ICANON | syscall.ECHONL, map[int]byte{syscall.VMIN: 1, syscall.VTIME: 0}},
}

func subset(r *rand.Rand, flags ...uint32) (x uint32) {
	for _, f := range flags {
		if chance(r, 2) {
			x |= f
		}
	}
	return x
}

// randomMode: lines says that passwords will be typed
func randomMode(r *rand.Rand, lines bool) ttyMode {
	m := ttyMode{CC: map[int]byte{syscall.VMIN: byte(r.Intn(4)), syscall.VTIME: byte(r.Intn(6))}}
	m.I = subset(r, syscall.IGNBRK, syscall.BRKINT, syscall.IGNPAR, syscall.PARMRK, syscall.INPCK, syscall.ICRNL, syscall.IXON, syscall.IXANY, syscall.IXOFF, syscall.IMAXBEL, syscall.IUTF8)
	if !lines {
		m.I |= subset(r, syscall.ISTRIP, syscall.INLCR, syscall.IGNCR, syscall.IUCLC)
		m.CC[syscall.VEOF] = byte(r.Intn(32))
		m.CC[syscall.VINTR] = byte(r.Intn(32))
	}
	m.O = subset(r, syscall.OPOST, syscall.ONLCR, syscall.OCRNL, syscall.ONOCR, syscall.ONLRET)
	m.L = subset(r, syscall.ISIG, syscall.ICANON, syscall.ECHO, syscall.ECHO, syscall.ECHOE, syscall.ECHOK, syscall.ECHONL, syscall.NOFLSH, syscall.TOSTOP, syscall.IEXTEN, syscall.ECHOCTL, syscall.ECHOKE, syscall.ECHOPRT)
	return m
}

// typedLine is what somebody types up to the end of a password
func typedLine(r *rand.Rand) []byte {
	n := r.Intn(12)
	switch r.Intn(4) {
	case 0:
		n = 16*(1+r.Intn(3)) + r.Intn(5) - 2
	case 1:
		n = 16*r.Intn(70) + r.Intn(5) - 2
	}
	var b []byte
	for len(b) < n {
		switch r.Intn(8) {
		case 0:
			b = append(b, string(rune(0xa1+r.Intn(0x500)))...)
		case 1:
			b = append(b, "\t\x1b\x08\x01 "[r.Intn(5)])
		default:
			b = append(b, byte(33+r.Intn(94)))
		}
	}
	switch {
	case chance(r, 6) && (len(b) == 0 || len(b)%16 != 0):
		return append(b, 4)
	case chance(r, 4):
		return append(b, '\r')
	}
	return append(b, '\n')
}

func (m ttyMode) canonical() bool { return m.L&syscall.ICANON != 0 }

// ttyRandom are calls with anything in between
func ttyRandom(r *rand.Rand, n int) *ttyTask {
	lines := chance(r, 2)
	mode := randomMode(r, lines)
	t := &ttyTask{Start: mode}
	saved := []ttyMode{}
	entered := -1
	var rawOf ttyMode
	cb := 0
	size := false
	add := func(o ttyOp) { t.Ops = append(t.Ops, o) }
	raw := func(m ttyMode) ttyMode { m.L = 0; return m }
	for len(t.Ops) < n {
		switch r.Intn(13) {
		case 0:
			mode = randomMode(r, lines)
			add(ttyOp{F: "set", M: mode})
		case 1, 2:
			saved = append(saved, mode)
			mode = raw(mode)
			add(ttyOp{F: "raw"})
		case 3:
			saved = append(saved, mode)
			add(ttyOp{F: "state"})
		case 4:
			if len(saved) > 0 {
				k := r.Intn(len(saved))
				mode = saved[k]
				add(ttyOp{F: "restore", K: k + 1})
			}
		case 5:
			if entered < 0 {
				entered, rawOf = 1, mode
				mode = raw(mode)
				add(ttyOp{F: "enter"})
			}
		case 6:
			if entered >= 0 {
				mode, entered = rawOf, -1
			}
			add(ttyOp{F: "exit"})
		case 7, 8:
			if !lines {
				break
			}
			a := typedLine(r)
			if mode.canonical() && chance(r, 3) {
				add(ttyOp{F: "pass", Text: append(a, typedLine(r)...)})
				if chance(r, 2) {
					add(ttyOp{F: "is"})
				}
				add(ttyOp{F: "pass"})
			} else {
				add(ttyOp{F: "pass", Text: a})
			}
		case 9:
			add(ttyOp{F: "none", K: r.Intn(3)})
		case 10:
			add(ttyOp{F: "resize", W: []int{0, 1, 2, 79, 80, 255, 256, 257, 300, 65535}[r.Intn(10)], H: r.Intn(400)})
			size = true
		case 11:
			if !size {
				add(ttyOp{F: "is"})
				break
			}
			if chance(r, 2) {
				add(ttyOp{F: "size"})
			} else {
				fds := []int{}
				for fd := 0; fd < 3; fd++ {
					if chance(r, 2) {
						fds = append(fds, fd)
					}
				}
				add(ttyOp{F: "screen", Fds: fds})
			}
		case 12:
			if cb > 0 && chance(r, 2) {
				add(ttyOp{F: "winch"})
			} else {
				cb++
				add(ttyOp{F: "reg"})
			}
		}
	}
	return t
}

func checkC28(c *check) {
	c.assume = append(c.assume, "the kernel's terminal: a pseudo terminal")
	if c.thorough() {
		c.modelFaults("TtyMC", "KeepQuiet", "Twice", "Half")
	}
	base, err := os.ReadFile(filepath.Join(specDir(), "TtyMC.cfg"))
	must(err)
	cfg := filepath.Join(scratch(), "TtyMC.cfg")
	must(os.WriteFile(cfg, []byte(strings.Replace(string(base), "N = 3", sprintf("N = %d", c.pickN(4, 5)), 1)), 0644))
	r := rand.New(rand.NewSource(seed() + 28))
	var tasks []*task
	byID := map[string]interface{}{}
	add := func(id string, t *ttyTask) {
		b, err := json.Marshal(t)
		must(err)
		byID[id] = obj{"tty": t}
		tasks = append(tasks, &task{Kind: "tty", ID: id, Data: b})
	}
	for i, s := range c.model("TtyMC.tla", cfg, nil) {
		if c.thorough() && !chance(r, 3) {
			continue // a third of those of the greater instance
		}
		var x struct {
			Start int     `json:"start"`
			Ops   []ttyOp `json:"ops"`
		}
		must(json.Unmarshal([]byte(s), &x))
		for k := range x.Ops {
			o := &x.Ops[k]
			switch o.F {
			case "set":
				o.M = ttyModes[o.K-1]
			case "pass":
				o.Text = typedLine(r)
			}
		}
		add(sprintf("mc-%d", i), &ttyTask{Start: ttyModes[x.Start-1], Ops: x.Ops})
	}
	c.add("sequences_of_the_model", len(tasks))
	for i, n := 0, c.pickN(3000, 20000); i < n; i++ {
		add(sprintf("tty-%d", i), ttyRandom(r, 5+r.Intn(30)))
	}
	c.runAndValidate("TtyTrace", tasks, byID)
	c.sample(byID["tty-0"])
}
