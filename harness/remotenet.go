package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chzyer/readline"
)

// A netTask runs whole remote sessions: a server made by ListenRemote, a client made
// by DialRemote, others that follow a script, and others that do not keep the protocol.
type netTask struct {
	Clients []netClient `json:"clients"` // the first may be DialRemote
	Dial    bool        `json:"dial"`
	TTY     bool        `json:"tty"` // the standard input of it is a terminal
	Odd     [][]int     `json:"odd"` // what others send
	Unix    bool        `json:"unix"`
	Close   bool        `json:"close"` // the server closes the Instance
	Seed    int64       `json:"seed"`
	Procs   int         `json:"procs"`
}

type netClient struct {
	Lines []string `json:"lines"`
	Say   []int    `json:"say"` // bytes written after each of them
}

type netRun struct {
	*remoteRun
	nt *netTask
}

func (r *netRun) handle(rl *readline.Instance) {
	s, c := 0, byte(0)
	for i := 0; ; i++ {
		r.jitter()
		line, err := rl.Readline()
		if err != nil {
			if s > 0 {
				if err == io.EOF {
					r.log(obj{"e": "over", "s": s})
				} else {
					r.log(obj{"e": "none", "s": s})
				}
			}
			break
		}
		if s == 0 {
			if s, _ = strconv.Atoi(line); s < 1 || s > len(r.nt.Clients) {
				r.log(obj{"e": "none", "s": 1})
				return
			}
		}
		r.log(obj{"e": "line", "s": s, "t": str(line)})
		cl := r.nt.Clients[s-1]
		for n := cl.Say[i%len(cl.Say)]; n > 0; {
			k := 1 + r.intn(n)
			n -= k
			b := make([]byte, 2*k)
			for j := 0; j < len(b); j += 2 {
				b[j], b[j+1] = 0xc3, 0x80+c%64
				c++
			}
			r.log(obj{"e": "said", "s": s, "t": bytesOf(b)})
			var w io.Writer = rl
			switch r.intn(3) {
			case 0:
				w = rl.Stdout()
			case 1:
				w = rl.Stderr()
			}
			if _, err := w.Write(append(b, '\n')); err != nil {
				r.log(obj{"e": "none", "s": s})
			}
		}
	}
	if r.nt.Close {
		rl.Close()
	}
}

func (r *netRun) dial(network, addr string) net.Conn {
	c, err := net.Dial(network, addr)
	if err != nil {
		panic(err)
	}
	return c
}

// odd sends what is no session, and goes away some time
func (r *netRun) odd(network, addr string, b []byte, stay chan struct{}) {
	c := r.dial(network, addr)
	defer c.Close()
	r.jitter()
	c.Write(b)
	go io.Copy(io.Discard, c)
	if r.intn(2) == 0 {
		<-stay
	}
}

func (r *netRun) input(s int) []string {
	var t []string
	for i, x := range append([]string{strconv.Itoa(s)}, r.nt.Clients[s-1].Lines...) {
		if i%2 == 0 {
			t = append(t, x+"\r")
		} else {
			t = append(t, x, "\r")
		}
	}
	return t
}

// script is a client of its own
func (r *netRun) script(s int, network, addr string) {
	c := r.dial(network, addr)
	defer c.Close()
	b := append(frame(3, []byte{0, 1}), frame(2, []byte{0, 80})...)
	c.Write(b)
	got := make(chan struct{})
	go func() {
		defer close(got)
		var b []byte
		p := make([]byte, 256)
		for {
			n, err := c.Read(p)
			b = append(b, p[:n]...)
			var ms [][]byte
			ms, b = frames(b)
			for _, m := range ms {
				if m[0] == 0 && m[1] == 0 {
					r.log(obj{"e": "out", "s": s, "t": bytesOf(m[2:])})
				}
			}
			if err != nil {
				r.log(obj{"e": "gone", "s": s})
				return
			}
		}
	}()
	var all []byte
	for _, x := range r.input(s) {
		r.log(obj{"e": "typed", "s": s, "t": bytesOf([]byte(x))})
		all = append(all, frame(0, []byte(x))...)
	}
	r.log(obj{"e": "ended", "s": s})
	all = append(all, frame(6, nil)...)
	for len(all) > 0 {
		n := 1 + r.intn(len(all))
		c.Write(all[:n])
		all = all[n:]
		r.jitter()
	}
	<-got
}

// real is the client of the library, with the standard input and output
func (r *netRun) real(network, addr string) {
	const s = 1
	in, err := openPty()
	if err != nil {
		panic(err)
	}
	defer in.close()
	typist := in.master
	if !r.nt.TTY {
		var p [2]int
		if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
			panic(err)
		}
		syscall.Dup3(p[0], 0, 0)
		syscall.Close(p[0])
		typist = p[1]
	}
	out, err := openPtyAt(1)
	if err != nil {
		panic(err)
	}
	defer out.closeAt(1)
	t := out.get()
	t.Oflag &^= syscall.OPOST
	out.set(&t)
	orig := in.get()
	printed := make(chan struct{})
	go func() {
		defer close(printed)
		p := make([]byte, 4096)
		for {
			n, err := syscall.Read(out.master, p)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || n <= 0 {
				return
			}
			i := bytes.IndexByte(p[:n], 0)
			k := n
			if i >= 0 {
				k = i
			}
			if k > 0 {
				r.log(obj{"e": "out", "s": s, "t": bytesOf(p[:k])})
			}
			if i >= 0 {
				return
			}
		}
	}()
	go func() {
		if r.nt.TTY {
			// what is typed before is for the line discipline
			for in.get().Lflag&syscall.ICANON != 0 {
				time.Sleep(50 * time.Microsecond)
				if r.gone() {
					return
				}
			}
		}
		for _, x := range r.input(s) {
			r.log(obj{"e": "typed", "s": s, "t": bytesOf([]byte(x))})
			if r.nt.TTY {
				// it is raw when there is a Readline
				for i := 0; in.get().Lflag&syscall.ICANON != 0 && !r.gone(); i++ {
					time.Sleep(50 * time.Microsecond)
				}
			}
			r.jitter()
			syscall.Write(typist, []byte(x))
		}
		r.log(obj{"e": "ended", "s": s})
		if !r.nt.TTY {
			syscall.Close(typist)
			return
		}
		// ^D, for the Readline that comes next
		for i := 0; !r.gone(); i++ {
			if in.get().Lflag&syscall.ICANON == 0 {
				r.mu.Lock()
				lines := 0
				for _, e := range r.ev {
					if e["e"] == "line" && e["s"] == s {
						lines++
					}
				}
				r.mu.Unlock()
				if lines == len(r.nt.Clients[s-1].Lines)+1 {
					// it may get lost when the mode changes
					syscall.Write(typist, []byte{4})
					time.Sleep(2 * time.Millisecond)
				}
			}
			time.Sleep(50 * time.Microsecond)
		}
	}()
	if err := readline.DialRemote(network, addr); err != nil {
		panic(err)
	}
	close(r.readDone)
	if in.get() != orig {
		r.log(obj{"e": "none", "s": s})
	}
	syscall.Write(1, []byte{0})
	<-printed
	r.log(obj{"e": "gone", "s": s})
}

// refused tries what cannot be
func (r *netRun) refused(network, addr string) {
	try := func(what string, f func() error) {
		err := f()
		r.log(obj{"e": "refused", "s": 1, "what": what, "ok": err != nil})
	}
	d, err := os.MkdirTemp("", "rn")
	must(err)
	defer os.RemoveAll(d)
	unused := func(*readline.Instance) { panic("a session") }
	try("address in use", func() error { return readline.ListenRemote(network, addr, &readline.Config{}, unused) })
	try("nobody there", func() error { return readline.DialRemote("unix", filepath.Join(d, "nobody")) })
	try("not wanted", func() error {
		no := fmt.Errorf("no")
		err := readline.ListenRemote("unix", filepath.Join(d, "s"), &readline.Config{}, unused, func(ln net.Listener) error {
			ln.Close()
			return no
		})
		if err != no {
			return nil
		}
		return err
	})
}

func (r *netRun) run() {
	var network, addr = "tcp", "127.0.0.1:0"
	if r.nt.Unix {
		d, err := os.MkdirTemp("", "rn")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		network, addr = "unix", filepath.Join(d, "s")
	}
	lc := make(chan net.Listener, 1)
	over := make(chan struct{})
	go func() {
		defer close(over)
		cfg := &readline.Config{Prompt: "> "}
		if r.nt.Seed%3 == 0 {
			serversOwn(cfg)
		}
		err := readline.ListenRemote(network, addr, cfg, r.handle, func(ln net.Listener) error {
			lc <- ln
			return nil
		})
		if err != nil {
			panic(err)
		}
	}()
	ln := <-lc
	addr = ln.Addr().String()
	r.refused(network, addr)
	stay := make(chan struct{})
	var wg, odd sync.WaitGroup
	for _, o := range r.nt.Odd {
		odd.Add(1)
		b := make([]byte, len(o))
		for i, c := range o {
			b[i] = byte(c)
		}
		go func() {
			defer odd.Done()
			r.odd(network, addr, b, stay)
		}()
	}
	for i := range r.nt.Clients {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			r.jitter()
			if s == 1 && r.nt.Dial {
				r.real(network, addr)
			} else {
				r.script(s, network, addr)
			}
		}(i + 1)
	}
	wg.Wait()
	close(stay)
	odd.Wait()
	ln.Close()
	<-over
}

func runNet(t *task) (interface{}, bool) {
	r := &netRun{&remoteRun{st: &remoteTask{}, readDone: make(chan struct{}), failed: make(chan struct{})}, &netTask{}}
	if err := json.Unmarshal(t.Data, r.nt); err != nil {
		panic(err)
	}
	r.rnd = rand.New(rand.NewSource(r.nt.Seed))
	if r.nt.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(r.nt.Procs))
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		r.run()
	}()
	if !watch(done, time.Duration(t.Ms)*time.Millisecond, func() int64 { return atomic.LoadInt64(&r.progress) }) {
		r.mu.Lock()
		n := len(r.ev)
		if n > 12 {
			n = 12
		}
		b, _ := json.Marshal(r.ev[len(r.ev)-n:])
		fmt.Fprintf(os.Stderr, "hangs after %s\n", b)
		return nil, false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.over = true
	return obj{"id": t.ID, "n": len(r.nt.Clients), "ev": r.ev}, true
}

func randomNet(r *rand.Rand) *netTask {
	s := &netTask{Dial: !chance(r, 4), TTY: chance(r, 2), Unix: chance(r, 2), Close: chance(r, 2), Seed: r.Int63n(1 << 40)}
	if chance(r, 3) {
		s.Procs = 1 + r.Intn(3)
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		c := netClient{Lines: []string{}, Say: []int{r.Intn(3), r.Intn(20), r.Intn(4)}}
		for j := r.Intn(6); j > 0; j-- {
			c.Lines = append(c.Lines, strings.Repeat(string(rune('a'+r.Intn(26))), r.Intn(4))+strings.Repeat("xyz", r.Intn(4)*r.Intn(4)))
		}
		s.Clients = append(s.Clients, c)
	}
	hello := append(frame(3, []byte{0, 1}), frame(2, []byte{0, 80})...)
	for i := r.Intn(4); i > 0; i-- {
		o := oddFrames[r.Intn(len(oddFrames))]
		if chance(r, 2) {
			o = append(append([]byte{}, hello...), o...)
		}
		s.Odd = append(s.Odd, bytesOf(o))
	}
	return s
}

func (c *check) nets(n int) {
	r := rand.New(rand.NewSource(seed()*7919 + 77))
	var tasks []*task
	byID := map[string]interface{}{}
	for i := 0; i < n; i++ {
		s := randomNet(r)
		b, err := json.Marshal(s)
		must(err)
		id := fmt.Sprintf("net-%d", i)
		tasks = append(tasks, &task{Kind: "net", ID: id, Data: b})
		byID[id] = obj{"net": s}
	}
	c.runAndValidate("RemoteNet", tasks, byID)
	c.sample(byID[tasks[0].ID])
}
