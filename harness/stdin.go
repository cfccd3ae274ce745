package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chzyer/readline"
)

// A stdinTask drives one of the wrappers of the input with goroutines that read,
// write and close, on a reader whose answers are given.
type stdinTask struct {
	Fill   bool    `json:"fill"`
	Low    []low   `json:"low"`
	Block  bool    `json:"block"` // after them the reader below never answers, or else with EOF
	Reads  [][]int `json:"reads"` // sizes, of each goroutine
	Writes []int   `json:"writes"`
	Close  []int   `json:"close"` // after so many events, of each goroutine
	Seed   int64   `json:"seed"`
	Procs  int     `json:"procs"`
}

// low is an answer of the reader below
type low struct {
	N    int    `json:"n"` // bytes
	Err  string `json:"err"`
	Hold bool   `json:"hold"` // not before there was a Close
}

type stdinRun struct {
	st *stdinTask

	mu       sync.Mutex
	ev       []obj
	progress int64
	rnd      *rand.Rand
	next     int
	lowN     int
	closed   chan struct{}
	once     sync.Once
	end      chan struct{}
	stuck    chan struct{} // the reader below does not answer any more
	stuck1   sync.Once
	bufs     [][2][]byte
	free     bool
}

func (r *stdinRun) log(e obj) {
	r.mu.Lock()
	r.ev = append(r.ev, e)
	r.mu.Unlock()
	atomic.AddInt64(&r.progress, 1)
}

func (r *stdinRun) jitter() {
	r.mu.Lock()
	k, n := r.rnd.Intn(6), r.rnd.Intn(20)
	r.mu.Unlock()
	switch k {
	case 0, 1:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(n*3) * time.Microsecond)
	}
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	default:
		return err.Error()
	}
}

// Read is the reader below
func (r *stdinRun) Read(p []byte) (n int, err error) {
	r.log(obj{"e": "ub"})
	r.jitter()
	r.mu.Lock()
	i := r.next
	r.next++
	r.mu.Unlock()
	if i < len(r.st.Low) {
		l := r.st.Low[i]
		if l.Hold {
			r.stuck1.Do(func() { close(r.stuck) })
			<-r.closed
			r.jitter()
		}
		n = l.N
		if l.Err == "EOF" {
			err = io.EOF
		} else if l.Err != "" {
			err = errors.New(l.Err)
		}
	} else if r.st.Block {
		r.stuck1.Do(func() { close(r.stuck) })
		<-r.end
		n = 3
	} else {
		err = io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	r.mu.Lock()
	for j := 0; j < n; j++ {
		// not any byte that is written
		p[j] = byte(128 + r.lowN%128)
		r.lowN++
	}
	r.mu.Unlock()
	r.log(obj{"e": "ue", "t": bytesOf(p[:n]), "err": errName(err)})
	return n, err
}

// Close ends a pending Read that holds: there is a Close
func (r *stdinRun) Close() error {
	r.once.Do(func() { close(r.closed) })
	return nil
}

func bytesOf(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func (r *stdinRun) run() {
	var in io.ReadCloser
	var fill io.Writer
	if r.st.Fill {
		in, fill = readline.NewFillableStdin(r)
	} else {
		// Close is not for the reader below
		in = readline.NewCancelableStdin(struct{ io.Reader }{r})
	}
	var rd, wr, cl sync.WaitGroup
	id := int64(0)
	for _, sizes := range r.st.Reads {
		rd.Add(1)
		go func(sizes []int) {
			defer rd.Done()
			for _, n := range sizes {
				r.jitter()
				b := make([]byte, n)
				i := atomic.AddInt64(&id, 1)
				r.log(obj{"e": "rb", "id": i, "n": n})
				k, err := in.Read(b)
				r.log(obj{"e": "re", "id": i, "t": bytesOf(b[:k]), "err": errName(err)})
				r.mu.Lock()
				r.bufs = append(r.bufs, [2][]byte{b, append([]byte{}, b...)})
				r.mu.Unlock()
			}
		}(sizes)
	}
	if len(r.st.Writes) > 0 {
		wr.Add(1)
		go func() {
			defer wr.Done()
			c := 0
			for _, n := range r.st.Writes {
				r.jitter()
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(c % 128)
					c++
				}
				want := bytesOf(b)
				r.log(obj{"e": "wb", "t": want})
				k, err := fill.Write(b)
				r.log(obj{"e": "we", "t": want, "n": k, "err": errName(err)})
				for i := range b {
					b[i] = 255 // it is the caller's again
				}
			}
		}()
	}
	over := make(chan struct{})
	for _, at := range r.st.Close {
		cl.Add(1)
		go func(at int) {
			defer cl.Done()
			for int(atomic.LoadInt64(&r.progress)) < at {
				select {
				case <-over:
					return
				case <-r.stuck:
					at = 0
				case <-time.After(20 * time.Microsecond):
				}
			}
			r.jitter()
			r.log(obj{"e": "cb"})
			in.Close()
			r.log(obj{"e": "ce"})
			if !r.st.Fill {
				r.Close()
			}
		}(at)
	}
	rd.Wait()
	wr.Wait()
	close(over)
	cl.Wait()
	// what comes later is for nobody
	r.mu.Lock()
	n := r.next
	r.mu.Unlock()
	r.Close()
	close(r.end)
	for i := 0; i < 200; i++ {
		r.mu.Lock()
		out := 0
		for _, e := range r.ev {
			switch e["e"] {
			case "ub":
				out++
			case "ue":
				out--
			}
		}
		r.mu.Unlock()
		if out == 0 {
			break
		}
		time.Sleep(50 * time.Microsecond)
	}
	_ = n
	runtime.Gosched()
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, b := range r.bufs {
		if !bytes.Equal(b[0], b[1]) {
			r.ev = append(r.ev, obj{"e": "spoiled"})
			break
		}
	}
}

func runStdin(t *task) (interface{}, bool) {
	r := &stdinRun{st: &stdinTask{}, closed: make(chan struct{}), end: make(chan struct{}), stuck: make(chan struct{})}
	if err := json.Unmarshal(t.Data, r.st); err != nil {
		panic(err)
	}
	r.rnd = rand.New(rand.NewSource(r.st.Seed))
	if r.st.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(r.st.Procs))
	}
	done := make(chan struct{})
	go func() {
		r.run()
		close(done)
	}()
	if !watch(done, time.Duration(t.Ms)*time.Millisecond, func() int64 { return atomic.LoadInt64(&r.progress) }) {
		r.mu.Lock()
		b, _ := json.Marshal(r.ev)
		fmt.Printf("hangs after %s\n", b)
		return nil, false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return obj{"id": t.ID, "fill": r.st.Fill, "ev": append([]obj{}, r.ev...)}, true
}

func randomStdin(r *rand.Rand, fill bool) *stdinTask {
	s := &stdinTask{Fill: fill, Seed: r.Int63n(1 << 40)}
	sizes := []int{1, 2, 3, 5, 8, 16, 64}
	size := func() int {
		if chance(r, 30) {
			return []int{0, 4096, 1000}[r.Intn(3)]
		}
		return sizes[r.Intn(len(sizes))]
	}
	for i := r.Intn(8); i > 0; i-- {
		l := low{N: size()}
		switch r.Intn(8) {
		case 0:
			l.Err = "EOF"
			if chance(r, 2) {
				l.N = 0
			}
		case 1:
			l.Err = "broken"
		case 2:
			l.Hold = true
		}
		s.Low = append(s.Low, l)
	}
	s.Block = chance(r, 2)
	n := 1
	if !fill && chance(r, 3) {
		n = 2
	}
	for i := 0; i < n; i++ {
		var rs []int
		for j := 1 + r.Intn(8); j > 0; j-- {
			rs = append(rs, size())
		}
		s.Reads = append(s.Reads, rs)
	}
	if fill {
		for j := r.Intn(6); j > 0; j-- {
			s.Writes = append(s.Writes, size())
		}
		if chance(r, 10) {
			s.Writes = append(s.Writes, 5000+r.Intn(5000))
		}
	}
	hold := s.Block
	for _, l := range s.Low {
		hold = hold || l.Hold
	}
	if hold || chance(r, 3) {
		for i := 1 + r.Intn(3); i > 0; i-- {
			s.Close = append(s.Close, r.Intn(30))
		}
	}
	if fill {
		// the one below has to answer when it is closed
		s.Block = false
	}
	if chance(r, 3) {
		s.Procs = 1 + r.Intn(3)
	}
	return s
}

func (c *check) stdins(name string, n int, fill bool) {
	r := rand.New(rand.NewSource(seed()*7919 + int64(len(name))))
	var tasks []*task
	byID := map[string]interface{}{}
	for i := 0; i < n; i++ {
		s := randomStdin(r, fill)
		b, err := json.Marshal(s)
		must(err)
		id := fmt.Sprintf("%s-%d", name, i)
		tasks = append(tasks, &task{Kind: "stdin", ID: id, Data: b})
		byID[id] = obj{"stdin": s}
	}
	c.runAndValidate("StdinTrace", tasks, byID)
	c.sample(byID[tasks[0].ID])
}

func checkC22(c *check) {
	c.assume = append(c.assume, "the reader below keeps the contract of io.Reader")
	if c.tier == "thorough" {
		c.modelFaults("StdinMC", "NoStop", "Share")
	}
	c.model("StdinMC.tla", "StdinMC.cfg", nil)
	c.stdins("cancel", c.pickN(3000, 60000), false)
}

var mPre = mLetters.with(mEnd.times(2), mDel, mMove, mKill, mUni)

// prefill is what a program may put before the input
func prefill(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return "\x1b" // the rest of the key comes with the next one, or is typed
	case 1:
		return "[A"
	case 2:
		return "\x1b["
	case 3:
		return ""
	case 4:
		return "cmd arg\r"
	case 5:
		return "one\rtwo\r"
	}
	return makeInput(r, mPre, 1+r.Intn(8))
}

func checkC21(c *check) {
	scs := randomEdits("pre", c.pickN(1500, 20000), mPre, 20, func(r *rand.Rand, sc *Scenario) {
		sc.Cfgs[0].Vim = chance(r, 4)
		o := *sc.Cfgs[0]
		o.Prompt = str("2> ")
		sc.Cfgs = append(sc.Cfgs, &o)
		n := 0
		steps := between(r, sc.Steps, 2, func() Step {
			if chance(r, 5) {
				return Step{F: "setcfg", CI: 1 + r.Intn(2)}
			}
			p := prefill(r)
			n += enders(p)
			return Step{F: "stdin", T: str(p)}
		})
		sc.Steps = append(steps, readlines(n)...)
		var in string
		for _, x := range sc.Chunks {
			in += x
		}
		sc.Chunks = Chunks(split(r, in, true))
	})
	c.conform(scs)
	long := c.pickN(6, 60)
	ids, ss := c.sessions("filled", c.pickN(800, 8000), 30, func(r *rand.Rand, s *sessTask) {
		s.Chunks = s.Chunks.whole()
		n := 0
		steps := between(r, s.Steps, 3, func() Step {
			if chance(r, 6) {
				return Step{F: "setcfg", CI: 1 + r.Intn(2)}
			}
			p := prefill(r)
			if long > 0 && !s.Cfgs[0].Vim {
				long--
				p = strings.Repeat([]string{"0123456789abc\x15", "0123456789abcdef "}[long%2], 270) + "\r" + p
			}
			n += enders(p)
			return Step{F: "stdin", T: str(p)}
		})
		s.Steps = append(steps, readlines(n)...)
	})
	c.conformSessions(ids, ss, 0)
	c.stdins("fill", c.pickN(3000, 60000), true)
}
