package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/chzyer/readline"
)

// A remoteTask drives one end of a remote session; the other end follows a script
// and the connection between them splits, delays and fails.
type remoteTask struct {
	Client bool      `json:"client"`
	Script []peerAct `json:"script"` // what the other end does
	Frag   int       `json:"frag"`   // at most so many bytes at a time arrive
	Cap    int       `json:"cap"`    // so many bytes can be on their way to the other end
	Deaf   bool      `json:"deaf"`   // the other end does not read
	Reads  []int     `json:"reads"`  // sizes
	Calls  [][]rcall `json:"calls"`  // of each goroutine that writes
	Close  int       `json:"close"`  // after so many events, -1: not at all
	Fail   int       `json:"fail"`   // the connection fails after so many bytes were sent
	Seed   int64     `json:"seed"`
	Procs  int       `json:"procs"`
	// the client
	Term   int   `json:"term"` // marked as 0, 1; -1: what it is
	Width  int   `json:"width"`
	Source []src `json:"source"` // what is typed
	Held   bool  `json:"held"`   // after that the source ends only with the session
}

type rcall struct {
	K int `json:"k"` // the type of the message
	N int `json:"n"`
}

type src struct {
	N     int `json:"n"`
	Err   int `json:"err"`   // 1: EOF, 2: an error
	Winch int `json:"winch"` // before, the window gets this width
}

// peerAct is what the other end does: send (bytes), sync (wait until everything had
// its effect), close, abort, and wait (until the end of the input came).
type peerAct struct {
	A string `json:"a"`
	T []int  `json:"t"`
}

// ---- the connection ----

type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	cap    int
	wdone  bool // nobody writes any more
	rdone  bool // nobody reads any more
	broken bool
}

func newHalf(cap int) *half {
	h := &half{cap: cap}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.cond.Broadcast()
	h.mu.Unlock()
}

var errReset = errors.New("connection reset by peer")

func (h *half) read(p []byte, most int) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.broken:
			return 0, errReset
		case h.rdone:
			return 0, net.ErrClosed
		case len(p) == 0:
			return 0, nil
		case len(h.buf) > 0:
			n := len(h.buf)
			if n > most {
				n = most
			}
			n = copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		case h.wdone:
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (h *half) write(p []byte) (n int, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.wdone:
			return n, net.ErrClosed
		case h.broken || h.rdone:
			return n, errReset
		case n == len(p):
			return n, nil
		case len(h.buf) < h.cap:
			k := h.cap - len(h.buf)
			if k > len(p)-n {
				k = len(p) - n
			}
			h.buf = append(h.buf, p[n:n+k]...)
			n += k
			h.cond.Broadcast()
			continue
		}
		h.cond.Wait()
	}
}

// memConn is the end of the connection that the code under test has
type memConn struct {
	r       *remoteRun
	in, out *half
	sent    int
	isOver  bool
}

func (c *memConn) Read(p []byte) (int, error) {
	c.r.jitter()
	if len(p) > 1<<24 {
		c.r.log(obj{"e": "huge"})
	}
	n, err := c.in.read(p, 1+c.r.intn(c.r.st.Frag))
	if n > 0 {
		c.r.log(obj{"e": "got", "t": bytesOf(p[:n])})
		atomic.AddInt64(&c.r.got, int64(n))
	}
	if err != nil {
		c.r.log(obj{"e": "cut"})
	}
	return n, err
}

func (c *memConn) Write(p []byte) (n int, err error) {
	c.r.jitter()
	t := p
	if f := c.r.st.Fail; f > 0 && c.sent+len(t) > f {
		if t = t[:0]; f > c.sent {
			t = p[:f-c.sent]
		}
		n, err = c.out.write(t)
		if err == nil {
			err = errReset
		}
		c.r.once.Do(func() { close(c.r.failed) })
		c.in.set(func() { c.in.broken = true })
		c.out.set(func() { c.out.broken = true })
	} else {
		n, err = c.out.write(t)
	}
	c.sent += n
	if n > 0 {
		c.r.log(obj{"e": "sent", "t": bytesOf(p[:n])})
	}
	if err != nil {
		c.r.log(obj{"e": "broken"})
		c.r.once.Do(func() { close(c.r.failed) })
	}
	return n, err
}

func (c *memConn) Close() error {
	c.in.set(func() { c.in.rdone = true })
	c.out.set(func() { c.out.wdone = true })
	return nil
}

type memAddr struct{}

func (memAddr) Network() string                    { return "mem" }
func (memAddr) String() string                     { return "mem" }
func (c *memConn) LocalAddr() net.Addr             { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr            { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error     { return nil }
func (c *memConn) SetReadDeadline(time.Time) error { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error {
	return nil
}

// ---- a run ----

type remoteRun struct {
	st       *remoteTask
	mu       sync.Mutex
	ev       []obj
	progress int64
	rnd      *rand.Rand
	over     bool

	conn     *memConn
	up, down *half // to the code under test, from it
	sentData int   // by the other end
	sentAll  int64
	got      int64
	consumed int64
	readDone chan struct{} // nothing is read any more
	scripted chan struct{} // the script is over
	failed   chan struct{}
	once     sync.Once
	gotEOF   chan struct{} // the end of the input came
	eofOnce  sync.Once
	tty, out *pty
	widths   int64 // the number of reports the other end got
	wanted   int64
}

func (r *remoteRun) log(e obj) {
	r.mu.Lock()
	if !r.over {
		r.ev = append(r.ev, e)
	}
	r.mu.Unlock()
	atomic.AddInt64(&r.progress, 1)
}

func (r *remoteRun) intn(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rnd.Intn(n)
}

func (r *remoteRun) jitter() {
	n := r.intn(20)
	switch r.intn(6) {
	case 0, 1:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(n*3) * time.Microsecond)
	}
}

// frames takes the complete messages out of b
func frames(b []byte) (msgs [][]byte, rest []byte) {
	for len(b) >= 4 {
		n := int(int32(binary.BigEndian.Uint32(b)))
		if n < 2 || len(b)-4 < n {
			break
		}
		msgs = append(msgs, b[4:4+n])
		b = b[4+n:]
	}
	return msgs, b
}

func frame(k int, t []byte) []byte {
	b := make([]byte, 6, 6+len(t))
	binary.BigEndian.PutUint32(b, uint32(len(t)+2))
	binary.BigEndian.PutUint16(b[4:], uint16(k))
	return append(b, t...)
}

// peer is the other end
func (r *remoteRun) peer() {
	defer close(r.scripted)
	var all []byte
	for _, a := range r.st.Script {
		r.jitter()
		switch a.A {
		case "send":
			b := make([]byte, len(a.T))
			for i, c := range a.T {
				b[i] = byte(c)
			}
			all = append(all, b...)
			var ms [][]byte
			ms, all = frames(all)
			for _, m := range ms {
				if m[0] == 0 && m[1] == 0 {
					r.sentData += len(m) - 2
				}
			}
			r.sentAll += int64(len(b))
			for len(b) > 0 {
				n := 1 + r.intn(len(b))
				if _, err := r.up.write(b[:n]); err != nil {
					break
				}
				b = b[n:]
				r.jitter()
			}
		case "sync":
			r.sync()
		case "wait":
			select {
			case <-r.gotEOF:
			case <-r.readDone:
			case <-r.failed:
			}
		case "close":
			r.up.set(func() { r.up.wdone = true })
			r.down.set(func() { r.down.rdone = true })
		case "abort":
			r.up.set(func() { r.up.broken = true })
			r.down.set(func() { r.down.broken = true })
		}
		atomic.AddInt64(&r.progress, 1)
	}
}

// sync waits until everything that was sent had its effect, and widths have been
// reported; whoever never does it is hanging
func (r *remoteRun) sync() {
	for i := 0; ; i++ {
		select {
		case <-r.readDone:
			return
		case <-r.failed:
			return
		default:
		}
		if int(atomic.LoadInt64(&r.consumed)) >= r.sentData && atomic.LoadInt64(&r.got) >= r.sentAll {
			break
		}
		time.Sleep(time.Duration(10+i) * time.Microsecond)
	}
	if r.st.Client {
		// modes come after what was printed; there is nothing to see of them
		for {
			raw := r.isRaw()
			select {
			case <-r.readDone:
				return
			case <-r.failed:
				return
			default:
			}
			if raw == r.wantRaw() {
				r.log(obj{"e": "mode", "raw": raw})
				return
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
}

// wantRaw is what the messages so far say
func (r *remoteRun) wantRaw() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	var b []byte
	for _, e := range r.ev {
		if e["e"] == "got" {
			for _, c := range e["t"].([]int) {
				b = append(b, byte(c))
			}
		}
	}
	raw := false
	ms, _ := frames(b)
	for _, m := range ms {
		if k := int(m[0])<<8 | int(m[1]); k == 4 || k == 5 {
			raw = k == 4
		}
	}
	return raw
}

func (r *remoteRun) isRaw() bool {
	return r.tty.get().Lflag&(syscall.ICANON|syscall.ECHO|syscall.ISIG) == 0
}

// drain is the other end reading
func (r *remoteRun) drain() {
	var b []byte
	p := make([]byte, 512)
	for {
		n, err := r.down.read(p, len(p))
		if err != nil {
			return
		}
		b = append(b, p[:n]...)
		var ms [][]byte
		ms, b = frames(b)
		for _, m := range ms {
			switch int(m[0])<<8 | int(m[1]) {
			case 6:
				r.eofOnce.Do(func() { close(r.gotEOF) })
			case 2:
				atomic.AddInt64(&r.widths, 1)
			}
		}
	}
}

func (r *remoteRun) server() {
	rs, err := readline.NewRemoteSvr(r.conn)
	r.log(obj{"e": "hello", "ok": err == nil})
	if err != nil {
		close(r.readDone)
		r.conn.Close()
		<-r.scripted
		return
	}
	cfg := &readline.Config{}
	if r.st.Seed%3 == 0 {
		serversOwn(cfg)
	}
	rs.HandleConfig(cfg)
	cfg.FuncOnWidthChanged(func() {
		r.log(obj{"e": "told", "n": cfg.FuncGetWidth()})
		r.jitter()
	})
	r.log(obj{"e": "reg"})
	var rd, wr sync.WaitGroup
	rd.Add(1)
	go func() {
		defer rd.Done()
		defer close(r.readDone)
		ends, i := 0, 0
		for ends < 3 {
			r.jitter()
			b := make([]byte, r.st.Reads[i%len(r.st.Reads)])
			i++
			n, err := cfg.Stdin.Read(b)
			r.log(obj{"e": "re", "t": bytesOf(b[:n]), "err": errName(err)})
			// and what is known by then
			w, t := cfg.FuncGetWidth(), 0
			if cfg.FuncIsTerminal() {
				t = 1
			}
			r.log(obj{"e": "know", "w": w, "t": t})
			atomic.AddInt64(&r.consumed, int64(n))
			if err != nil {
				ends++
			}
		}
	}()
	id := int64(0)
	c := int64(0)
	for _, cs := range r.st.Calls {
		wr.Add(1)
		go func(cs []rcall) {
			defer wr.Done()
			for _, x := range cs {
				r.jitter()
				i := atomic.AddInt64(&id, 1)
				var b []byte
				if x.K == 0 {
					b = make([]byte, x.N)
					for i := range b {
						b[i] = byte(atomic.AddInt64(&c, 1))
					}
				}
				t := bytesOf(b)
				r.log(obj{"e": "cb", "id": i, "k": x.K, "t": t})
				n, err := 0, error(nil)
				switch {
				case x.K == 4:
					err = cfg.FuncMakeRaw()
				case x.K == 5:
					err = cfg.FuncExitRaw()
				case i%2 == 0:
					n, err = cfg.Stderr.Write(b)
				default:
					n, err = cfg.Stdout.Write(b)
				}
				r.log(obj{"e": "ce", "id": i, "n": n, "err": errName(err)})
				for i := range b {
					b[i] = 255
				}
			}
		}(cs)
	}
	go func() {
		rd.Wait()
		wr.Wait()
		r.once.Do(func() { close(r.failed) })
	}()
	if r.st.Close >= 0 {
		for int(atomic.LoadInt64(&r.progress)) < r.st.Close {
			select {
			case <-r.scripted:
			case <-r.failed:
			default:
				time.Sleep(20 * time.Microsecond)
				continue
			}
			break
		}
		r.jitter()
		r.log(obj{"e": "close"})
		cfg.Stdin.Close()
	}
	rd.Wait()
	wr.Wait()
	<-r.scripted
	r.log(obj{"e": "close"})
	rs.Close()
	// it is too late
	r.log(obj{"e": "cb", "id": 100000, "k": 0, "t": []int{7}})
	n, err := rs.Write([]byte{7})
	r.log(obj{"e": "ce", "id": 100000, "n": n, "err": errName(err)})
}

// source is what is typed at the client
type source struct {
	r    *remoteRun
	i, c int
	over chan struct{}
}

func (s *source) Read(p []byte) (n int, err error) {
	r := s.r
	r.log(obj{"e": "sb"})
	r.jitter()
	if s.i >= len(r.st.Source) {
		if r.st.Held {
			<-s.over
			n = 1
			p[0] = 'z'
			r.log(obj{"e": "src", "t": bytesOf(p[:n]), "err": ""})
			return n, nil
		}
		r.log(obj{"e": "src", "t": []int{}, "err": "EOF"})
		return 0, io.EOF
	}
	x := r.st.Source[s.i]
	s.i++
	if x.Winch > 0 && !r.gone() {
		n := atomic.LoadInt64(&r.widths)
		r.setWidth(x.Winch)
		syscall.Kill(os.Getpid(), syscall.SIGWINCH)
		// it is reported some time, if the connection lives
		for atomic.LoadInt64(&r.widths) == n && !r.gone() {
			time.Sleep(30 * time.Microsecond)
		}
	}
	for n < x.N && n < len(p) {
		p[n] = byte(s.c)
		s.c++
		n++
	}
	switch x.Err {
	case 1:
		err = io.EOF
	case 2:
		err = errors.New("no more")
	}
	r.log(obj{"e": "src", "t": bytesOf(p[:n]), "err": errName(err)})
	return n, err
}

// gone tells that the session is over
func (r *remoteRun) gone() bool {
	select {
	case <-r.failed:
	case <-r.readDone:
	default:
		return false
	}
	return true
}

func (r *remoteRun) setWidth(w int) {
	r.log(obj{"e": "window", "n": w})
	ws := [4]uint16{24, uint16(w), 0, 0}
	if err := ioctl(r.out.master, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))); err != nil && !r.gone() {
		panic(err)
	}
}

const outEnd = "\x00<end>\x00"

func (r *remoteRun) terminals() (orig syscall.Termios) {
	var err error
	if r.tty, err = openPty(); err != nil {
		panic(err)
	}
	if r.out, err = openPtyAt(1); err != nil {
		panic(err)
	}
	t := r.out.get()
	t.Oflag &^= syscall.OPOST
	r.out.set(&t)
	orig = r.tty.get()
	r.setWidth(r.st.Width)
	return orig
}

func (r *remoteRun) client(orig syscall.Termios) {
	defer r.tty.close()
	defer r.out.closeAt(1)
	printed := make(chan struct{})
	go func() {
		defer close(printed)
		p := make([]byte, 4096)
		var b []byte
		for {
			n, err := syscall.Read(r.out.master, p)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || n <= 0 {
				return
			}
			b = append(b, p[:n]...)
			k := len(b)
			end := false
			if i := bytes.Index(b, []byte(outEnd)); i >= 0 {
				k, end = i, true
			} else if i := bytes.IndexByte(b, 0); i >= 0 {
				k = i
			}
			if k > 0 {
				r.log(obj{"e": "printed", "t": bytesOf(b[:k])})
				atomic.AddInt64(&r.consumed, int64(k))
				b = b[k:]
			}
			if end {
				return
			}
		}
	}()
	cli, err := readline.NewRemoteCli(r.conn)
	if err != nil {
		panic(err)
	}
	term := 1
	if r.st.Term >= 0 {
		term = r.st.Term
		cli.MarkIsTerminal(term == 1)
	}
	r.log(obj{"e": "term", "n": term})
	s := &source{r: r, over: make(chan struct{})}
	err = cli.ServeBy(s)
	close(r.readDone)
	raw := r.isRaw() || !r.isRaw() && r.tty.get() != orig
	syscall.Write(1, []byte(outEnd))
	<-printed
	r.log(obj{"e": "end", "raw": raw})
	r.conn.Close()
	close(s.over)
	<-r.scripted
	if r.st.Held {
		// the client may find out now that there is nobody any more
		time.Sleep(2 * time.Millisecond)
	}
}

func openPtyAt(fd int) (*pty, error) {
	// openPty puts it at 0
	keep, err := syscall.Dup(0)
	if err != nil {
		return nil, err
	}
	defer syscall.Close(keep)
	p, err := openPty()
	if err != nil {
		return nil, err
	}
	if err := syscall.Dup3(keep, 0, 0); err != nil {
		return nil, err
	}
	return p, syscall.Dup3(p.slave, fd, 0)
}

func (p *pty) closeAt(n int) {
	if fd, err := syscall.Open("/dev/null", syscall.O_RDWR, 0); err == nil {
		syscall.Dup3(fd, n, 0)
		syscall.Close(fd)
	}
	syscall.Close(p.slave)
	syscall.Close(p.master)
}

func runRemote(t *task) (interface{}, bool) {
	r := &remoteRun{st: &remoteTask{}, readDone: make(chan struct{}), scripted: make(chan struct{}), failed: make(chan struct{}), gotEOF: make(chan struct{})}
	if err := json.Unmarshal(t.Data, r.st); err != nil {
		panic(err)
	}
	r.rnd = rand.New(rand.NewSource(r.st.Seed))
	if r.st.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(r.st.Procs))
	}
	r.up, r.down = newHalf(1<<20), newHalf(r.st.Cap)
	r.conn = &memConn{r: r, in: r.up, out: r.down}
	var orig syscall.Termios
	if r.st.Client {
		orig = r.terminals()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		go r.peer()
		if !r.st.Deaf {
			go r.drain()
		}
		if r.st.Client {
			r.client(orig)
		} else {
			r.server()
		}
	}()
	if !watch(done, time.Duration(t.Ms)*time.Millisecond, func() int64 { return atomic.LoadInt64(&r.progress) }) {
		r.mu.Lock()
		n := len(r.ev)
		if n > 12 {
			n = 12
		}
		b, _ := json.Marshal(r.ev[len(r.ev)-n:])
		fmt.Fprintf(os.Stderr, "hangs after %s\n", b)
		return nil, false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.over = true
	return obj{"id": t.ID, "client": r.st.Client, "ev": r.ev}, true
}

// ---- generation ----

func send(b []byte) peerAct { return peerAct{"send", bytesOf(b)} }

var oddFrames = [][]byte{
	{0, 0, 0, 0}, {0, 0, 0, 1, 0}, {0xff, 0xff, 0xff, 0xff, 0, 0}, {0x80, 0, 0, 0, 0, 0, 'x'}, {0, 0, 0, 1, 0, 0, 0, 0, 0, 3, 0, 0, 'q'},
	{0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0x7f, 0xff, 0xff, 0xff, 0, 0, 1, 2, 3}, {0, 1, 0, 0, 0, 0, 'a', 'b'},
	{'G', 'E', 'T', ' ', '/', ' ', 'H', 'T', 'T', 'P'}, {0, 0, 0}, {0, 0, 0, 2, 0}, {0, 0, 0, 9, 0, 0, 1},
}

func randomRemote(r *rand.Rand) *remoteTask {
	s := &remoteTask{Seed: r.Int63n(1 << 40), Frag: []int{1, 2, 3, 7, 64, 5000}[r.Intn(6)], Cap: 1 << 20, Close: -1, Term: -1}
	if chance(r, 3) {
		s.Procs = 1 + r.Intn(3)
	}
	c := 0
	data := func() []byte {
		n := []int{0, 1, 1, 2, 3, 5, 20, 60}[r.Intn(8)]
		if chance(r, 40) {
			n = 4090 + r.Intn(20)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c%255 + 1)
			c++
		}
		return b
	}
	width := func() []byte { return []byte{byte(r.Intn(3)), byte(r.Intn(256))} }
	add := func(b []byte) {
		if n := len(s.Script); n > 0 && s.Script[n-1].A == "send" && chance(r, 2) {
			s.Script[n-1].T = append(s.Script[n-1].T, bytesOf(b)...)
			return
		}
		s.Script = append(s.Script, send(b))
	}
	// greeting
	greeted := true
	switch r.Intn(20) {
	case 0:
		add(frame(2, width()))
		greeted = false
	case 1:
		add(frame(3, []byte{0, 1}))
		add(frame(0, []byte("x")))
		greeted = false
	case 2:
		add(oddFrames[r.Intn(len(oddFrames))])
		greeted = false
	case 3:
		add(frame(3, []byte{0, 1}))
		add(oddFrames[r.Intn(len(oddFrames))])
		greeted = false
	case 4:
		add(frame(3, []byte{0}))
		add(frame(2, []byte{}))
	default:
		add(frame(3, []byte{0, byte(r.Intn(2))}))
		add(frame(2, width()))
	}
	if greeted {
		for i := r.Intn(10); i > 0; i-- {
			switch k := r.Intn(20); {
			case k < 11:
				add(frame(0, data()))
			case k < 14:
				add(frame(2, width()))
			case k < 15:
				add(frame(3, []byte{byte(r.Intn(2)), byte(r.Intn(2))}))
			case k < 18:
				s.Script = append(s.Script, peerAct{A: "sync"})
			case k < 19:
				add(frame([]int{1, 4, 5, 7, 300, 0x8000, 0xffff}[r.Intn(7)], data()))
			default:
				add(frame(2+r.Intn(2), []byte("\x01")[:r.Intn(2)]))
			}
		}
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		s.Reads = append(s.Reads, []int{1, 2, 3, 10, 64, 4096}[r.Intn(6)])
	}
	for i := r.Intn(3); i > 0; i-- {
		var cs []rcall
		for j := 1 + r.Intn(8); j > 0; j-- {
			cs = append(cs, rcall{[]int{0, 0, 0, 0, 4, 5}[r.Intn(6)], []int{0, 1, 2, 5, 30, 200}[r.Intn(6)]})
		}
		s.Calls = append(s.Calls, cs)
	}
	if len(s.Calls) > 0 && chance(r, 6) {
		s.Fail = 1 + r.Intn(100)
	}
	if chance(r, 6) {
		s.Deaf, s.Cap = true, 1+r.Intn(40)
	} else if chance(r, 2) {
		s.Cap = 1 + r.Intn(40)
	}
	end := []string{"eof", "eof", "close", "abort", "odd", "eofclose", "wait"}[r.Intn(7)]
	if !greeted && chance(r, 2) {
		end = "close"
	}
	switch end {
	case "eof":
		add(frame(6, nil))
		if chance(r, 4) {
			add(frame(0, data()))
		}
		if s.Deaf {
			s.Close = 1000000
		}
	case "eofclose":
		add(frame(6, nil))
		s.Script = append(s.Script, peerAct{A: "close"})
	case "odd":
		add(oddFrames[r.Intn(len(oddFrames))])
		s.Script = append(s.Script, peerAct{A: "close"})
	case "wait":
		s.Close = 1000000
	default:
		s.Script = append(s.Script, peerAct{A: end})
	}
	if !greeted && end != "close" && end != "abort" {
		s.Script = append(s.Script, peerAct{A: "close"})
	}
	if chance(r, 4) {
		s.Close = r.Intn(40)
	}
	return s
}

func randomRemoteClient(r *rand.Rand) *remoteTask {
	s := &remoteTask{Client: true, Seed: r.Int63n(1 << 40), Frag: []int{1, 2, 3, 7, 64, 5000}[r.Intn(6)], Cap: 1 << 20, Close: -1,
		Term: r.Intn(3) - 1, Width: 1 + r.Intn(300)}
	if chance(r, 3) {
		s.Procs = 1 + r.Intn(3)
	}
	c := 0
	data := func() []byte {
		b := make([]byte, []int{0, 1, 1, 2, 3, 5, 20, 60}[r.Intn(8)])
		for i := range b {
			b[i] = byte(c%255 + 1)
			c++
		}
		return b
	}
	add := func(b []byte) {
		if n := len(s.Script); n > 0 && s.Script[n-1].A == "send" && chance(r, 2) {
			s.Script[n-1].T = append(s.Script[n-1].T, bytesOf(b)...)
			return
		}
		s.Script = append(s.Script, send(b))
	}
	raw := 4
	for i := r.Intn(12); i > 0; i-- {
		switch k := r.Intn(20); {
		case k < 10:
			add(frame(0, data()))
		case k < 14:
			add(frame(raw, nil))
			raw = 9 - raw
		case k < 15 && raw == 4:
			add(frame(5, nil))
		case k < 19:
			s.Script = append(s.Script, peerAct{A: "sync"})
		default:
			add(frame([]int{1, 2, 3, 6, 7, 300, 0x8000, 0xffff}[r.Intn(8)], data()))
		}
	}
	for i := r.Intn(8); i > 0; i-- {
		x := src{N: []int{1, 1, 2, 5, 30, 300}[r.Intn(6)]}
		if chance(r, 6) {
			x.Err = 1
		}
		if chance(r, 12) {
			x.Err = 2
		}
		if chance(r, 4) {
			x.Winch = 1 + r.Intn(300)
		}
		s.Source = append(s.Source, x)
	}
	s.Held = chance(r, 3)
	if chance(r, 6) {
		s.Fail = 1 + r.Intn(60)
	}
	if chance(r, 2) {
		s.Cap = 1 + r.Intn(40)
	}
	end := []string{"wait", "close", "abort", "odd"}[r.Intn(4)]
	if s.Held && end == "wait" {
		end = "close"
	}
	switch end {
	case "odd":
		add(oddFrames[r.Intn(len(oddFrames))])
		s.Script = append(s.Script, peerAct{A: "close"})
	case "wait":
		s.Script = append(s.Script, peerAct{A: "wait"}, peerAct{A: "close"})
	default:
		s.Script = append(s.Script, peerAct{A: end})
	}
	return s
}

func (c *check) remotes(name string, n int, gen func(r *rand.Rand) *remoteTask) {
	r := rand.New(rand.NewSource(seed()*7919 + int64(len(name))*17))
	var tasks []*task
	byID := map[string]interface{}{}
	for i := 0; i < n; i++ {
		s := gen(r)
		b, err := json.Marshal(s)
		must(err)
		id := fmt.Sprintf("%s-%d", name, i)
		tasks = append(tasks, &task{Kind: "remote", ID: id, Data: b})
		byID[id] = obj{"remote": s}
	}
	c.runAndValidate("RemoteTrace", tasks, byID)
	c.sample(byID[tasks[0].ID])
}

func checkC20(c *check) {
	c.assume = append(c.assume, "the connection keeps the contract of net.Conn and the order of the bytes")
	if c.tier == "thorough" {
		c.modelFaults("RemoteMC", "EofFirst", "NoWake", "NoStop", "Panic")
		c.modelFaultsOf("RemoteMC", "RemoteMCW", "NoStopW")
		c.model("RemoteMC.tla", "RemoteMCDeep.cfg", nil)
	}
	c.model("RemoteMC.tla", "RemoteMC.cfg", nil)
	c.model("RemoteMC.tla", "RemoteMCW.cfg", nil)
	c.remotes("server", c.pickN(2000, 40000), randomRemote)
	c.remotes("client", c.pickN(1000, 20000), randomRemoteClient)
	c.nets(c.pickN(300, 4000))
}

// serversOwn is a Config that was made for the server's own terminal
func serversOwn(cfg *readline.Config) {
	cfg.Stdin = io.NopCloser(strings.NewReader("not the client\r"))
	cfg.Stdout, cfg.Stderr = discard{}, discard{}
	cfg.FuncGetWidth = func() int { return 7 }
	cfg.FuncIsTerminal = func() bool { return false }
	cfg.FuncMakeRaw = func() error { return io.ErrClosedPipe }
	cfg.FuncExitRaw = func() error { return io.ErrClosedPipe }
	cfg.FuncOnWidthChanged = func(f func()) {}
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
func (discard) Close() error                { return nil }
