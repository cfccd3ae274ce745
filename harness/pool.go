package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Each scenario runs in a worker process: it may crash or hang.

type task struct {
	Kind string          `json:"kind"` // which runner
	ID   string          `json:"id"`
	Data json.RawMessage `json:"data"`
	Ms   int             `json:"ms"` // no progress for so long is a hang
}

type answer struct {
	ID    string          `json:"id"`
	Trace json.RawMessage `json:"trace"`
	Hang  bool            `json:"hang"`
}

// kinds are the runners of scenarios; ok is false on a hang
var kinds = map[string]func(t *task) (trace interface{}, ok bool){
	"comp":   runCompleter,
	"hist":   runHist,
	"sess":   runSession,
	"stdin":  runStdin,
	"remote": runRemote,
	"net":    runNet,
	"tty":    runTty,
	"std":    runStd,
	"susp":   runSusp,
	"edit": func(t *task) (interface{}, bool) {
		var sc Scenario
		if err := json.Unmarshal(t.Data, &sc); err != nil {
			panic(err)
		}
		return runScenario(&sc, time.Duration(t.Ms)*time.Millisecond)
	},
}

func memoryLimit() {
	debug.SetGCPercent(200)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 1500<<20 {
				fmt.Fprintln(os.Stderr, "harness: runaway memory")
				os.Exit(97)
			}
		}
	}()
}

func workerMain() {
	memoryLimit()
	kinds["std1"] = runStd1
	kinds["susp1"] = runSusp1
	// the standard input and output are for the code under test
	in := bufio.NewReaderSize(keepFd(0), 1<<20)
	proto := keepFd(1)
	out := bufio.NewWriterSize(proto, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var t task
		if err := json.Unmarshal(line, &t); err != nil {
			panic(err)
		}
		tr, ok := kinds[t.Kind](&t)
		var b []byte
		if ok {
			b, err = json.Marshal(tr)
		} else {
			b = []byte("null")
		}
		if err != nil {
			panic(err)
		}
		ab, _ := json.Marshal(answer{ID: t.ID, Trace: b, Hang: !ok})
		out.Write(ab)
		out.WriteByte('\n')
		out.Flush()
		if !ok {
			os.Stderr.Write(stacks())
			os.Exit(98)
		}
	}
}

// keepFd moves a file descriptor out of the way
func keepFd(fd int) *os.File {
	n, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	syscall.CloseOnExec(n)
	null, err := syscall.Open("/dev/null", syscall.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup3(null, fd, 0); err != nil {
		panic(err)
	}
	syscall.Close(null)
	return os.NewFile(uintptr(n), "proto")
}

func stacks() []byte {
	b := make([]byte, 1<<18)
	return b[:runtime.Stack(b, true)]
}

type result struct {
	t     *task
	trace json.RawMessage
	crash bool
	hang  bool
	// the hang was seen from inside: the process ran, without any progress
	stalled bool
	stderr  string
}

// workerExe is another program to use for the workers
var workerExe string

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	dir    string
}

func startWorker() (*worker, error) {
	exe, err := workerExe, error(nil)
	if exe == "" {
		if exe, err = os.Executable(); err != nil {
			return nil, err
		}
	}
	w := &worker{stderr: &bytes.Buffer{}}
	w.dir, err = os.MkdirTemp(scratch(), "w")
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(exe, "worker")
	w.cmd.Env = append(os.Environ(), "TMPDIR="+w.dir, "HOME="+w.dir)
	w.cmd.Dir = w.dir
	w.cmd.Stderr = &limited{w.stderr}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.RemoveAll(w.dir)
}

func (w *worker) do(t *task, patience time.Duration) (r result, alive bool) {
	r.t = t
	b, _ := json.Marshal(t)
	type got struct {
		line []byte
		err  error
	}
	ch := make(chan got, 1)
	go func() {
		w.in.Write(append(b, '\n'))
		line, err := w.out.ReadBytes('\n')
		ch <- got{line, err}
	}()
	var g got
	select {
	case g = <-ch:
	case <-time.After(patience):
		w.cmd.Process.Kill()
		<-ch
		r.hang = true
		r.stderr = "no answer from the worker"
		return r, false
	}
	if g.err != nil {
		w.cmd.Wait()
		r.crash = true
		r.stderr = w.stderr.String()
		return r, false
	}
	var a answer
	if err := json.Unmarshal(g.line, &a); err != nil {
		r.crash = true
		r.stderr = err.Error()
		return r, false
	}
	r.trace = a.Trace
	r.hang, r.stalled = a.Hang, a.Hang
	if a.Hang {
		w.cmd.Wait()
		r.stderr = w.stderr.String()
	}
	return r, !a.Hang
}

// runTasks runs all of them; what crashes or hangs is tried again, alone, before
// it counts. After a few of those the rest is not run.
func runTasks(tasks []*task) (res []result, err error) {
	n := runtime.NumCPU()
	ch := make(chan *task)
	var mu sync.Mutex
	var bad []result
	var werr error
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for t := range ch {
				mu.Lock()
				skip := len(bad) >= 4 || werr != nil
				mu.Unlock()
				if skip {
					continue
				}
				if w == nil {
					var e error
					if w, e = startWorker(); e != nil {
						mu.Lock()
						werr = e
						mu.Unlock()
						continue
					}
				}
				ms := t.Ms
				if ms == 0 {
					t.Ms = 10000
				}
				r, alive := w.do(t, time.Duration(t.Ms)*time.Millisecond*20)
				mu.Lock()
				if r.crash || r.hang {
					bad = append(bad, r)
				} else {
					res = append(res, r)
				}
				mu.Unlock()
				if !alive {
					w.stop()
					w = nil
				}
			}
			if w != nil {
				w.stop()
			}
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
	if werr != nil {
		return nil, werr
	}
	for _, b := range bad {
		r, e := confirm(b)
		if e != nil {
			return nil, e
		}
		res = append(res, r)
		if r.crash || r.hang {
			// the rest of them would say the same
			break
		}
	}
	return res, nil
}

// confirm runs what crashed or hung again, alone
func confirm(b result) (r result, err error) {
	w, err := startWorker()
	if err != nil {
		return r, err
	}
	defer w.stop()
	t := *b.t
	r, alive := w.do(&t, time.Duration(t.Ms)*time.Millisecond*20)
	// it may depend on the schedule
	for i := 0; i < 40 && alive && !r.crash && !r.hang; i++ {
		r, alive = w.do(&t, time.Duration(t.Ms)*time.Millisecond*20)
	}
	r.t = b.t
	if r.crash || r.hang {
		return r, nil
	}
	if b.stalled || b.crash && strings.Contains(b.stderr, "harness: runaway memory") || b.crash && strings.Contains(b.stderr, "chzyer/readline.") && strings.Contains(b.stderr, "panic") {
		// nothing but the code can do that
		return b, nil
	}
	fmt.Fprintf(os.Stderr, "note: %s failed once (%s), not again\n", b.t.ID, firstLines(b.stderr, 3))
	return r, nil
}

// watch waits for done; it gives up when the process was given its turn for
// long enough without any progress of what it runs
func watch(done chan struct{}, limit time.Duration, progress func() int64) bool {
	const step = 50 * time.Millisecond
	t := time.NewTicker(step)
	defer t.Stop()
	last, quiet := int64(-1), time.Duration(0)
	for {
		select {
		case <-done:
			return true
		case <-t.C:
			p := progress()
			if p > 2000000 {
				return false
			}
			if p != last {
				last, quiet = p, 0
			} else if quiet += step; quiet > limit {
				return false
			}
		}
	}
}

func firstLines(s string, n int) string {
	i := 0
	for j := range s {
		if s[j] == '\n' {
			i++
			if i == n {
				return s[:j]
			}
		}
	}
	return s
}

var scratchDir string
var scratchOnce sync.Once

// scratch is a directory that is removed at the end
func scratch() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	})
	return scratchDir
}
