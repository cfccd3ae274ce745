package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/chzyer/readline"
)

// Ctrl-Z: worker -> shell -> program.  The shell leads a session with a pseudo
// terminal as its terminal, the program is its job in the foreground.

func runSusp(t *task) (interface{}, bool) {
	exe, err := os.Executable()
	must(err)
	t1 := *t
	t1.Kind = "susp1"
	b, err := json.Marshal(&t1)
	must(err)
	cmd := exec.Command(exe, "shell")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	runErr := cmd.Run()
	var a answer
	if err := json.Unmarshal(out.Bytes(), &a); err != nil {
		os.Stderr.Write(errs.Bytes())
		fmt.Fprintln(os.Stderr, runErr)
		os.Exit(2)
	}
	if a.Hang {
		os.Stderr.Write(errs.Bytes())
		return nil, false
	}
	return a.Trace, true
}

func getTermios(fd int) (t syscall.Termios) {
	if err := ioctl(fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err != nil {
		panic(err)
	}
	return t
}

// shellMain runs the program, and continues it whenever it has been stopped
func shellMain() {
	runtime.LockOSThread() // for Pdeathsig
	signal.Notify(make(chan os.Signal, 100), syscall.SIGTSTP)
	task, err := io.ReadAll(os.Stdin)
	must(err)
	p, err := openPty()
	must(err)
	must(ioctl(p.slave, syscall.TIOCSCTTY, 0))
	was := getTermios(p.slave)
	exe, err := os.Executable()
	must(err)
	ir, iw, err := os.Pipe()
	must(err)
	or, ow, err := os.Pipe()
	must(err)
	pid, err := syscall.ForkExec(exe, []string{exe, "worker"}, &syscall.ProcAttr{
		Env: os.Environ(), Files: []uintptr{ir.Fd(), ow.Fd(), 2, uintptr(p.slave)},
		Sys: &syscall.SysProcAttr{Setpgid: true, Foreground: true, Ctty: p.slave, Pdeathsig: syscall.SIGKILL}})
	must(err)
	ir.Close()
	ow.Close()
	ch := make(chan []byte, 1)
	go func() {
		iw.Write(task)
		iw.Close()
		b, _ := io.ReadAll(or)
		ch <- b
	}()
	stops := []bool{}
	for {
		var ws syscall.WaitStatus
		_, err := syscall.Wait4(pid, &ws, syscall.WUNTRACED, nil)
		if err == syscall.EINTR {
			continue
		}
		must(err)
		if !ws.Stopped() {
			break
		}
		// nothing changes while it is stopped
		ok := ws.StopSignal() == syscall.SIGTSTP && getTermios(p.slave) == was
		time.Sleep(250 * time.Millisecond)
		stops = append(stops, ok && getTermios(p.slave) == was)
		must(syscall.Kill(pid, syscall.SIGCONT))
	}
	var a answer
	b := <-ch
	if err := json.Unmarshal(b, &a); err != nil {
		os.Exit(2)
	}
	if !a.Hang {
		var tr Trace
		must(json.Unmarshal(a.Trace, &tr))
		tr.Ev = append(tr.Ev, obj{"e": "stops", "ok": stops, "left": getTermios(p.slave) == was})
		a.Trace, err = json.Marshal(&tr)
		must(err)
		b, err = json.Marshal(a)
		must(err)
	}
	os.Stdout.Write(b)
}

func runSusp1(t *task) (interface{}, bool) {
	var sc Scenario
	if err := json.Unmarshal(t.Data, &sc); err != nil {
		panic(err)
	}
	must(syscall.Dup3(3, 0, 0))
	return runScenario(&sc, time.Duration(t.Ms)*time.Millisecond)
}

// exitKey makes somebody send a signal
const exitKey = '\u2603'

func isRaw() bool { return getTermios(0).Lflag&(syscall.ICANON|syscall.ECHO) == 0 }

// the mode of the terminal is changed, and the output tells when
var rawMode readline.RawMode

func (r *runner) makeRaw() error {
	err := rawMode.Enter()
	r.mark(1)
	return err
}

func (r *runner) exitRaw() error {
	err := rawMode.Exit()
	r.mark(0)
	return err
}

func (r *runner) mark(n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sc.Screen && r.cur != nil {
		r.cur["out"] = append(r.cur["out"].([][]int), []int{12, n})
	}
}

func checkC30(c *check) {
	c.assume = append(c.assume, "a shell with job control that continues the program not sooner than 250 ms later")
	m := mLetters.times(3).with(mUni, mMove, mDel, mKill, mYank, mHist.times(2), mFind, mTab, mEnd.times(2), mix{{24, ctrl('Z')}})
	r := rand.New(rand.NewSource(seed() + 30))
	tasks := map[string][]*task{}
	byID := map[string]interface{}{}
	for i, n := 0, c.pickN(240, 4000); i < n; i++ {
		cfg := baseCfg()
		screenCfg(r, cfg)
		cfg.Paint = []string{"", "upper"}[r.Intn(2)]
		sc := &Scenario{ID: sprintf("susp-%d", i), Cfgs: []*Cfg{cfg}, Disk: map[string]string{}, EOF: true, Susp: true, Screen: true}
		sc.Above = []string{"", "above\n"}[r.Intn(2)]
		if chance(r, 4) {
			cfg.Vim = true
		}
		if chance(r, 3) {
			cfg.Comp = "log"
			cfg.Words = []string{"abc", "abd", "b", "bcc", "cab"}
		}
		var in string
		for {
			in = makeInput(r, m, 24)
			if k := strings.Count(in, ctrl('Z')); k > 0 && k < 5 {
				break
			}
		}
		if cfg.Vim { // a control character that replaces one is shown as it is
			in = strings.ReplaceAll(in, "r", "a")
		}
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
		if chance(r, 3) { // signals that do not end it
			sc.Steps = append([]Step{{F: "capturef"}}, sc.Steps...)
			for j := 1; j < len(sc.Steps); j += 1 + r.Intn(2) {
				st := Step{F: "signal", N: r.Intn(2)}
				if chance(r, 5) {
					st.F = "capturef"
				}
				sc.Steps = append(sc.Steps[:j], append([]Step{st}, sc.Steps[j:]...)...)
			}
		} else if chance(r, 4) { // ended by a signal
			sc.EOF, sc.Screen, cfg.Lis, cfg.Comp = false, false, "none", "tab"
			sc.Chunks = split(r, in+strings.Repeat(string(exitKey), 3), false)
			sc.Steps = append([]Step{{F: "capture"}}, sc.Steps...)
		}
		b, err := json.Marshal(sc)
		must(err)
		byID[sc.ID] = sc
		spec := "Trace"
		if sc.Screen {
			spec = "ScreenTrace"
		}
		tasks[spec] = append(tasks[spec], &task{Kind: "susp", ID: sc.ID, Data: b})
	}
	for _, spec := range []string{"Trace", "ScreenTrace"} {
		c.runAndValidate(spec, tasks[spec], byID)
	}
	c.sample(byID["susp-0"])
}
