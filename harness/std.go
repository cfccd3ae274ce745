package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/chzyer/readline"
)

// There is one editor for the functions of the package in a process, so every
// scenario with them has a process of its own.
func runStd(t *task) (interface{}, bool) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	t1 := *t
	t1.Kind = "std1"
	b, err := json.Marshal(&t1)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "worker")
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	runErr := cmd.Run()
	var a answer
	if err := json.Unmarshal(out.Bytes(), &a); err != nil {
		os.Stderr.Write(errs.Bytes())
		fmt.Fprintln(os.Stderr, runErr)
		os.Exit(2)
	}
	if a.Hang {
		os.Stderr.Write(errs.Bytes())
		return nil, false
	}
	return a.Trace, true
}

func runStd1(t *task) (interface{}, bool) {
	var sc Scenario
	if err := json.Unmarshal(t.Data, &sc); err != nil {
		panic(err)
	}
	if sc.Std == "tty" {
		p, err := openPty()
		if err != nil {
			panic(err)
		}
		stdMaster = p.master
		setSize(sc.Cfgs[0].Width)
		if err := syscall.Dup3(p.slave, 1, 0); err != nil {
			panic(err)
		}
	}
	return runScenario(&sc, time.Duration(t.Ms)*time.Millisecond)
}

var (
	stdMaster int
	asked     int32
)

func setSize(width int) {
	ws := [4]uint16{24, uint16(width), 0, 0}
	if err := ioctl(stdMaster, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))); err != nil {
		panic(err)
	}
}

// tellWidth notes that the width was asked for
func tellWidth(c *readline.Config) {
	f := c.FuncGetWidth
	c.FuncGetWidth = func() int {
		w := f()
		atomic.AddInt32(&asked, 1)
		return w
	}
}

// resize gives the terminal another size and says so, as the system does; when
// the width is asked for the second time, the first signal has been dealt with
func resize(r *runner, width int) {
	setSize(width)
	for i := 0; i < 2; i++ {
		was := atomic.LoadInt32(&asked)
		syscall.Kill(os.Getpid(), syscall.SIGWINCH)
		for k := 0; k < 500 && atomic.LoadInt32(&asked) == was; k++ {
			time.Sleep(time.Duration(k/50) * time.Millisecond)
		}
	}
}

func (r *runner) stdAPI(s Step, e obj) {
	switch s.F {
	case "save":
		e["err"] = isErr(readline.AddHistory(stringOf(s.T)))
	case "path":
		readline.SetHistoryPath(r.path(s.Path))
	case "auto":
		if r.sc.Cfgs[s.CI-1].Comp == "tab" {
			readline.SetAutoComplete(&readline.TabCompleter{})
		} else {
			readline.SetAutoComplete(completer{r, s.CI - 1})
		}
	default:
		panic("harness: unknown step " + s.F)
	}
}

func checkC29(c *check) {
	m := mLetters.times(2).with(mUni, mMove, mDel, mKill, mYank, mHist.times(3), mFind, mTab.times(3), mEnd.times(4))
	r := rand.New(rand.NewSource(seed() + 29))
	tasks := map[string][]*task{}
	byID := map[string]interface{}{}
	for i, n := 0, c.pickN(1500, 20000); i < n; i++ {
		sc := &Scenario{ID: sprintf("std-%d", i), Disk: map[string]string{"h1": []string{"", "one\ntwo\n"}[r.Intn(2)], "h2": "three\n"}, EOF: true, Std: []string{"none", "tty", "tty"}[r.Intn(3)]}
		width := 80
		if sc.Std == "tty" && chance(r, 2) {
			sc.Screen, width = true, 16+r.Intn(30)
		}
		// the first is the one in use, the next four what SetAutoComplete is given
		for k := 0; k < 5; k++ {
			cfg := baseCfg()
			cfg.Auto, cfg.Mark, cfg.Paint, cfg.Width = false, false, "", width
			if sc.Std == "tty" && k > 1 {
				cfg.Comp = "fix"
				cfg.Cands = [][][]int{{str("xx"), str("xyz")}, {str("ab ")}, {str("a"), str("b"), str("cd")}}[k-2]
			}
			sc.Cfgs = append(sc.Cfgs, cfg)
		}
		sc.Cfgs = append(sc.Cfgs, passwordCfg("pw: "))
		if sc.Std == "none" {
			for _, cfg := range sc.Cfgs {
				cfg.Width = -1
			}
		}
		in := historyInput(r, m, r.Intn(3))
		sc.Chunks = split(r, in, false)
		sc.Steps = between(r, readlines(enders(in)+2), 2, func() Step {
			switch r.Intn(6) {
			case 0:
				return Step{F: "path", Path: []string{"", "h1", "h2"}[r.Intn(3)]}
			case 1, 2:
				return Step{F: "auto", CI: 2 + r.Intn(4)}
			}
			return Step{F: "save", T: str([]string{"a", "ab", "x y", "世", "one"}[r.Intn(5)])}
		})
		if sc.New = chance(r, 4); sc.New { // an instance of its own, on the same streams
			sc.Cfgs[0].Auto = true
			sc.Cfgs[0].Prompt = str([]string{"> ", "", "世> ", "% "}[r.Intn(4)])
			for k := range sc.Steps {
				st := &sc.Steps[k]
				switch {
				case sc.Screen && st.F != "readline" && chance(r, 3):
					*st = Step{F: "width", N: 12 + r.Intn(40)}
				case st.F == "auto":
					*st = []Step{{F: "prompt", T: str("$ ")}, {F: "vim", B: r.Intn(4) == 0}, {F: "isvim"}, {F: "reset"}, {F: "enable", B: r.Intn(3) > 0}, {F: "mask", N: '*'}}[r.Intn(6)]
				case st.F == "readline" && chance(r, 4):
					*st = []Step{{F: "default", T: str("de")}, {F: "line"}, {F: "runes"}, {F: "password", CI: 6}}[r.Intn(4)]
				}
			}
		}
		for k := range sc.Steps {
			if sc.New {
				break
			}
			if sc.Steps[k].F == "readline" && chance(r, 4) {
				sc.Steps[k] = Step{F: "password", CI: 6}
			} else if sc.Steps[k].F == "readline" {
				sc.Steps[k].T = str([]string{"> ", "", "世> "}[r.Intn(3)])
			}
		}
		b, err := json.Marshal(sc)
		must(err)
		byID[sc.ID] = sc
		spec := "Trace"
		if sc.Screen {
			spec = "ScreenTrace"
		}
		tasks[spec] = append(tasks[spec], &task{Kind: "std", ID: sc.ID, Data: b})
	}
	for _, spec := range []string{"Trace", "ScreenTrace"} {
		c.runAndValidate(spec, tasks[spec], byID)
	}
	c.sample(byID["std-0"])
}
