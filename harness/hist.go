package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/chzyer/readline"
)

// histOp is an operation on a file of the directory that is watched.
type histOp struct {
	name, on string
	p        []byte
	do       func(p []byte) (int, error)
	handled  bool
	n        int
	err      error
}

// histSetup starts to report the operations below dir to op, or stops it
var histSetup func(dir string, op func(h *histOp))

// histQuiet does something unreported
var histQuiet = func(f func()) { f() }

type histAdd struct {
	T    string `json:"t"`
	Save bool   `json:"save"` // by SaveHistory
}

type histTask struct {
	File  *string   `json:"file"`
	Stale *string   `json:"stale"` // a temporary file that was left
	Limit int       `json:"limit"`
	How   int       `json:"how"` // the file is named: 0 at first, 1 by SetHistoryPath, 2 by SetConfig
	Adds  []histAdd `json:"adds"`
	Errs  []int     `json:"errs"` // what operations fail with
}

type histRun struct {
	ht    *histTask
	dir   string
	ev    []obj
	ops   int // operations so far
	fail  int // the one to fail, 0: none
	errno int
	short int // if it is a write, what is written still
	snaps map[string]map[string]string
	last  string // the content logged last
}

func (r *histRun) fileObj() (obj, string) {
	var b []byte
	var err error
	histQuiet(func() { b, err = os.ReadFile(filepath.Join(r.dir, "h")) })
	if err != nil {
		return obj{"has": false, "file": []int{}}, "-"
	}
	return obj{"has": true, "file": ints([]rune(string(b)))}, string(b)
}

func (r *histRun) log(e string, more obj) {
	f, _ := r.fileObj()
	f["e"] = e
	for k, v := range more {
		f[k] = v
	}
	r.ev = append(r.ev, f)
}

func (r *histRun) snapshot() {
	if _, t := r.fileObj(); t != r.last {
		r.log("sys", nil)
		r.last = t
	}
	files := map[string]string{}
	es, _ := os.ReadDir(r.dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(r.dir, e.Name()))
		files[e.Name()] = string(b)
	}
	b, _ := json.Marshal(files)
	r.snaps[string(b)] = files
}

func (r *histRun) op(h *histOp) {
	r.ops++
	if r.ops == r.fail {
		name := h.name
		r.ev = append(r.ev, obj{"e": "fault", "op": name, "on": h.on})
		if name == "write" && r.short > 0 && r.short < len(h.p) {
			h.n, _ = h.do(h.p[:r.short])
			r.snapshot()
			// the rest fails
			r.fail = r.ops + 1
			h.handled = true
			r.short = 0
			return
		}
		if name == "close" {
			h.do(nil)
		}
		h.handled, h.n, h.err = true, -1, syscall.Errno(r.errno)
		if name == "write" || name == "read" {
			h.n = 0
		}
		return
	}
	switch h.name {
	case "read":
		return
	case "write", "pwrite":
		h.handled = true
		k := 1
		if len(h.p) > 64 {
			k = len(h.p) / 16
		}
		if h.name == "pwrite" {
			k = len(h.p)
		}
		for len(h.p) > 0 {
			if k > len(h.p) {
				k = len(h.p)
			}
			n, err := h.do(h.p[:k])
			if err != nil {
				h.err = err
				return
			}
			h.n += n
			h.p = h.p[n:]
			r.snapshot()
		}
	case "fsync", "fchmod", "other", "pread":
		return
	default:
		h.handled = true
		h.n, h.err = h.do(nil)
		r.snapshot()
	}
}

// recaller is an input that is written to, and tells what Ctrl-P shows
type recaller struct {
	mu    sync.Mutex
	out   int // bells
	lines [][]int
	bells int
}

func (c *recaller) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out += strings.Count(string(p), "\a")
	return len(p), nil
}

func (c *recaller) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if key == readline.CharPrev {
		if c.out == c.bells {
			c.lines = append([][]int{ints(line)}, c.lines...)
		}
		c.bells = c.out
	}
	return nil, 0, false
}

func histConfig(in io.ReadCloser, c *recaller, path string, limit int) *readline.Config {
	return &readline.Config{
		Prompt: "> ", Stdin: in, Stdout: c, Stderr: c, Listener: c,
		HistoryFile: path, HistoryLimit: limit,
		FuncGetWidth: func() int { return 80 }, FuncIsTerminal: func() bool { return true },
		FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil },
		FuncOnWidthChanged: func(func()) {},
	}
}

const ups = 40

// limitOf is what a HistoryLimit stands for
func limitOf(n int) int {
	if n == 0 {
		return 500
	}
	return n
}

// one makes an instance, adds the lines and asks for the entries
func (r *histRun) one(files map[string]string, how int, adds []histAdd, after func(string, obj)) {
	pr, pw := io.Pipe()
	rec := &recaller{}
	path := filepath.Join(r.dir, "h")
	first := path
	if how != 0 {
		first = ""
	}
	cfg := histConfig(pr, rec, first, r.ht.Limit)
	rl, err := readline.NewEx(cfg)
	if err != nil {
		panic(err)
	}
	switch how {
	case 1:
		rl.SetHistoryPath(path)
	case 2:
		rl.SetConfig(histConfig(pr, rec, path, r.ht.Limit))
	}
	after("opened", nil)
	go func() {
		for _, a := range adds {
			if !a.Save {
				pw.Write([]byte(a.T + "\r"))
			}
		}
		pw.Write([]byte(strings.Repeat("\x10", ups) + "\x03"))
		pw.Close()
	}()
	for _, a := range adds {
		after("add", obj{"t": str(a.T)})
		if a.Save {
			err := rl.SaveHistory(a.T)
			after("added", obj{"how": "save", "err": err != nil, "ok": true})
		} else {
			line, err := rl.Readline()
			after("added", obj{"how": "enter", "err": false, "ok": err == nil && line == a.T})
		}
	}
	rec.mu.Lock()
	rec.lines, rec.bells = [][]int{}, rec.out
	rec.mu.Unlock()
	rl.Readline()
	rec.mu.Lock()
	got := rec.lines
	rec.mu.Unlock()
	after("recall", obj{"got": got})
	rl.Close()
}

func (r *histRun) fill(files map[string]string) {
	d, err := os.MkdirTemp("", "hist")
	if err != nil {
		panic(err)
	}
	r.dir = d
	for n, t := range files {
		if err := os.WriteFile(filepath.Join(d, n), []byte(t), 0600); err != nil {
			panic(err)
		}
	}
}

func runHist(t *task) (interface{}, bool) {
	var ht histTask
	if err := json.Unmarshal(t.Data, &ht); err != nil {
		panic(err)
	}
	done := make(chan obj, 1)
	go func() { done <- histAll(t.ID, &ht) }()
	select {
	case o := <-done:
		return o, true
	case <-time.After(time.Duration(t.Ms) * time.Millisecond * 6):
		return nil, false
	}
}

func histAll(id string, ht *histTask) obj {
	files := map[string]string{}
	orig := ""
	if ht.File != nil {
		files["h"] = *ht.File
		orig = *ht.File
	}
	if ht.Stale != nil {
		files["h.tmp"] = *ht.Stale
	}
	var ev []obj
	snaps := map[string]map[string]string{}
	run := func(fail, errno, short int) (ops int, hit bool) {
		r := &histRun{ht: ht, fail: fail, errno: errno, short: short, snaps: snaps}
		r.fill(files)
		defer os.RemoveAll(r.dir)
		_, r.last = r.fileObj()
		r.log("begin", obj{"limit": limitOf(ht.Limit)})
		histSetup(r.dir, r.op)
		r.one(files, ht.How, ht.Adds, func(e string, o obj) {
			if e == "recall" {
				histSetup("", nil)
				r.ev = append(r.ev, obj{"e": "recall", "got": o["got"], "orig": str(orig)})
				return
			}
			r.log(e, o)
		})
		ev = append(ev, r.ev...)
		for _, e := range r.ev {
			hit = hit || e["e"] == "fault"
		}
		return r.ops, hit
	}
	n, _ := run(0, 0, 0)
	for i := 1; i <= n; i++ {
		for _, e := range ht.Errs {
			run(i, e, 0)
			if e == int(syscall.ENOSPC) {
				run(i, e, 1)
				run(i, e, 2)
			}
		}
	}
	// a restart from every state the files were in
	crashes := 0
	for _, fs := range snaps {
		for _, lim := range []int{ht.Limit} {
			r := &histRun{ht: &histTask{Limit: lim}, snaps: snaps}
			r.fill(fs)
			f, _ := r.fileObj()
			o := obj{"e": "crash", "has": f["has"], "file": f["file"], "limit": limitOf(lim)}
			r.one(fs, 0, nil, func(e string, x obj) {
				if e == "recall" {
					o["got"] = x["got"]
				}
			})
			f, _ = r.fileObj()
			o["after"] = f["file"]
			os.RemoveAll(r.dir)
			ev = append(ev, o)
			crashes++
		}
	}
	return obj{"id": id, "ev": ev}
}

// buildHookWorker builds the harness with a syscall package that reports what is
// done to files
func buildHookWorker() string {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	src := filepath.Join(strings.TrimSpace(string(root)), "src/syscall/zsyscall_linux_amd64.go")
	b, err := os.ReadFile(src)
	must(err)
	s := string(b)
	calls := map[string]string{
		"openat":    `"open", -1, path, "", flags, nil`,
		"write":     `"write", fd, "", "", 0, p`,
		"read":      `"read", fd, "", "", 0, p`,
		"pwrite":    `"pwrite", fd, "", "", int(offset), p`,
		"pread":     `"pread", fd, "", "", int(offset), p`,
		"Close":     `"close", fd, "", "", 0, nil`,
		"Renameat":  `"rename", -1, oldpath, newpath, 0, nil`,
		"renameat2": `"rename", -1, oldpath, newpath, 0, nil`,
		"unlinkat":  `"unlink", -1, path, "", 0, nil`,
		"Ftruncate": `"ftruncate", fd, "", "", int(length), nil`,
		"Truncate":  `"truncate", -1, path, "", int(length), nil`,
		"Fsync":     `"fsync", fd, "", "", 0, nil`,
		"Fchmod":    `"fchmod", fd, "", "", 0, nil`,
		"fchmodat":  `"other", -1, path, "", 0, nil`,
		"linkat":    `"other", -1, newpath, "", 0, nil`,
	}
	re := regexp.MustCompile(`(?m)^func (\w+)\(.*\) \((?:(\w+) int, )?err error\) \{$`)
	hooked := 0
	s = re.ReplaceAllStringFunc(s, func(l string) string {
		m := re.FindStringSubmatch(l)
		args, ok := calls[m[1]]
		if !ok {
			return l
		}
		hooked++
		ret := "return e"
		if m[2] != "" {
			ret = "return n, e"
		}
		return l + "\n\tif VerifHook != nil {\n\t\tif h, n, e := VerifHook(" + args + "); h {\n\t\t\t_ = n\n\t\t\t" + ret + "\n\t\t}\n\t}\n"
	})
	if hooked < 10 {
		must(fmt.Errorf("only %d functions of %s could be hooked", hooked, src))
	}
	s += "\nvar VerifHook func(name string, fd int, path, path2 string, flags int, p []byte) (bool, int, error)\n"
	over := filepath.Join(scratch(), "zsyscall.go")
	must(os.WriteFile(over, []byte(s), 0644))
	ov, _ := json.Marshal(obj{"Replace": map[string]string{src: over}})
	ovf := filepath.Join(scratch(), "overlay.json")
	must(os.WriteFile(ovf, ov, 0644))
	exe := filepath.Join(scratch(), "vhh")
	cmd := exec.Command("go", "build", "-tags", "histhook", "-overlay", ovf, "-o", exe, ".")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		must(fmt.Errorf("building the worker with hooks: %v\n%s", err, out))
	}
	return exe
}

func checkC09(c *check) {
	workerExe = buildHookWorker()
	defer func() { workerExe = "" }()
	r := rand.New(rand.NewSource(seed()))
	var tasks []*task
	byID := map[string]interface{}{}
	add := func(ht *histTask) {
		id := sprintf("hist-%d", len(tasks))
		b, err := json.Marshal(ht)
		must(err)
		byID[id] = ht
		tasks = append(tasks, &task{Kind: "hist", ID: id, Data: b})
	}
	errs := []int{int(syscall.ENOSPC), int(syscall.EIO)}
	adds := [][]histAdd{
		{{"xx", true}, {"yy", false}},
		{{"yy", false}, {"xx", true}, {"zz", true}},
	}
	stale := "stale\nlines\n"
	// every file of a few characters
	max := c.pickN(5, 7)
	i := 0
	for _, f := range allLines("a\n ", max) {
		if !c.thorough() && len(f) == max && strings.Contains(f, " ") && r.Intn(4) > 0 {
			continue
		}
		for lim := 1; lim <= 3; lim++ {
			f := f
			ht := &histTask{File: &f, Limit: lim, How: i % 3, Adds: adds[i%2], Errs: errs[i%2 : i%2+1]}
			if i%4 == 0 {
				ht.Stale = &stale
			}
			i++
			add(ht)
		}
	}
	for _, lim := range []int{-1, 0, 1, 3, 500} {
		for how := 0; how < 3; how++ {
			f := "one\ntwo\nthree\nfour"
			add(&histTask{Limit: lim, How: how, Adds: adds[how%2], Errs: errs})
			add(&histTask{File: &f, Limit: lim, How: how, Adds: adds[how%2], Errs: errs, Stale: &stale})
		}
	}
	// long ones
	for i := 0; i < c.pickN(12, 60); i++ {
		var b strings.Builder
		n := 1 + r.Intn(c.pickN(60, 200))
		for j := 0; j < n; j++ {
			b.WriteString(strings.Repeat(" ", r.Intn(2)) + sprintf("line %d ", j) + strings.Repeat("世x", r.Intn(12)) + "\n" + strings.Repeat("\n", r.Intn(8)/7))
		}
		f := b.String()
		add(&histTask{File: &f, Limit: 1 + r.Intn(30), How: r.Intn(3), Adds: adds[r.Intn(2)], Errs: errs[:1]})
	}
	in, err := json.Marshal(obj{"lines": c.pickN(3, 4), "limit": 2, "adds": c.pickN(2, 3), "crashes": c.pickN(1, 2), "fails": c.pickN(2, 3)})
	must(err)
	c.model("HistFileMC.tla", "HistFileMC.cfg", in)
	c.runAndValidate("HistFileTrace", tasks, byID)
}
