package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

const tlcJars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

type tlcRun struct {
	generated, distinct int
	ok                  bool // TLC ended without any error
	violated            string
	prints              []string
	output              string
}

var reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found, (\d+) states left`)

// specDir is where the specification is
func specDir() string { return filepath.Join(verifDir(), "spec") }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// runTLC runs a module of the specification; onPrint gets what it prints.
func runTLC(module, cfg string, env []string, limit time.Duration, workers int, onPrint func(string), extra ...string) (*tlcRun, error) {
	meta, err := os.MkdirTemp(scratch(), "tlc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(meta)
	args := []string{"-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", tlcJars,
		"tlc2.TLC", "-workers", strconv.Itoa(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg}
	args = append(args, extra...)
	args = append(args, module)
	cmd := exec.Command("java", args...)
	cmd.Dir = specDir()
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer timer.Stop()
	r := &tlcRun{}
	sc := bufio.NewReaderSize(out, 1<<20)
	var keep strings.Builder
	for {
		line, err := sc.ReadString('\n')
		if line != "" {
			line = strings.TrimRight(line, "\n")
			// the specification prints strings
			if strings.HasPrefix(line, "\"") {
				if q, err := strconv.Unquote(line); err == nil {
					if onPrint != nil {
						onPrint(q)
					} else {
						r.prints = append(r.prints, q)
					}
				}
			} else {
				if m := reStates.FindStringSubmatch(line); m != nil {
					r.generated, _ = strconv.Atoi(m[1])
					r.distinct, _ = strconv.Atoi(m[2])
				}
				if strings.HasPrefix(line, "Error: Invariant ") || strings.HasPrefix(line, "Error: Action property ") ||
					strings.HasPrefix(line, "Error: Temporal propert") || strings.HasPrefix(line, "Error: Deadlock") {
					r.violated = line
				}
				if strings.Contains(line, "No error has been found") {
					r.ok = true
				}
				if keep.Len() < 1<<24 {
					keep.WriteString(line + "\n")
				}
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	r.output = keep.String()
	if werr != nil && r.violated == "" {
		return r, fmt.Errorf("TLC on %s: %v\n%s\n...\n%s", module, werr, firstLines(fromError(r.output), 30), tail(r.output, 10))
	}
	return r, nil
}

func tail(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// fromError is what TLC says from its first error on
func fromError(s string) string {
	if i := strings.Index(s, "Error: "); i >= 0 {
		return s[i:]
	}
	return s
}
