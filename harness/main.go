package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID [quick|thorough] | replay FILE [TIMES] | worker")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "shell":
		shellMain()
	case "try":
		// vh try: scenarios on stdin, traces on stdout
		var sc Scenario
		if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
			panic(err)
		}
		tr, ok := runScenario(&sc, 5e9)
		b, _ := json.Marshal(tr)
		fmt.Println(string(b), ok)
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		code := checkMain(os.Args[2], tier)
		if scratchDir != "" {
			os.RemoveAll(scratchDir)
		}
		os.Exit(code)
	case "explore":
		c := &check{tier: os.Getenv("VERIF_TIER"), cov: obj{}, knownN: map[string]bool{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println(e.(checkError).err)
				}
			}()
			for _, n := range os.Args[2:] {
				c.explore(profiles[n](c))
			}
		}()
		fmt.Println(c.cov)
		os.RemoveAll(scratchDir)
	default:
		os.Exit(2)
	}
}

// replay runs the scenario of a violation again
func replay(args []string) (code int) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string `json:"property"`
		Replay   struct {
			Scenario *Scenario `json:"scenario"`
		} `json:"replay"`
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Replay.Scenario == nil {
		fmt.Fprintln(os.Stderr, "no scenario in", args[0], err)
		return 2
	}
	n := 1
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	var scs []*Scenario
	for i := 0; i < n; i++ {
		sc := *f.Replay.Scenario
		sc.ID += "-" + strconv.Itoa(i)
		scs = append(scs, &sc)
	}
	c := &check{id: f.Property, cov: obj{}, knownN: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e.(checkError).err)
			code = 3
		}
		os.RemoveAll(scratchDir)
	}()
	if scs[0].Screen {
		c.conformScreen(scs)
	} else {
		c.conform(scs)
	}
	if c.viols > 0 {
		return 1
	}
	return 0
}
