package main

import (
	"math/rand"
	"strings"
)

var checks map[string]func(c *check)

func init() {
	checks = map[string]func(c *check){
		"C01": func(c *check) { c.conform(append(c.explore(profEdit(c)), genC01(c)...)) },
		"C02": func(c *check) { c.conform(append(c.explore(profKill(c)), genC02(c)...)) },
		"C03": func(c *check) { c.conform(genC03(c)) },
		"C04": func(c *check) { c.conform(genC04(c)) },
		"C05": func(c *check) {
			c.conform(append(append(c.explore(profVim(c)), c.explore(profVimNav(c))...), genC05(c)...))
		},
		"C06": func(c *check) { c.conform(append(c.explore(profNav(c)), genC06(c)...)) },
		"C07": func(c *check) { c.conform(append(c.explore(profRec(c)), genC07(c)...)) },
		"C08": func(c *check) { c.conform(genC08(c)) },
		"C10": func(c *check) { c.conform(append(c.explore(profFind(c)), genC10(c)...)) },
		"C11": func(c *check) { c.conform(append(c.explore(profComp(c)), genC11(c)...)) },
		"C12": checkC12,
		"C09": checkC09,
		"C13": func(c *check) {
			scs := genC13(c)
			var plain, screen []*Scenario
			for i, sc := range scs {
				if i%2 == 0 && sc.Cfgs[0].Mark {
					screen = append(screen, sc)
				} else {
					plain = append(plain, sc)
				}
			}
			c.conform(plain)
			c.conformScreen(screen)
		},
		"C14": checkC14,
		"C15": checkC15,
		"C16": checkC16,
		"C17": checkC17, "C21": checkC21, "C22": checkC22,
		"C23": func(c *check) { c.conform(genC23(c)) },
		"C20": checkC20,
		"C18": func(c *check) { c.conformScreen(genC18(c)) },
		"C19": func(c *check) { c.conformScreen(genC19(c)) },
		"C24": func(c *check) { c.conform(genC24(c)) },
		"C25": func(c *check) { c.conform(genC25(c)) },
		"C26": func(c *check) { c.conform(genC26(c)) },
		"C27": func(c *check) { c.conform(genC27(c)) },
		"C28": checkC28,
		"C29": checkC29,
		"C30": checkC30,
	}
}

var profiles = map[string]func(c *check) profile{"edit": profEdit, "kill": profKill, "vim": profVim, "vimnav": profVimNav, "nav": profNav,
	"rec": profRec, "find": profFind, "comp": profComp}

func chance(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

func genC01(c *check) []*Scenario {
	m := mLetters.times(3).with(mUni.times(2), mMove.times(2), mDel.times(2), mTrans.times(3), mEnter, mOdd)
	return randomEdits("edit", c.pickN(2500, 40000), m, 40, nil)
}

func genC02(c *check) []*Scenario {
	m := mLetters.times(3).with(mUni, mMove, mDel, mKill.times(3), mYank.times(4), mEnter, mTrans)
	return randomEdits("kill", c.pickN(2500, 40000), m, 50, func(r *rand.Rand, sc *Scenario) {
		if chance(r, 4) { // also in later lines and with history
			in := makeInput(r, m.with(mHist.times(2)), 50)
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
	})
}

func genC03(c *check) []*Scenario {
	m := mLetters.times(2).with(mUni, mMove, mDel, mEnd.times(6), mKill, mHist, mTab)
	return randomEdits("end", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Unique = chance(r, 3)
		cfg.Auto = !chance(r, 5)
		cfg.IntP = []string{"", "\n", "^C", "x\ny", "世"}[r.Intn(5)]
		cfg.EofP = []string{"", "\n", "^D", "bye"}[r.Intn(4)]
		if chance(r, 6) {
			cfg.Mask, cfg.Paint = true, ""
			cfg.Mrune = []int{0, '*', '世'}[r.Intn(3)]
		}
		if chance(r, 8) {
			cfg.Paint = "upper"
		}
		for i := range sc.Steps {
			switch r.Intn(6) {
			case 3:
				sc.Steps[i].F = "runes"
			case 0:
				sc.Steps[i].F = "default"
				sc.Steps[i].T = str([]string{"", "abc", "a b", "世界"}[r.Intn(4)])
			case 1:
				sc.Steps[i].F = "line"
			case 2:
				sc.Steps[i].F = "slice"
			}
		}
	})
}

func genC04(c *check) []*Scenario {
	m := mLetters.with(mUni.times(2), mMove.times(2), mDel, mSeq.times(2), mHist, mEnter)
	out := randomEdits("dec", c.pickN(1500, 30000), m, 40, func(r *rand.Rand, sc *Scenario) {
		if chance(r, 4) {
			sc.Cfgs[0].Vim = true
		}
	})
	// the same input in different pieces
	r := rand.New(rand.NewSource(seed()))
	for i := 0; i < c.pickN(120, 3000); i++ {
		in := makeInput(r, m, 30)
		for j := 0; j < 6; j++ {
			cfg := baseCfg()
			cfg.Lis = "log"
			sc := &Scenario{ID: sprintf("split-%d-%d", i, j), Cfgs: []*Cfg{cfg}, EOF: true, Steps: readlines(enders(in) + 2)}
			sc.Chunks = split(r, in, false)
			out = append(out, sc)
		}
	}
	return out
}

func genC05(c *check) []*Scenario {
	m := mLetters.with(mEsc.times(12), mVimN.times(4), mEnd, mDel, mMove, mKill)
	return randomEdits("vim", c.pickN(3000, 50000), m, 50, func(r *rand.Rand, sc *Scenario) {
		sc.Cfgs[0].Vim = true
		if chance(r, 2) {
			// a line, then normal mode
			in := makeInput(r, mLetters, 1+r.Intn(12)) + "\x1b" + makeInput(r, mVimN.times(3).with(mEsc), 12) + "\r" +
				makeInput(r, m, 20)
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
		if chance(r, 5) { // history and search from vi mode
			in := makeInput(r, m.with(mHist.times(3), mFind.times(2), mEnter.times(2)), 60)
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
	})
}

func historyInput(r *rand.Rand, m mix, lines int) string {
	var b strings.Builder
	words := []string{"a", "ab", "b", "abc", "Ab b", "c", "aab", ""}
	for i := 0; i < lines; i++ {
		b.WriteString(words[r.Intn(len(words))])
		b.WriteString("\r")
	}
	return b.String() + makeInput(r, m, 5+r.Intn(40))
}

func genC06(c *check) []*Scenario {
	m := mLetters.with(mHist.times(6), mMove, mDel, mTrans, mKill, mYank, mEnd.times(2))
	return randomEdits("nav", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		in := historyInput(r, m, r.Intn(6))
		sc.Cfgs[0].Limit = []int{500, 500, 3, 5}[r.Intn(4)]
		if chance(r, 5) {
			sc.Cfgs[0].Vim = true
			in = historyInput(r, m.with(mEsc.times(4), mVimN, mix{{4, "k"}, {4, "j"}}), r.Intn(6))
		}
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
		if chance(r, 4) {
			for i := range sc.Steps {
				if chance(r, 3) {
					sc.Steps[i].F = "default"
					sc.Steps[i].T = str("de f")
				}
			}
		}
	})
}

// between puts calls of the program between the lines
func between(r *rand.Rand, steps []Step, often int, mk func() Step) []Step {
	var out []Step
	for _, s := range steps {
		for chance(r, often) {
			out = append(out, mk())
		}
		out = append(out, s)
	}
	return out
}

func genC07(c *check) []*Scenario {
	m := mLetters.with(mHist.times(4), mEnd.times(5), mDel, mKill)
	return randomEdits("rec", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Limit = []int{500, 1, 2, 3, 4, -1, -2}[r.Intn(7)]
		cfg.Auto = !chance(r, 4)
		in := historyInput(r, m, r.Intn(8)) + ctrl('P') + ctrl('P') + ctrl('P') + ctrl('P') + "\r"
		sc.Chunks = split(r, in, false)
		words := []string{"a", "ab", "b", "", "x y", " a"}
		sc.Steps = between(r, readlines(enders(in)+2), 4, func() Step {
			switch r.Intn(6) {
			case 0, 1, 2:
				return Step{F: "save", T: str(words[r.Intn(len(words))])}
			case 3:
				return Step{F: "reset"}
			default:
				return Step{F: "enable", B: chance(r, 2)}
			}
		})
	})
}

func genC08(c *check) []*Scenario {
	m := mLetters.with(mHist.times(3), mEnd.times(4), mDel)
	return randomEdits("file", c.pickN(1500, 20000), m, 30, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Limit = []int{500, 1, 2, 3, 5, -1}[r.Intn(6)]
		cfg.Path = []string{"h1", "h1", "h1", ""}[r.Intn(4)]
		cfg.Auto = !chance(r, 6)
		file := func() string {
			var b strings.Builder
			ws := []string{"one", "two", "  three ", "", "four 4", "\t", "fünf", "one", "世界"}
			for i := r.Intn(7); i > 0; i-- {
				b.WriteString(ws[r.Intn(len(ws))] + []string{"\n", "\n", "\n", "\r\n"}[r.Intn(4)])
			}
			if chance(r, 3) {
				b.WriteString([]string{"last", " ", "x y"}[r.Intn(3)])
			}
			return b.String()
		}
		sc.Disk = map[string]string{"h1": file(), "h2": file(), "no/h": ""}
		if chance(r, 10) {
			cfg.Path = "no/h"
		}
		pw := passwordCfg("pw: ")
		other := baseCfg()
		*other = *cfg
		other.Path = []string{"h1", "h2", ""}[r.Intn(3)]
		other.Limit = []int{500, 2}[r.Intn(2)]
		third := baseCfg()
		*third = *cfg
		sc.Cfgs = append(sc.Cfgs, pw, other, third)
		in := historyInput(r, m, r.Intn(6)) + ctrl('P') + ctrl('P') + "\r"
		sc.Chunks = split(r, in, false)
		words := []string{"a", "ab", "", "x y", " a"}
		sc.Steps = between(r, readlines(enders(in)+2), 4, func() Step {
			switch r.Intn(9) {
			case 0, 1:
				return Step{F: "save", T: str(words[r.Intn(len(words))])}
			case 2:
				return Step{F: "reset"}
			case 3:
				return Step{F: "enable", B: chance(r, 2)}
			case 4:
				return Step{F: "path", Path: []string{"h1", "h2", "", "h1", "h2", "no/h"}[r.Intn(6)]}
			case 5:
				return Step{F: "password", CI: 2}
			case 6:
				return Step{F: "setcfg", CI: []int{1, 3}[r.Intn(2)]}
			case 7:
				in := historyInput(r, m, r.Intn(4)) + ctrl('P') + "\r"
				return Step{F: "restart", CI: []int{1, 3, 4}[r.Intn(3)], Chunks: split(r, in, false), EOF: true}
			default:
				return Step{F: "disk", Path: "h2", T: str(file())}
			}
		})
		for i := 0; i < 3; i++ {
			sc.Steps = append(sc.Steps, Step{F: "restart", CI: 1, Chunks: chunk1(ctrl('P') + ctrl('P') + "\rz\r"), EOF: true},
				Step{F: "readline"}, Step{F: "readline"})
		}
	})
}

func genC10(c *check) []*Scenario {
	m := mLetters.times(2).with(mFind.times(8), mHist, mMove, mDel.times(2), mEnd, mix{{3, ctrl('G')}, {2, ctrl('C')}, {2, "\r"}})
	return randomEdits("find", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		sc.Cfgs[0].Fold = chance(r, 2)
		sc.Cfgs[0].Width = []int{80, 20, 7, 0}[r.Intn(4)]
		sc.Cfgs[0].Limit = []int{500, 500, 4}[r.Intn(3)]
		in := historyInput(r, m, 1+r.Intn(7))
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
	})
}

func genC11(c *check) []*Scenario {
	m := mLetters.with(mTab.times(40), mMove, mHist, mDel.times(2), mEnd, mix{{3, ctrl('G')}, {2, ctrl('K')}, {3, "\r"}})
	return randomEdits("comp", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Width = []int{80, 40, 20, 10, 5, 1}[r.Intn(6)]
		cands := [][]string{{"a", "b"}, {"abc"}, {"abc", "abd"}, {}, {"", "x"}, {"a", "b", "c", "d", "e"},
			{"aa ", "bb ", "ccc ", "d ", "e ", "f ", "g "}, {"世界", "世", "b"}, {"x", "x"}, {"a"}, {"verylongcandidate", "b", "c"}}
		if cfg.Mark {
			cfg.Comp = "log"
			switch r.Intn(2) {
			case 0:
				cfg.Words = []string{"a", "ab", "abc", "b", "ba", "cab", "cb", "Aa"}
				if chance(r, 3) {
					cfg.Words = []string{"abc ", "abd ", "bcc "}
				}
			default:
				for i := 0; i < 5; i++ {
					a := CompAns{Off: r.Intn(3), Cands: [][]int{}}
					for _, s := range cands[r.Intn(len(cands))] {
						a.Cands = append(a.Cands, str(s))
					}
					cfg.Script = append(cfg.Script, a)
				}
			}
		} else {
			cfg.Comp = "fix"
			for _, s := range cands[r.Intn(len(cands))] {
				cfg.Cands = append(cfg.Cands, str(s))
			}
		}
		if chance(r, 6) {
			cfg.Comp = "tab"
		}
		if chance(r, 2) {
			var b strings.Builder
			for i := 0; i < 4; i++ {
				b.WriteString(makeInput(r, mLetters, r.Intn(4)) + "\t\t" + makeInput(r, mix{{3, "\t"}, {2, ctrl('F')}, {2, ctrl('B')},
					{2, ctrl('N')}, {2, ctrl('P')}, {1, ctrl('A')}, {1, ctrl('E')}}, r.Intn(8)))
				b.WriteString([]string{"\r", ctrl('G'), ctrl('C'), "x", "\x7f", "\n", ctrl('K')}[r.Intn(7)])
			}
			in := b.String() + "\r"
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
	})
}

func genC13(c *check) []*Scenario {
	m := mLetters.with(mUni, mMove, mDel, mKill, mYank.times(2), mHist.times(2), mFind, mTab.times(2), mEnd.times(4))
	return randomEdits("pw", c.pickN(2000, 30000), m, 40, func(r *rand.Rand, sc *Scenario) {
		sc.Disk = map[string]string{"h1": "one\ntwo\n"}
		cfg := sc.Cfgs[0]
		cfg.Path = []string{"", "h1"}[r.Intn(2)]
		cfg.Limit = []int{500, 2, -1}[r.Intn(3)]
		cfg.Auto = !chance(r, 4)
		cfg.Vim = chance(r, 5)
		if chance(r, 5) {
			cfg.Mask, cfg.Mrune, cfg.Paint = true, '#', ""
		}
		pw := passwordCfg("pw: ")
		pw2 := passwordCfg("PW> ")
		pw2.Mark = cfg.Mark || chance(r, 2)
		pw2.Mrune = []int{0, '*', '世'}[r.Intn(3)]
		pw2.Keep = chance(r, 2)
		if pw2.Mark && chance(r, 3) {
			pw2.Lis = "log"
		}
		sc.Cfgs = append(sc.Cfgs, pw, pw2)
		in := historyInput(r, m, r.Intn(3))
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
		for i := range sc.Steps {
			switch r.Intn(4) {
			case 0:
				sc.Steps[i] = Step{F: "password", CI: 2}
			case 1:
				sc.Steps[i] = Step{F: "passcfg", CI: 3}
			}
		}
	})
}

func lisScript(r *rand.Rand) []LisAns {
	var out []LisAns
	for i := 1 + r.Intn(6); i > 0; i-- {
		a := LisAns{OK: chance(r, 3), Kind: []string{"", "", "upper", "append", "same"}[r.Intn(5)]}
		switch a.Kind {
		case "append":
			a.Line = str("z")
		default:
			a.Line = str([]string{"", "abc", "x 世"}[r.Intn(3)])
			a.Pos = r.Intn(len(a.Line) + 1)
		}
		out = append(out, a)
	}
	return out
}

func genC24(c *check) []*Scenario {
	m := mLetters.times(2).with(mUni, mMove, mDel, mTrans, mKill, mYank, mHist, mFind, mTab.times(2), mOdd, mEnd)
	return randomEdits("lis", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Lis = "log"
		cfg.Mark = true
		if cfg.Paint == "" {
			cfg.Paint = "log"
		}
		cfg.LisScript = lisScript(r)
		if chance(r, 2) {
			cfg.Comp = "log"
			cfg.Words = []string{"a", "ab", "b", "cc"}
		}
		cfg.Vim = chance(r, 8)
		if cfg.Vim {
			in := makeInput(r, m.with(mEsc.times(4), mVimN), 40)
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
		if chance(r, 8) {
			pw := passwordCfg("pw: ")
			pw.Mark, pw.Lis, pw.LisScript = true, "log", lisScript(r)
			sc.Cfgs = append(sc.Cfgs, pw)
			for i := range sc.Steps {
				if chance(r, 2) {
					sc.Steps[i] = Step{F: "passcfg", CI: 2}
				}
			}
		} else if chance(r, 8) { // which keys there were only the listener tells
			pw := passwordCfg("pw: ")
			pw.Lis, pw.LisScript = "log", lisScript(r)
			sc.Cfgs = append(sc.Cfgs, pw)
			for i := range sc.Steps {
				if chance(r, 2) {
					sc.Steps[i] = Step{F: "passex", CI: 2}
				}
			}
		}
	})
}

func genC25(c *check) []*Scenario {
	m := mLetters.times(2).with(mMove, mDel, mTrans, mKill, mYank, mHist, mFind, mTab.times(2), mEnd.times(4))
	keys := []int{'a', 'b', 'c', 'A', ' ', '7', 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 16, 18, 19, 20, 21, 23, 25, 127, -1, -2, -3, -4, '世', 27}
	return randomEdits("filt", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		for i := 1 + r.Intn(5); i > 0; i-- {
			f := []int{keys[r.Intn(len(keys))], keys[r.Intn(len(keys))], 1}
			if chance(r, 3) {
				f[2] = 0
			}
			if chance(r, 3) { // of or to a key that ends the line
				ends := []int{3, 4, 10, 13}
				f[r.Intn(2)] = ends[r.Intn(4)]
			}
			cfg.Filt = append(cfg.Filt, f)
		}
		if chance(r, 2) {
			cfg.Comp = "log"
			cfg.Words = []string{"a", "ab", "b", "cc"}
		}
		if !cfg.Mark {
			cfg.Comp = "tab"
		}
		cfg.Vim = chance(r, 5)
		in := makeInput(r, m, 40)
		if cfg.Vim {
			in = makeInput(r, m.with(mEsc.times(4), mVimN), 40)
		}
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(len([]rune(in)) + 2)
	})
}

func genC26(c *check) []*Scenario {
	m := mLetters.times(2).with(mUni, mMove, mDel, mTrans.times(3), mKill, mYank, mHist.times(2), mFind, mTab.times(12), mEnter.times(2), mix{{4, ctrl('F')}})
	return randomEdits("share", c.pickN(2000, 30000), m, 60, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		cfg.Mark, cfg.Paint, cfg.Lis = true, "log", "log"
		cfg.LisScript = lisScript(r)
		cfg.Comp = "log"
		cfg.Words = [][]string{{"abc", "abd"}, {"a", "b", "ab"}, {"abc"}, {"a ", "ba ", "c "}}[r.Intn(4)]
		if chance(r, 3) {
			cfg.Comp = "fix"
			cfg.Cands = [][]int{str("abc"), str("abd")}
			if chance(r, 2) {
				cfg.Cands = [][]int{str("abc")}
			}
		}
		if chance(r, 4) {
			cfg.Vim = true
			in := makeInput(r, m.with(mEsc.times(4), mVimN), 50)
			sc.Chunks = split(r, in, false)
			sc.Steps = readlines(enders(in) + 2)
		}
		words := []string{"a", "ab", "x y", "abc"}
		sc.Steps = between(r, sc.Steps, 4, func() Step { return Step{F: "save", T: str(words[r.Intn(len(words))])} })
		for i := range sc.Steps {
			if sc.Steps[i].F == "readline" && chance(r, 3) {
				sc.Steps[i] = Step{F: "default", T: str("de f")}
			} else if sc.Steps[i].F == "readline" && chance(r, 2) {
				sc.Steps[i].F = "runes"
			}
		}
	})
}

func genC27(c *check) []*Scenario {
	m := mLetters.times(2).with(mMove, mDel, mKill, mYank, mHist.times(2), mFind, mTab.times(2), mEnd.times(3), mEsc, mVimN)
	return randomEdits("set", c.pickN(2500, 40000), m, 40, func(r *rand.Rand, sc *Scenario) {
		sc.Disk = map[string]string{"h1": "one\ntwo\n", "h2": "three\n"}
		base := sc.Cfgs[0]
		base.Path = []string{"", "h1"}[r.Intn(2)]
		for i := 0; i < 2; i++ {
			o := baseCfg()
			o.Mark, o.Lis, o.Paint = base.Mark, base.Lis, base.Paint
			o.Path = []string{"", "h1", "h2"}[r.Intn(3)]
			o.Vim = chance(r, 3)
			o.Auto = !chance(r, 4)
			o.Limit = []int{500, 2, -1}[r.Intn(3)]
			o.Fold = chance(r, 2)
			o.Unique = chance(r, 4)
			o.Prompt = str([]string{"$ ", ">> ", "世 "}[r.Intn(3)])
			if chance(r, 5) {
				o.Mask, o.Mrune, o.Paint = true, '*', ""
				o.Limit = 500
			}
			if base.Mark && chance(r, 3) {
				o.Filt = [][]int{{'a', 'b', 1}, {'c', 'c', 0}}
			}
			if base.Mark && chance(r, 3) {
				o.Comp = "log"
				o.Words = []string{"a", "ab", "bb"}
			}
			sc.Cfgs = append(sc.Cfgs, o)
		}
		in := makeInput(r, m, 50)
		sc.Chunks = split(r, in, true)
		ahead := !base.Vim && !sc.Cfgs[1].Vim && !sc.Cfgs[2].Vim // what is read ahead is read the same way
		any := func(mid bool) Step {
			for {
				switch r.Intn(11) {
				case 9, 10:
					return Step{F: "setbuf", T: str([]string{"", "new text", "世界"}[r.Intn(3)])}
				case 0:
					return Step{F: "prompt", T: str([]string{"# ", "", "p"}[r.Intn(3)])}
				case 1:
					return Step{F: "mask", N: []int{0, '*', 'x'}[r.Intn(3)]}
				case 2:
					if mid || ahead { // the terminal may be a key ahead
						continue
					}
					return Step{F: "vim", B: chance(r, 2)}
				case 3:
					return Step{F: "isvim"}
				case 4:
					return Step{F: "enable", B: chance(r, 2)}
				case 5, 6: // the terminal may be a key ahead
					if !mid || ahead {
						return Step{F: "setcfg", CI: 1 + r.Intn(3)}
					}
				case 7:
					return Step{F: "path", Path: []string{"", "h1", "h2"}[r.Intn(3)]}
				case 8:
					if !mid {
						return Step{F: "stdin", T: str([]string{"ab", "x\r", "世"}[r.Intn(3)])}
					}
				}
			}
		}
		steps := readlines(enders(in) + 4)
		sc.Steps = between(r, steps, 3, func() Step { return any(false) })
		if base.Mark && chance(r, 2) {
			sc.Inj = map[int][]Step{}
			for i := 0; i < 3; i++ {
				k := r.Intn(20)
				sc.Inj[k] = append(sc.Inj[k], any(true))
			}
		}
	})
}

var mShown = mix{{2, "é"}, {3, "世"}, {2, "e\u0301"}, {2, "界"}, {3, anyWidth}}

func screenCfg(r *rand.Rand, c *Cfg) {
	c.Mark = true
	c.Width = []int{2, 3, 4, 5, 7, 8, 10, 12, 20, 40, 80}[r.Intn(11)]
	c.Prompt = str([]string{"> ", "", "世界> ", "\x1b[31mred\x1b[0m ", "a rather long prompt of 33 cells> ", "é\u0301 ",
		"\x1b[1;32m世\x1b[0m", "one\n> "}[r.Intn(8)])
	c.Lis = []string{"none", "log"}[r.Intn(2)]
	c.Unique = chance(r, 5)
	c.IntP = []string{"", "\n", "^C", "世", "xyz"}[r.Intn(5)]
	c.EofP = []string{"", "\n", "^D", "bye"}[r.Intn(4)]
	switch r.Intn(6) {
	case 0:
		c.Paint = ""
	case 1:
		c.Paint = "upper"
	case 2:
		c.Mask, c.Paint = true, ""
		c.Mrune = []int{0, '*', '世'}[r.Intn(3)]
	default:
		c.Paint = "log"
	}
}

func genC18(c *check) []*Scenario {
	m := mLetters.times(3).with(mShown, mMove, mDel, mTrans, mKill, mYank.times(2), mHist, mFind, mTab.times(3), mEnd, mix{{1, ctrl('L')}, {1, ctrl('G')}})
	return randomEdits("scr", c.pickN(2000, 20000), m, 40, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		screenCfg(r, cfg)
		sc.Above = []string{"", "above\n", "one\ntwo\n\nthree and more\n"}[r.Intn(3)]
		in := makeInput(r, m, 40)
		if chance(r, 4) {
			in = historyInput(r, m, r.Intn(5))
		}
		if chance(r, 6) {
			cfg.Vim = true
			in = strings.ReplaceAll(makeInput(r, m.with(mEsc.times(4), mVimN), 40), "r\x1b", "ra")
			in = strings.ReplaceAll(strings.ReplaceAll(in, "r\x03", "ra"), "\x04", "")
		}
		if chance(r, 3) {
			cfg.Comp = "log"
			cfg.Words = [][]string{{"abc", "abd", "b", "bcc", "cab"}, {"a世", "a界", "世界", "世", "b"}, {"a", "b", "c", "ab", "ac", "bb", "a7", "verylong word"}}[r.Intn(3)]
		}
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
		if chance(r, 5) {
			pw := passwordCfg("pw: ")
			screenCfg(r, pw)
			pw.Unique, pw.Paint, pw.Mask, pw.IntP, pw.EofP = false, "", true, "\n", "\n"
			pw.Width = cfg.Width
			sc.Cfgs = append(sc.Cfgs, pw)
			for i := range sc.Steps {
				if chance(r, 3) {
					sc.Steps[i] = Step{F: "passcfg", CI: 2}
				}
			}
		}
		for i := range sc.Steps {
			if sc.Steps[i].F == "readline" && chance(r, 6) {
				sc.Steps[i] = Step{F: "default", T: str([]string{"", "de f", "世界 a long default text"}[r.Intn(3)])}
			}
		}
		title := func() Step { return Step{F: "title", T: str([]string{"", "a title", "世界; 2"}[r.Intn(3)])} }
		sc.Steps = between(r, sc.Steps, 12, title)
		if chance(r, 8) {
			sc.Inj = map[int][]Step{r.Intn(20): {title()}, r.Intn(20): {title()}, r.Intn(20): {{F: "refresh"}}}
		}
		sc.Steps = between(r, sc.Steps, 12, func() Step {
			return Step{F: "prompt", T: str([]string{"# ", "", "longer prompt than most "}[r.Intn(3)])}
		})
		width := func() Step { return Step{F: "width", N: []int{2, 5, 8, 12, 33, 80}[r.Intn(6)]} }
		if len(sc.Cfgs) == 1 && chance(r, 6) { // another config for a while
			other := baseCfg()
			*other = *cfg
			other.Prompt = str([]string{"$ ", "", "世界 $ "}[r.Intn(3)])
			other.Fold, other.Vim = chance(r, 2), cfg.Vim
			sc.Cfgs = append(sc.Cfgs, other)
			sc.Steps = between(r, sc.Steps, 3, func() Step {
				if chance(r, 3) {
					return width()
				}
				return Step{F: "setcfg", CI: 1 + r.Intn(2)}
			})
		} else if len(sc.Cfgs) == 1 && chance(r, 3) {
			sc.Steps = between(r, sc.Steps, 2, width)
		}
		if chance(r, 4) {
			cfg.Early = []int{1, 3, 9, 33, 200}[r.Intn(5)]
		}
	})
}

func genC19(c *check) []*Scenario {
	m := mLetters.times(3).with(mShown, mMove, mDel, mKill, mYank, mHist, mFind, mTab.times(2), mEnd)
	return randomEdits("out", c.pickN(2000, 20000), m, 30, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		screenCfg(r, cfg)
		sc.Above = []string{"", "above\n"}[r.Intn(2)]
		sc.Late = chance(r, 2)
		if chance(r, 3) {
			cfg.Comp = "log"
			cfg.Words = []string{"abc", "abd", "b", "bcc", "cab"}
		}
		in := makeInput(r, m, 30)
		sc.Chunks = split(r, in, false)
		w := func() Step {
			var b strings.Builder
			for i := 1 + r.Intn(2); i > 0; i-- {
				b.WriteString([]string{"", "out", "text 世界 text", "0123456789abcdef0123456789", "x y"}[r.Intn(5)] + "\n")
			}
			return Step{F: "write", T: str(b.String()), N: r.Intn(3)}
		}
		sc.Steps = between(r, readlines(enders(in)+2), 4, w)
		sc.Inj = map[int][]Step{}
		for i := 0; i < 5; i++ {
			k := r.Intn(25)
			switch r.Intn(5) {
			case 0: // what it prints itself between Clean and Refresh
				sc.Inj[k] = append(sc.Inj[k], Step{F: "clean"}, Step{F: "raw", T: w().T}, Step{F: "refresh"})
			case 1:
				sc.Inj[k] = append(sc.Inj[k], [][]Step{{{F: "clean"}, {F: "refresh"}}, {{F: "refresh"}}, {{F: "clean"}, w()},
					{{F: "clean"}, {F: "clean"}, {F: "refresh"}, {F: "refresh"}}}[r.Intn(4)]...)
			default:
				sc.Inj[k] = append(sc.Inj[k], w())
			}
		}
		if chance(r, 3) {
			rc := &Race{At: r.Intn(6), Len: 1 + r.Intn(12)}
			for i := 1 + r.Intn(4); i > 0; i-- {
				var ts []string
				for j := 1 + r.Intn(5); j > 0; j-- {
					ts = append(ts, sprintf("<%d.%d%s>\n", i, j, []string{"", "", "\nand", " a longer text 世界"}[r.Intn(4)]))
				}
				rc.Texts = append(rc.Texts, ts)
			}
			sc.Race = rc
			sc.Inj = nil
		}
	})
}

func profEdit(c *check) profile {
	return profile{name: "edit", cfg: baseCfg(), maxlen: c.pickN(3, 5), maxkill: c.pickN(1, 1), lines: 1, max: c.pickN(4000, 100000),
		keys: []string{"a", " ", "b", ctrl('A'), ctrl('E'), "\x1b[D", ctrl('F'), "\x1bb", "\x1bf", ctrl('D'), "\x7f", ctrl('T'), "\r"}}
}

func profKill(c *check) profile {
	return profile{name: "kill", cfg: baseCfg(), maxlen: c.pickN(3, 4), maxkill: c.pickN(3, 4), lines: 1, max: c.pickN(3000, 100000),
		keys: []string{"a", " ", ctrl('A'), ctrl('B'), ctrl('K'), ctrl('U'), ctrl('W'), "\x1bd", ctrl('D'), ctrl('Y'), "\r"}}
}

func profVim(c *check) profile {
	cfg := baseCfg()
	cfg.Vim = true
	return profile{name: "vim", cfg: cfg, letters: "a ", maxlen: c.pickN(3, 5), maxkill: c.pickN(2, 3), lines: 1, max: c.pickN(4000, 100000),
		keys: []string{"a", " ", "\x1b", "h", "l", "0", "$", "w", "b", "e", "x", "ra", "dd", "dw", "dh", "dl", "p",
			"fa", "Fa", "ta", "Ta", "i", "I", "A", "s", "S", "cw", "ch", "\r", ctrl('C')}}
}

func profVimNav(c *check) profile {
	cfg := baseCfg()
	cfg.Vim = true
	return profile{name: "vimnav", cfg: cfg, pre: "a\rb\r", letters: "ab", maxlen: 2, maxkill: c.pickN(0, 1), dirty: c.pickN(1, 2), lines: 1, max: c.pickN(2000, 100000),
		keys: []string{"a", "\x1b", "h", "x", "k", "j", "p", "A", "dd", "\r", ctrl('P'), ctrl('R')}}
}

func profNav(c *check) profile {
	return profile{name: "nav", cfg: baseCfg(), pre: "a\rbc\r", maxlen: 3, lines: 1, dirty: c.pickN(1, 3), max: c.pickN(4000, 100000),
		keys: []string{"x", ctrl('P'), ctrl('N'), ctrl('B'), "\x7f", "\r", ctrl('C')}}
}

func profRec(c *check) profile {
	cfg := baseCfg()
	cfg.Limit = 2
	return profile{name: "rec", cfg: cfg, maxlen: 2, dirty: c.pickN(1, 3), lines: c.pickN(4, 5), max: c.pickN(4000, 100000),
		keys: []string{"a", "b", ctrl('P'), ctrl('N'), "\r", ctrl('C'), ctrl('D')}}
}

func profFind(c *check) profile {
	return profile{name: "find", cfg: baseCfg(), pre: "ab\rba\rab b\r", maxlen: 3, maxdata: 2, lines: 1, dirty: c.pickN(0, 1), max: c.pickN(4000, 100000),
		keys: []string{"a", "b", ctrl('R'), ctrl('S'), "\x7f", ctrl('G'), ctrl('C'), ctrl('P'), "\r"}}
}

func profComp(c *check) profile {
	cfg := baseCfg()
	cfg.Comp = "fix"
	cfg.Cands = [][]int{str("a"), str("b"), str(""), str("cd"), str("a")}
	cfg.Width = 9
	return profile{name: "comp", cfg: cfg, maxlen: c.pickN(2, 4), lines: 1, maxkill: 1, max: c.pickN(4000, 100000),
		keys: []string{"x", "\t", ctrl('F'), ctrl('B'), ctrl('N'), ctrl('P'), ctrl('A'), ctrl('E'), ctrl('G'), ctrl('C'), "\x7f", ctrl('K'), "\r"}}
}

var mWild = mLetters.with(mUni, mMove, mDel, mKill, mYank, mTrans, mHist.times(2), mFind.times(3), mTab.times(6), mSeq.times(2), mEsc.times(3), mVimN, mEnd.times(2),
	mix{{2, ctrl('L')}, {3, ctrl('G')}, {20, anyCtrl}})

var mMenu = mix{{16, "\t"}, {3, "a"}, {5, ctrl('N')}, {5, ctrl('P')}, {2, ctrl('F')}, {5, ctrl('B')}, {2, ctrl('A')}, {2, ctrl('E')}, {4, "\r"}, {2, ctrl('C')}, {1, ctrl('G')}, {1, "\x7f"}, {1, ctrl('U')}}

// genC23 is for anything that could make the editor crash or hang
func genC23(c *check) []*Scenario {
	return randomEdits("wild", c.pickN(4000, 60000), mWild, 60, func(r *rand.Rand, sc *Scenario) {
		cfg := sc.Cfgs[0]
		widths := []int{-1000, -1, 0, 1, 2, 3, 4, 5, 7, 10, 17, 80, 80, 1000000}
		cfg.Width = widths[r.Intn(len(widths))]
		cfg.Vim = chance(r, 3)
		cfg.Unique = chance(r, 4)
		cfg.Fold = chance(r, 2)
		cfg.Auto = !chance(r, 6)
		cfg.Limit = []int{500, 1, 2, -1, -5}[r.Intn(5)]
		cfg.Prompt = str([]string{"> ", "", "\x1b", "\x1b[", "\x1b[31", "\n", "a\nb\n\n> ", "\t", "\x00", "\xff", "e\u0301\u0301", "\u0301",
			"世界世界世界", strings.Repeat("long ", 60), "\x1b[31m\x1b[0m", "\r> ", "\x1b]0;title\x07> "}[r.Intn(17)])
		cfg.IntP = []string{"", "\n", "^C", "世\n\n"}[r.Intn(4)]
		cfg.EofP = []string{"", "\n", "^D", "\x1b["}[r.Intn(4)]
		if chance(r, 6) {
			cfg.Mask, cfg.Paint = true, ""
			cfg.Mrune = []int{0, '*', '世', 0x301, '\n', 27}[r.Intn(6)]
		}
		word := func() []rune {
			return []rune([]string{"", "a", "ab", "abc", "世界", "\t", "a\nb", "\u0301", strings.Repeat("x", 100), "\x1b[31m", " ", "世" + strings.Repeat("界", 40)}[r.Intn(12)])
		}
		menu := cfg.Mark && chance(r, 4)
		if menu { // walk in menus of all sizes
			cfg.Width = []int{4, 7, 10, 17, 30, 80}[r.Intn(6)]
			sc.Chunks = split(r, makeInput(r, mMenu, 60), false)
			sc.Steps = readlines(enders(strings.Join(sc.Chunks, "")) + 2)
		}
		if cfg.Mark && (menu || chance(r, 2)) {
			cfg.Comp = "log"
			for i := 1 + r.Intn(8); i > 0; i-- {
				a := CompAns{Off: r.Intn(4), Cands: [][]int{}}
				if chance(r, 6) {
					a.Off = 200
				}
				n := r.Intn(6)
				if chance(r, 20) {
					n = 300
				}
				if menu {
					n = 2 + r.Intn(14)
				}
				for ; n > 0; n-- {
					a.Cands = append(a.Cands, ints(word()))
				}
				cfg.Script = append(cfg.Script, a)
			}
		}
		if chance(r, 2) {
			for i := range sc.Steps {
				switch r.Intn(5) {
				case 0:
					sc.Steps[i] = Step{F: "default", T: ints(word())}
				}
			}
		}
		w := func() Step { return Step{F: "width", N: widths[r.Intn(len(widths))]} }
		if chance(r, 2) {
			sc.Steps = between(r, sc.Steps, 3, w)
		}
		if cfg.Mark && chance(r, 2) {
			sc.Inj = map[int][]Step{}
			for i := 1 + r.Intn(6); i > 0; i-- {
				k := r.Intn(40)
				sc.Inj[k] = append(sc.Inj[k], w())
			}
		}
	})
}
