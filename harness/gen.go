package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// A choice is a weighted piece of input.
type choice struct {
	w int
	s string
}

type mix []choice

func (m mix) pick(r *rand.Rand) string {
	n := 0
	for _, c := range m {
		n += c.w
	}
	k := r.Intn(n)
	for _, c := range m {
		if k < c.w {
			switch c.s {
			case anyASCII:
				return string(rune(32 + r.Intn(95)))
			case anyRune:
				return string(anyRunes[r.Intn(len(anyRunes))] + rune(r.Intn(16)))
			case anyWidth:
				return string(anyWidths[r.Intn(len(anyWidths))])
			case anySeq:
				return randomSeq(r)
			case anyCtrl:
				for {
					if k := rune(1 + r.Intn(31)); k != 26 {
						return string(k)
					}
				}
			}
			return c.s
		}
		k -= c.w
	}
	return ""
}

// pieces that stand for any of a kind
const (
	anyASCII = "\ue000"
	anyRune  = "\ue001"
	anySeq   = "\ue002"
	anyCtrl  = "\ue003"
	anyWidth = "\ue004"
)

// of all kinds of width
var anyWidths = []rune{'は', 'ゝ', 'カ', 'ー', '한', 'ᄀ', '、', '「', '，', '（', '！', '￥', 'ｶ', 'ﾞ', 'ꀀ', '⼀', '豈', '𠀀', 0x303f, 0x3000, '☭', '½', 'ﷲ',
	0x20dd, 0x20e3, 0x488, 0x483, 0x591, 0x64b, 0x302a, 0x3099, 0xfe0f, 0xfe20, 0x200b, 0x200d, 0x2060, 0xfeff, 0x300, 0x36f}

var anyRunes = []rune{0xa1, 0x100, 0x391, 0x430, 0x5d0, 0x627, 0x905, 0x1e00, 0x2010, 0x2190, 0x2500, 0x3041, 0x4e00, 0x9f00, 0xac00,
	0xff21, 0x1f600, 0x20000, 0x10fff0, 0xe100, 0x300, 0x200b, 0xfff0}

// randomSeq is some escape sequence
func randomSeq(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return "\x1b" + string(rune(32+r.Intn(95)))
	case 1:
		return "\x1bO" + string(rune(65+r.Intn(26)))
	}
	var b strings.Builder
	b.WriteString("\x1b[")
	for i := r.Intn(5); i > 0; i-- {
		b.WriteByte("0123456789;3"[r.Intn(12)])
	}
	b.WriteRune(rune(60 + r.Intn(67)))
	return b.String()
}

func (m mix) with(o ...mix) mix {
	r := append(mix{}, m...)
	for _, x := range o {
		r = append(r, x...)
	}
	return r
}

func (m mix) times(k int) mix {
	r := append(mix{}, m...)
	for i := range r {
		r[i].w *= k
	}
	return r
}

func ctrl(c byte) string { return string(rune(c - '@')) }

var (
	mLetters = mix{{6, "a"}, {5, "b"}, {4, "c"}, {2, "A"}, {1, "7"}, {5, " "}, {1, "."}, {1, "-"}, {3, anyASCII}}
	mUni     = mix{{1, "é"}, {1, "世"}, {1, "e\u0301"}, {1, "😀"}, {1, anyRune}}
	mMove    = mix{{2, ctrl('A')}, {2, ctrl('E')}, {3, ctrl('B')}, {3, ctrl('F')}, {2, "\x1bb"}, {2, "\x1bf"},
		{2, "\x1b[D"}, {2, "\x1b[C"}, {1, "\x1bOD"}, {1, "\x1bOC"}, {1, "\x1b[H"}, {1, "\x1b[F"}, {1, "\x1bOH"}, {1, "\x1bOF"}}
	mDel   = mix{{2, "\x7f"}, {2, ctrl('H')}, {2, ctrl('D')}, {1, "\x1b[3~"}}
	mKill  = mix{{2, ctrl('K')}, {2, ctrl('U')}, {2, ctrl('W')}, {1, "\x1b\x7f"}, {2, "\x1bd"}}
	mYank  = mix{{2, ctrl('Y')}}
	mTrans = mix{{1, ctrl('T')}}
	mEnter = mix{{2, "\r"}, {1, "\n"}}
	mEnd   = mix{{2, "\r"}, {1, "\n"}, {1, ctrl('C')}, {1, ctrl('D')}}
	mOdd   = mix{{1, "\x1b\x14"}, {1, ctrl('L')}, {1, ctrl('G')}, {1, "\x1bx"}, {1, ctrl('\\')}, {1, ctrl('O')}}
	mHist  = mix{{3, ctrl('P')}, {3, ctrl('N')}, {2, "\x1b[A"}, {2, "\x1b[B"}, {1, "\x1bOA"}, {1, "\x1bOB"}}
	mFind  = mix{{3, ctrl('R')}, {3, ctrl('S')}}
	mTab   = mix{{1, "\t"}}
	mSeq   = mix{{1, "\x1b[5;7R"}, {1, "\x1b[1;2Z"}, {1, "\x1b[11~"}, {1, "\x1bOQ"}, {1, "\x1b[Z"}, {1, "\x1b\x1b"}, {1, "\x1b[;;9~"},
		{1, "\x1b[3A"}, {1, "\x1b[1;5C"}, {1, "\x00"}, {1, "\x1b\x00"}, {1, "\x1b[\x00"}, {1, "\x1bO5P"}, {1, "\x1b[2~"}, {1, "\x1b[33~"},
		{1, "\x1b[9R"}, {1, "\x1b[R"}, {1, "\x1b\x1b[C"}, {1, "\xff"}, {1, "\xc3"}, {4, anySeq}, {1, "\x1bé"}, {1, "\x1b["}, {1, "\x1bO"}, {1, "\x1b"}}
	mVimN = mix{{2, "h"}, {2, "l"}, {1, "0"}, {1, "^"}, {1, "$"}, {2, "w"}, {2, "b"}, {2, "e"}, {1, "W"}, {1, "B"}, {1, "E"},
		{1, "fa"}, {1, "Fa"}, {1, "tb"}, {1, "Tb"}, {1, "f "}, {1, "T "}, {1, "f\x1b"}, {1, "f"}, {2, "x"}, {1, "rz"}, {1, "r\x1b"}, {1, "r"},
		{1, "dd"}, {2, "dw"}, {1, "dh"}, {1, "dl"}, {1, "dz"}, {2, "p"}, {1, "j"}, {1, "k"},
		{1, "i"}, {1, "I"}, {1, "a"}, {1, "A"}, {1, "s"}, {1, "S"}, {1, "cc"}, {1, "cw"}, {1, "ch"}, {1, "cl"}, {1, "cz"}, {1, "u"}, {1, "Z"},
		{1, "d\r"}, {1, "c\x04"}, {1, "r\x03"}, {1, "t\n"}}
	mEsc = mix{{1, "\x1b"}}
)

// makeInput strings n pieces together
func makeInput(r *rand.Rand, m mix, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(m.pick(r))
	}
	return b.String()
}

// enders counts the characters that can end a line
func enders(s string) int {
	n := 0
	for _, c := range s {
		if c == 13 || c == 10 || c == 3 || c == 4 {
			n++
		}
	}
	return n
}

// split cuts s into what single reads return. Of a character (runes), of
// anything (bytes), or all at once.
func split(r *rand.Rand, s string, byRune bool) []string {
	var out []string
	switch r.Intn(3) {
	case 0:
		out = chunk1(s)
		if !byRune && r.Intn(2) == 0 {
			out = nil
			for i := range []byte(s) {
				out = append(out, s[i:i+1])
			}
		}
	case 1:
		if s != "" {
			out = []string{s}
		}
	default:
		if byRune {
			rs := []rune(s)
			for len(rs) > 0 {
				n := 1 + r.Intn(8)
				if n > len(rs) {
					n = len(rs)
				}
				out = append(out, string(rs[:n]))
				rs = rs[n:]
			}
		} else {
			for len(s) > 0 {
				n := 1 + r.Intn(8)
				if n > len(s) {
					n = len(s)
				}
				out = append(out, s[:n])
				s = s[n:]
			}
		}
	}
	if out == nil {
		out = []string{}
	}
	return out
}

// observe varies by what means the run is observed
func observe(r *rand.Rand, c *Cfg) {
	switch r.Intn(6) {
	case 0: // only what is returned
		c.Mark, c.Paint, c.Lis = false, "", "none"
	case 1:
		c.Paint = ""
		c.Lis = "log"
	case 2:
		c.Lis = "none"
	default:
		c.Lis = "log"
	}
}

func readlines(n int) []Step {
	s := make([]Step, n)
	for i := range s {
		s[i].F = "readline"
	}
	return s
}

// randomEdits makes scenarios of the pieces m.
func randomEdits(id string, n int, m mix, length int, tweak func(r *rand.Rand, sc *Scenario)) []*Scenario {
	r := rand.New(rand.NewSource(seed()*1000003 + int64(len(id))*7919 + hash(id)))
	var out []*Scenario
	for i := 0; i < n; i++ {
		c := baseCfg()
		observe(r, c)
		in := makeInput(r, m, 1+r.Intn(length))
		sc := &Scenario{ID: fmt.Sprintf("%s-%d", id, i), Cfgs: []*Cfg{c}, EOF: true}
		sc.Chunks = split(r, in, false)
		sc.Steps = readlines(enders(in) + 2)
		if tweak != nil {
			tweak(r, sc)
		}
		out = append(out, sc)
	}
	return out
}

func hash(s string) int64 {
	var h int64 = 5381
	for _, c := range s {
		h = (h*33 + int64(c)) & 0xffffffff
	}
	return h
}
