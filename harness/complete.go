package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/chzyer/readline"
)

// A Tree is a node of a PrefixCompleter, as Completers.tla has it.
type Tree struct {
	Name     []int   `json:"name"`
	Dyn      int     `json:"dyn"` // 0 static, 1 Names, 2 the words of the line
	Names    [][]int `json:"names"`
	Children []*Tree `json:"children"`
}

type lineAt struct {
	Line []int `json:"line"`
	Pos  int   `json:"pos"`
	Set  *set  `json:"set,omitempty"`  // this before
	Show bool  `json:"show,omitempty"` // the tree, with the line before each row
}

// set gives the node at a path other children
type set struct {
	Path     []int   `json:"path"`
	Children []*Tree `json:"children"`
}

type compTask struct {
	Tree  *Tree    `json:"tree"`  // a PrefixCompleter
	Cands [][]int  `json:"cands"` // or a SegmentCompleter that returns these
	Root  int      `json:"root"`  // how the completer is made
	Lines []lineAt `json:"lines"`
}

func (t *Tree) build() readline.PrefixCompleterInterface {
	var cs []readline.PrefixCompleterInterface
	for _, c := range t.Children {
		cs = append(cs, c.build())
	}
	switch t.Dyn {
	case 1:
		return readline.PcItemDynamic(func(string) []string {
			var r []string
			for _, n := range t.Names {
				r = append(r, stringOf(n))
			}
			return r
		}, cs...)
	case 2:
		return readline.PcItemDynamic(func(line string) []string {
			var r []string
			had := map[string]bool{}
			for _, w := range strings.Split(line, " ") {
				if w != "" && !had[w] {
					had[w] = true
					r = append(r, "w"+w)
				}
			}
			return r
		}, cs...)
	}
	return readline.PcItem(stringOf(t.Name), cs...)
}

func runCompleter(t *task) (interface{}, bool) {
	var ct compTask
	if err := json.Unmarshal(t.Data, &ct); err != nil {
		panic(err)
	}
	ev := []obj{}
	if ct.Tree != nil {
		var cs []readline.PrefixCompleterInterface
		for _, c := range ct.Tree.Children {
			cs = append(cs, c.build())
		}
		root := readline.NewPrefixCompleter()
		if ct.Root == 1 {
			root.SetChildren(cs)
		} else {
			root = readline.NewPrefixCompleter(cs...)
		}
		for i, l := range ct.Lines {
			if l.Set != nil {
				var n readline.PrefixCompleterInterface = root
				for _, i := range l.Set.Path {
					n = n.GetChildren()[i]
				}
				cs = nil
				for _, c := range l.Set.Children {
					cs = append(cs, c.build())
				}
				n.SetChildren(cs)
				ev = append(ev, obj{"e": "set", "path": l.Set.Path, "children": l.Set.Children})
			}
			if l.Show {
				ev = append(ev, obj{"e": "tree", "line": l.Line, "out": str(root.Tree(stringOf(l.Line)))})
				continue
			}
			line := runesOf(l.Line)
			var out [][]rune
			var off int
			if i%3 == 0 {
				out, off = readline.Do(root, line, l.Pos)
			} else {
				out, off = root.Do(line, l.Pos)
			}
			ev = append(ev, obj{"e": "prefix", "line": l.Line, "pos": l.Pos, "out": lists(out), "off": off})
		}
		return obj{"id": t.ID, "tree": ct.Tree, "ev": ev}, true
	}
	var asked obj
	f := func(segs [][]rune, n int) [][]rune {
		asked = obj{"segs": lists(segs), "n": n}
		var r [][]rune
		for _, c := range ct.Cands {
			r = append(r, runesOf(c))
		}
		return r
	}
	var ac readline.AutoCompleter = readline.SegmentFunc(f)
	if ct.Root == 1 {
		ac = readline.SegmentAutoComplete(segCompleter(f))
	}
	for _, l := range ct.Lines {
		asked = obj{"segs": [][]int{}, "n": -1}
		out, off := ac.Do(runesOf(l.Line), l.Pos)
		ev = append(ev, obj{"e": "seg", "line": l.Line, "pos": l.Pos, "segs": asked["segs"], "n": asked["n"],
			"cands": ct.Cands, "out": lists(out), "off": off})
	}
	return obj{"id": t.ID, "tree": &Tree{Name: []int{}, Names: [][]int{}, Children: []*Tree{}}, "ev": ev}, true
}

type segCompleter func([][]rune, int) [][]rune

func (f segCompleter) DoSegment(s [][]rune, n int) [][]rune { return f(s, n) }

func (t *Tree) clone() *Tree {
	n := *t
	n.Children = []*Tree{}
	for _, c := range t.Children {
		n.Children = append(n.Children, c.clone())
	}
	return &n
}

func lists(rs [][]rune) [][]int {
	r := make([][]int, len(rs))
	for i, x := range rs {
		r[i] = ints(x)
	}
	return r
}

var compNames = []string{"a", "b", "ab", "ba", "aa", "bb", "abb", "世", "世a", "aba"}

// randomTree makes one whose siblings have different names without spaces
func randomTree(r *rand.Rand, depth int) []*Tree {
	out := []*Tree{}
	if depth == 0 {
		return out
	}
	names := append([]string{}, compNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	take := func() []int {
		n := names[0]
		names = names[1:]
		return str(n)
	}
	words := false
	for i := r.Intn(5); i > 0 && len(names) > 3; i-- {
		t := &Tree{Name: []int{}, Names: [][]int{}, Children: randomTree(r, depth-1-r.Intn(2)*(depth-1))}
		switch {
		case chance(r, 6):
			t.Dyn = 1
			for j := r.Intn(3); j > 0; j-- {
				t.Names = append(t.Names, take())
			}
		case chance(r, 8) && !words:
			t.Dyn, words = 2, true
		default:
			t.Name = take()
		}
		out = append(out, t)
	}
	return out
}

func allLines(letters string, max int) []string {
	out := []string{""}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, l := range last {
			for _, c := range letters {
				next = append(next, l+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func checkC12(c *check) {
	r := rand.New(rand.NewSource(seed()))
	var tasks []*task
	byID := map[string]interface{}{}
	var trees []*Tree
	add := func(id string, ct *compTask) {
		b, err := json.Marshal(ct)
		must(err)
		byID[id] = ct
		tasks = append(tasks, &task{Kind: "comp", ID: id, Data: b})
	}
	every := func(s string) []lineAt {
		var out []lineAt
		l := str(s)
		for p := 0; p <= len(l); p++ {
			out = append(out, lineAt{Line: l, Pos: p})
		}
		return out
	}
	lines := func(n int) []lineAt {
		var out []lineAt
		for _, s := range allLines("ab ", 3) {
			out = append(out, every(s)...)
		}
		m := mix{{4, "a"}, {4, "b"}, {5, " "}, {1, "世"}, {1, "w"}}
		for i := 0; i < n; i++ {
			out = append(out, every(makeInput(r, m, 1+r.Intn(12)))...)
		}
		return out
	}
	for i := 0; i < c.pickN(150, 3000); i++ {
		t := &Tree{Name: []int{}, Names: [][]int{}, Children: randomTree(r, 1+r.Intn(4))}
		if i < c.pickN(8, 30) {
			trees = append(trees, t)
		}
		ls := lines(c.pickN(30, 60))
		// along the tree
		for j := 0; j < 20; j++ {
			var b strings.Builder
			b.WriteString(strings.Repeat(" ", r.Intn(2)))
			for n := t; len(n.Children) > 0; {
				n = n.Children[r.Intn(len(n.Children))]
				w := stringOf(n.Name)
				if n.Dyn == 1 && len(n.Names) > 0 {
					w = stringOf(n.Names[r.Intn(len(n.Names))])
				} else if n.Dyn == 2 {
					w = "w" + strings.TrimSpace(strings.SplitN(b.String()+"x", " ", 2)[0])
				}
				if chance(r, 6) {
					w += "a"
				}
				b.WriteString(w + strings.Repeat(" ", 1+r.Intn(6)/5))
				if chance(r, 5) {
					break
				}
			}
			ls = append(ls, every(b.String())...)
		}
		// the tree is shown, and changes
		for j := r.Intn(5); j >= 0; j-- {
			k := r.Intn(len(ls) + 1)
			ls = append(ls[:k], append([]lineAt{{Line: str([]string{"", " ", "世 | "}[r.Intn(3)]), Show: true}}, ls[k:]...)...)
		}
		now := t.clone()
		for j, k := r.Intn(4), 0; j > 0; j-- {
			k += 1 + r.Intn((len(ls)-k)/2)
			st := &set{Path: []int{}}
			n := now
			for len(n.Children) > 0 && !chance(r, 3) {
				i := r.Intn(len(n.Children))
				st.Path = append(st.Path, i)
				n = n.Children[i]
			}
			n.Children = randomTree(r, r.Intn(4))
			st.Children = n.clone().Children
			ls[k].Set = st
		}
		add(sprintf("tree-%d", i), &compTask{Tree: t, Root: i % 2, Lines: ls})
	}
	for i := 0; i < c.pickN(60, 1000); i++ {
		ct := &compTask{Cands: [][]int{}, Root: i % 2, Lines: lines(c.pickN(60, 100))}
		for j := r.Intn(6); j > 0; j-- {
			ct.Cands = append(ct.Cands, str([]string{"a", "b", "ab", "", "abb", "a b", "世a", "ba", "a"}[r.Intn(9)]))
		}
		add(sprintf("seg-%d", i), ct)
	}
	// the specification itself
	in, err := json.Marshal(obj{"trees": trees, "letters": str("ab "), "maxlen": c.pickN(5, 7)})
	must(err)
	c.model("CompletersMC.tla", "CompletersMC.cfg", in)
	c.runAndValidate("CompletersTrace", tasks, byID)
}
