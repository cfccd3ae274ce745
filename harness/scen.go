package main

// A Scenario is what a run of the real editor is made from; everything that
// happens in it is determined by it.
type Scenario struct {
	ID     string            `json:"id"`
	Cfgs   []*Cfg            `json:"cfgs"`
	Disk   map[string]string `json:"disk"`   // label of a file -> content before
	Steps  []Step            `json:"steps"`  // what the program does
	Chunks Chunks            `json:"chunks"` // what each Read of the Stdin returns
	EOF    bool              `json:"eof"`    // Stdin ends after them (or else blocks)
	Inj    map[int][]Step    `json:"inj"`    // done in the filter when it gets its n-th key
	Screen bool              `json:"screen"` // record the output
	Above  string            `json:"above"`  // on the screen before
	Late   bool              `json:"late"`   // Inj waits for a key that cannot end the line
	Raw    []byte            `json:"-"`
	Std    string            `json:"std"`  // the functions of the package are called: with a "tty", or "none"
	New    bool              `json:"new"`  // an instance of New is used instead
	Race   *Race             `json:"race"` // writers that run beside
	Susp   bool              `json:"susp"` // on a terminal of its own, Ctrl-Z stops the process
}

// Race are goroutines that write at the same time, from the key At on and for
// Len keys or up to one that ends a line, searches or completes.
type Race struct {
	At    int        `json:"at"`
	Len   int        `json:"len"`
	Texts [][]string `json:"texts"` // of each goroutine, all different
}

// Cfg describes a readline.Config; the fields up to Prompt are those of the
// specification.
type Cfg struct {
	Vim    bool    `json:"vim"`
	Auto   bool    `json:"auto"`
	Fold   bool    `json:"fold"`
	Limit  int     `json:"limit"`
	Path   string  `json:"path"`
	Width  int     `json:"width"`
	Early  int     `json:"early"` // the width before somebody is told of changes
	Mask   bool    `json:"mask"`
	Mrune  int     `json:"mrune"`
	Unique bool    `json:"unique"`
	Comp   string  `json:"comp"` // tab, fix, log
	Cands  [][]int `json:"cands"`
	Off    int     `json:"off"`
	Lis    string  `json:"lis"` // none, log
	Filt   [][]int `json:"filt"`
	Prompt []int   `json:"prompt"`

	Mark      bool      `json:"mark"`  // a filter that tells where keys begin
	Paint     string    `json:"paint"` // "", "log", "upper"
	Words     []string  `json:"words"` // for comp log: complete from these
	Script    []CompAns `json:"script"`
	LisScript []LisAns  `json:"lisscript"`
	IntP      string    `json:"intp"`
	EofP      string    `json:"eofp"`
	Keep      bool      `json:"keep"` // passwords: the same Config every time
}

type CompAns struct {
	Cands [][]int `json:"cands"`
	Off   int     `json:"off"`
}

type LisAns struct {
	OK   bool   `json:"ok"`
	Kind string `json:"kind"` // "" line, "upper", "append"
	Line []int  `json:"line"`
	Pos  int    `json:"pos"`
}

// Step is a call of the program.
type Step struct {
	F      string `json:"f"`
	T      []int  `json:"t"`
	B      bool   `json:"b"`
	N      int    `json:"n"`
	CI     int    `json:"ci"`
	Path   string `json:"path"`
	Chunks Chunks `json:"chunks"`
	EOF    bool   `json:"eof"`
}

func ints(rs []rune) []int {
	r := make([]int, len(rs))
	for i, c := range rs {
		r[i] = int(c)
	}
	return r
}

func str(s string) []int { return ints([]rune(s)) }

func runesOf(is []int) []rune {
	r := make([]rune, len(is))
	for i, c := range is {
		r[i] = rune(c)
	}
	return r
}

func stringOf(is []int) string { return string(runesOf(is)) }

func baseCfg() *Cfg {
	return &Cfg{Auto: true, Limit: 500, Width: 80, Comp: "tab", Lis: "none", Prompt: str("> "),
		Cands: [][]int{}, Filt: [][]int{}, Mark: true, Paint: "log"}
}

// passwordCfg is what ReadPassword works with.
func passwordCfg(prompt string) *Cfg {
	c := baseCfg()
	c.Mask = true
	c.Limit = -1
	c.IntP, c.EofP = "\n", "\n"
	c.Prompt = str(prompt)
	c.Mark = false
	c.Paint = ""
	return c
}

// chunk1 splits s into single characters.
func chunk1(s string) []string {
	var r []string
	for _, c := range []rune(s) {
		r = append(r, string(c))
	}
	return r
}
