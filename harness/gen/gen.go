// Package gen generates trees and traversals from a seed.
package gen

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
	"unicode"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/vfs"
)

// G is a source of random decisions.
type G struct {
	*rand.Rand
}

// New source.
func New(seed int64) *G { return &G{rand.New(rand.NewSource(seed))} }

// P is true with probability n/d.
func (g *G) P(n, d int) bool { return g.Intn(d) < n }

// Pick one.
func Pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }

var (
	stems = []string{"a", "b", "c", "A", "B", "C", "ab", "Ab", "aB", "abc", "abba", "ba", "bA", "Cab", "d", "D", "e", "zed", "Z", "x1", "x10", "x2", "_u", "-v", "~w", "m n", "O'k", "p+q", "été", "Été", "ñu", "Ñ", "Ω", "ω", "жук", "Жаба", "日本", "日", "語", "İx", "ßs", "[k]", "{l}", "q?", "s*", ".h", ".H", "..i", "t", "T", "tt", "a.b", "log", "cover", "vol",
		".DS_Store.d", "x.DS_Store", "DS_Store", ".ds_storE", "node_modules", ".git", "Thumbs.db", "con", "a\tb", "a\\b", "a%20b", "$x", "!n", "#c", "a;b", "…", "é", "K", "k"}
	exts = []string{"", "", "", ".txt", ".txt", ".flac", ".jpg", ".bak", ".TXT", ".tar.gz", ".b", "."}
)

// Shape bounds a tree.
type Shape struct {
	Lower   bool // names of files in lower case
	Max     int  // nodes
	MaxKids int
	Deep    int
	Rel     bool
	Flat    bool // no DS_Store decoys
	DirBias int  // out of 10
	Huge    int  // out of 1000: one crowded directory, or one long path
}

// Huge is the default of Shape.Huge, for shapes that are not small.
var Huge int

// Tree is a generated file system with its tree path.
func (g *G) Tree(sh Shape) (*vfs.FS, string) {
	f := vfs.New(sh.Rel)
	tree := Pick(g, "t", "t", "root/t", "a", "a/a", "été/t", "日本/語", "T.x/_y", "a b/t")

	if !sh.Rel {
		tree = "/" + tree
	}

	roomy := sh.Max == 0

	if roomy {
		sh.Max = Pick(g, 1, 2, 4, 8, 16, 16, 30, 30, 60)
	}

	if sh.MaxKids == 0 {
		sh.MaxKids = Pick(g, 2, 3, 5, 8)

		switch g.Intn(60) {
		case 0: // wide
			sh.MaxKids, sh.Max, sh.DirBias = 40, max(sh.Max, 60), 1
		case 1: // deep
			sh.MaxKids, sh.Max, sh.Deep, sh.DirBias = 2, max(sh.Max, 60), 40, 9
		}
	}

	if sh.Deep == 0 {
		sh.Deep = Pick(g, 2, 3, 4, 6, 10)
	}

	if sh.DirBias == 0 {
		sh.DirBias = Pick(g, 3, 5, 5, 7)
	}

	top := f.Mk(tree, true)
	left := sh.Max

	// the names in use in this tree: few of them, so that names recur at
	// different places
	pool := make([]string, 0, 8)
	for range 5 + g.Intn(8) {
		pool = append(pool, Pick(g, stems...))
	}

	type open struct {
		n     *vfs.Node
		depth int
	}

	queue := []open{{top, 0}}
	for len(queue) > 0 && left > 0 {
		i := 0
		if g.P(1, 2) {
			i = len(queue) - 1
		}

		at := queue[i]
		queue = append(queue[:i], queue[i+1:]...)
		used := map[string]bool{}

		kids := g.Intn(sh.MaxKids + 1)
		if at.depth == 0 && kids == 0 && g.P(9, 10) {
			kids = 1 + g.Intn(sh.MaxKids)
		}

		if at.depth == 0 && sh.Max > 4 && kids < 2 {
			kids = 2
		}

		for range kids {
			if left == 0 {
				break
			}

			dir := g.P(sh.DirBias, 10)
			name := Pick(g, pool...)

			if g.P(1, 6) {
				name += fmt.Sprint(g.Intn(12))
			}

			if !dir || g.P(1, 8) {
				name += Pick(g, exts...)
			}

			if sh.Lower && !dir {
				name = strings.ToLower(name)
			}

			low := strings.ToLower(name)
			if used[low] || name == ".DS_Store" || name == "." || name == ".." {
				continue
			}

			used[low] = true
			left--

			k := &vfs.Node{Name: name, Dir: dir}
			if dir {
				if at.depth+1 < sh.Deep {
					queue = append(queue, open{k, at.depth + 1})
				}
			} else {
				k.Data = make([]byte, g.Intn(40))
				k.Link = g.P(1, 12)
			}

			at.n.Kids = append(at.n.Kids, k)
		}

		if !sh.Flat && g.P(1, 10) {
			ds := &vfs.Node{Name: ".DS_Store", Data: []byte("x")}
			if g.P(1, 4) {
				ds = &vfs.Node{Name: ".DS_Store", Dir: true, Kids: []*vfs.Node{{Name: "decoy"}}}
			}

			at.n.Kids = append(at.n.Kids, ds)
		}
	}

	if sh.Huge == 0 && (roomy || sh.Max >= 30) {
		sh.Huge = Huge
	}

	if g.P(sh.Huge, 1000) {
		g.huge(top)
	}

	// decoys beside the tree
	f.Mk(tree+"2/decoy", false)
	f.Mk(path.Dir(tree)+"/decoy.txt", false)
	f.Shuffle(g.Rand)

	if g.P(1, 24) { // the root of the file system
		tree = "."

		if g.P(1, 2) {
			f.Root.Kids = top.Kids
		}

		if !sh.Rel {
			tree = "/"
		}
	}

	return f, tree
}

// huge makes one directory of the tree crowded, or one path long, or both.
func (g *G) huge(top *vfs.Node) {
	at := top

	for g.P(2, 3) {
		var dirs []*vfs.Node

		for _, k := range at.Kids {
			if k.Dir && k.Name != ".DS_Store" {
				dirs = append(dirs, k)
			}
		}

		if len(dirs) == 0 {
			break
		}

		at = Pick(g, dirs...)
	}

	how := g.Intn(3)

	if how != 0 { // a long path
		for i := range Pick(g, 60, 130, 130, 260, 300) {
			k := &vfs.Node{Name: fmt.Sprintf("zz%d", i), Dir: true}

			if g.P(1, 12) {
				k.Name += strings.Repeat("y", 120)
			}

			if g.P(1, 8) {
				k.Kids = append(k.Kids, &vfs.Node{Name: Pick(g, "f.txt", "g.flac", "h"), Data: []byte("x")})
			}

			at.Kids = append(at.Kids, k)
			at = k
		}
	}

	if how != 1 { // a crowd
		n := Pick(g, 66, 130, 260, 520, 1030)
		bias := Pick(g, 0, 1, 1, 5, 10)
		prefix := Pick(g, "", "", "", "common prefix of names", strings.Repeat("w", 130))

		for i := range n {
			k := &vfs.Node{Name: fmt.Sprintf("%s%s%d", prefix, Pick(g, "qq", "r_", "s.txt", "uv"), i), Dir: g.P(bias, 10)}

			if !k.Dir {
				k.Name += Pick(g, exts...)
				k.Name = strings.ToLower(k.Name)
			}

			at.Kids = append(at.Kids, k)
		}
	}
}

// flip the case of one character.
func flip(g *G, name string) string {
	rs := []rune(name)
	i := g.Intn(len(rs))

	if u := unicode.ToUpper(rs[i]); u != rs[i] {
		rs[i] = u
	} else {
		rs[i] = unicode.ToLower(rs[i])
	}

	return string(rs)
}

// twins adds nodes whose names differ from those of others in case only, whose
// order is that of their names unless it is sensitive to the case.
func (g *G) twins(f *vfs.FS, tree string) {
	dirs, _ := Paths(f, tree)

	for range 1 + g.Intn(4) {
		n := f.At(Pick(g, dirs2(dirs, tree)...))
		if n == nil || len(n.Kids) == 0 {
			continue
		}

		k := Pick(g, n.Kids...)
		name := Pick(g, strings.ToUpper(k.Name), strings.ToLower(k.Name), flip(g, k.Name))

		if name == ".DS_Store" || k.Name == ".DS_Store" || n.Find(name) != nil {
			continue
		}

		t := &vfs.Node{Name: name, Dir: g.P(1, 2)}

		if t.Dir {
			for i := range g.Intn(3) {
				t.Kids = append(t.Kids, &vfs.Node{Name: fmt.Sprint(Pick(g, "a", "B", "c.txt"), i), Dir: g.P(1, 3)})
			}
		}

		n.Kids = append(n.Kids, t)
	}

	f.Shuffle(g.Rand)
}

// Scope of a filter.
func (g *G) Scope() enums.FilterScope {
	s := Pick(g, enums.ScopeUndefined, enums.ScopeAll, enums.ScopeFile, enums.ScopeDirectory,
		enums.ScopeTree, enums.ScopeTop, enums.ScopeLeaf, enums.ScopeIntermediate)

	if s != enums.ScopeUndefined && s != enums.ScopeAll && g.P(1, 3) {
		s |= Pick(g, enums.ScopeFile, enums.ScopeDirectory, enums.ScopeTree, enums.ScopeTop, enums.ScopeLeaf, enums.ScopeIntermediate)
	}

	return s
}

// Names that occur.
func Names(f *vfs.FS, tree string) (dirs, files []string) {
	var walk func(n *vfs.Node)
	walk = func(n *vfs.Node) {
		for _, k := range n.Kids {
			if k.Dir {
				dirs = append(dirs, k.Name)
				walk(k)
			} else {
				files = append(files, k.Name)
			}
		}
	}

	if n := f.At(tree); n != nil {
		walk(n)
	}

	return
}

// Paths below the tree (and itself).
func Paths(f *vfs.FS, tree string) (dirs, files []string) {
	var walk func(n *vfs.Node, p string)
	walk = func(n *vfs.Node, p string) {
		if !n.Dir {
			files = append(files, p)
			return
		}

		dirs = append(dirs, p)
		for _, k := range n.Kids {
			walk(k, path.Join(p, k.Name))
		}
	}

	if n := f.At(tree); n != nil {
		walk(n, tree)
	}

	return
}

func (g *G) globPattern(names []string) string {
	if len(names) > 0 && g.P(1, 2) {
		n := strings.NewReplacer("[", "?", "]", "?", "*", "?", "\\", "?").Replace(Pick(g, names...))
		rs := []rune(n)

		switch g.Intn(4) {
		case 0:
			return n
		case 1:
			return string(rs[:1]) + "*"
		case 2:
			return "*" + string(rs[len(rs)-1:])
		case 3:
			return "*" + string(rs[len(rs)/2:])
		}
	}

	return Pick(g, "*", "a*", "*.txt", "?", "??", "[a-m]*", "[^a-c]*", "*b*", "*.*", "A*", "nope", "*1*", "?b*")
}

func (g *G) regexPattern() string {
	return Pick(g, "^a", "txt$", "[aeiou]", "^[A-Z]", "b.*", ".", "^.{2}$", "(?i)^a.*", "^$", "日|é", "[0-9]", "nope", "^[^.]*$")
}

func (g *G) globexPattern() string {
	p := Pick(g, "*", "*", "a*", "b*", "*/a*", "*/*b", "?*", "t", "A*", "*/日*", "c*/cab", "nope")
	n := 1 + g.Intn(3)
	list := make([]string, 0, n)

	for range n {
		list = append(list, Pick(g, "*.txt", ".txt", "*.flac", "a*.txt", "*.!bak", ".!txt", "b*.jpg", "*.*", " *.jpg ", "*.TXT", "", "!", "*.!jpg", "c*.!flac", "tar.gz"))
	}

	return p + "|" + strings.Join(list, ",")
}

// NodeFilter makes a definition; kinds are the permitted ones.
func (g *G) NodeFilter(f *vfs.FS, tree string, kinds ...string) *model.Filter {
	k := Pick(g, kinds...)
	d, fs := Names(f, tree)
	x := &model.Filter{Kind: k, Scope: g.Scope(), Negate: g.P(1, 3), Desc: fmt.Sprintf("%s %d", k, g.Intn(1000)),
		INA: Pick(g, enums.TriStateBoolUndefined, enums.TriStateBoolTrue, enums.TriStateBoolFalse)}

	switch k {
	case "glob":
		x.Pattern = g.globPattern(append(d, fs...))
	case "regex":
		x.Pattern = g.regexPattern()
	case "globex":
		x.Pattern = g.globexPattern()
	case "custom":
		x.Pred = g.Intn(5)
	case "poly":
		x.File, x.Dir = g.NodeFilter(f, tree, "glob", "regex", "globex"), g.NodeFilter(f, tree, "glob", "regex", "globex")
	}

	return x
}

// EntryFilter makes a child or sample definition.
func (g *G) EntryFilter(f *vfs.FS, tree string, kinds ...string) *model.Filter {
	x := g.NodeFilter(f, tree, kinds...)
	x.Scope, x.INA = 0, 0

	return x
}

// Feature probabilities, out of 10.
type Feature struct {
	Hooks                                            bool // used by the checks
	Shape                                            Shape
	Subs                                             []enums.Subscription
	Depth, Node, Child, Sampling, SampleFilter, Hib  int
	Ret, Ask, Fail, Info, FileRoot, Case, FilesFirst int
	Listeners, Custom, NoSep, NoRecurse              int
}

// AllSubs are the subscriptions.
var AllSubs = []enums.Subscription{enums.SubscribeUniversal, enums.SubscribeFiles,
	enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles}

// quantity of a sample.
func (g *G) quantity() uint {
	if g.P(1, 12) {
		return Pick[uint](g, 4, 5, 9, 60, 100, 255, 256, 257, 1000, 1<<31, 1<<32, 1<<63-1, 1<<63, 1<<64-2)
	}

	return uint(g.Intn(4))
}

// Spec generates a traversal.
func (g *G) Spec(ft Feature) *model.Spec {
	sh := ft.Shape
	if !sh.Rel {
		sh.Rel = g.P(1, 2)
	}

	lowered := false
	kinds := []string{"glob", "regex", "globex", "poly"}
	wantNode := g.P(ft.Node, 10)
	wantHib := g.P(ft.Hib, 10)

	if wantNode || wantHib {
		if lowered = g.P(2, 3); lowered {
			sh.Lower = true
		} else {
			kinds = []string{"glob", "regex"}
		}
	}

	f, tree := g.Tree(sh)
	s := &model.Spec{FS: f, Tree: tree, Opt: g.Intn(128)}
	subs := ft.Subs

	if len(subs) == 0 {
		subs = AllSubs
	}

	s.Sub = Pick(g, subs...)

	if !sh.Rel && g.P(1, 12) && tree != "/" {
		s.Spell = Pick(g, tree+"/", tree+"/", tree+"//", "/."+tree, "/"+tree, tree+"/.", "/x/.."+tree, tree+"/../"+path.Base(tree)+"/")
	}

	if g.P(ft.FileRoot, 100) && s.Sub != enums.SubscribeDirectories && s.Sub != enums.SubscribeDirectoriesWithFiles {
		n := f.At(tree)
		n.Dir, n.Kids = false, nil
	}

	if g.P(ft.Case, 10) {
		s.CaseSens = 1 + g.Intn(2)
	}

	if !sh.Lower && g.P(1+3*min(s.CaseSens, 1), 8) {
		g.twins(f, tree)
	}

	s.FilesFirst = g.P(ft.FilesFirst, 10)
	s.NoSep = g.P(ft.NoSep, 10)

	if g.P(ft.Depth, 10) {
		s.Depth = Pick[uint](g, 1, 2, 3, 4, 5, 5, 6, 9, Pick[uint](g, 63, 127, 128, 129, 200, 255, 256, 257), 1<<20, 1<<32, 1<<63-1, 1<<63, 1<<64-1)
	}

	s.NoRecurse = g.P(ft.NoRecurse, 10)

	if wantNode {
		s.Node = g.NodeFilter(f, tree, kinds...)
	}

	if g.P(ft.Custom, 10) {
		s.Custom = g.NodeFilter(f, tree, "custom")
	}

	if g.P(ft.Child, 10) {
		s.Child = g.EntryFilter(f, tree, "glob", "regex")
	}

	if g.P(ft.Sampling, 10) {
		s.Sampling = &model.Samp{Type: Pick(g, enums.SampleTypeSlice, enums.SampleTypeSlice, enums.SampleTypeFilter),
			Rev: g.P(1, 2), Files: g.quantity(), Dirs: g.quantity()}

		if g.P(ft.SampleFilter, 10) && s.Node == nil && s.Custom == nil {
			s.Sample = g.EntryFilter(f, tree, "glob", "regex", "custom")
			s.Sample.Scope = Pick(g, enums.ScopeFile, enums.ScopeDirectory)

			if s.Sample.Scope == enums.ScopeFile {
				s.Sampling.Files += 1
			} else {
				s.Sampling.Dirs += 1
			}
		}
	}

	if wantHib {
		if g.P(2, 3) {
			s.Wake = g.NodeFilter(f, tree, kinds...)
		}

		if s.Wake == nil || g.P(2, 3) {
			s.Sleep = g.NodeFilter(f, tree, kinds...)
		}

		s.ExclWake, s.InclSleep = g.P(1, 3), g.P(1, 3)
	}

	dirs, files := Paths(f, tree)
	all := append(append([]string{}, dirs...), files...)

	if g.P(ft.Ret, 10) {
		s.Ret = map[string]string{}

		for range 1 + g.Intn(4) {
			s.Ret[Pick(g, all...)] = Pick(g, "skipdir", "skipdir", "skipdir~", "skipall", "skipall~", fmt.Sprintf("e%d", g.Intn(9)))
		}
	}

	if g.P(ft.Fail, 10) {
		for range 1 + g.Intn(3) {
			p := Pick(g, dirs2(dirs, tree)...)
			f.ReadErr[p] = ErrRead

			if g.P(2, 3) {
				f.ReadPart[p] = g.Intn(6)
			}
		}
	}

	if g.P(ft.Info, 10) {
		for range 1 + g.Intn(3) {
			if p := Pick(g, all...); p != tree {
				f.InfoErr[p] = ErrInfo
			}
		}
	}

	if g.P(ft.Ask, 10) {
		s.HasAsk = true
		s.Ask = map[string]string{}

		for range g.Intn(3) {
			s.Ask[Pick(g, dirs2(dirs, tree)...)] = Pick(g, "dir", "dir", "all", "allerr", "direrr")
		}
	}

	if g.P(ft.Listeners, 10) {
		s.Listeners = 1
	}

	s.Listing = f.Listing()

	return s
}

func dirs2(dirs []string, tree string) []string {
	if len(dirs) == 0 {
		return []string{tree}
	}

	return dirs
}

// The errors injected, set by the harness.
var ErrRead, ErrInfo error

var hookKinds = []string{"stat", "read", "sort", "dsub", "fsub"}

// Plan picks hooks of some kinds.
func (g *G) Plan(s *model.Spec, n int) {
	h := &model.HookPlan{Steps: map[string][]int{}, Via: g.Intn(2), Part: g.P(1, 3)}
	s.Hooks = h

	for _, i := range g.Perm(len(hookKinds))[:n] {
		k := hookKinds[i]

		if g.P(2, 3) {
			h.Steps[k] = append(h.Steps[k], 0)
		}

		for _, c := range g.Perm(4)[:g.Intn(4)] {
			h.Steps[k] = append(h.Steps[k], c+1)
		}
	}

	if s.CaseSens == 2 {
		s.CaseSens = 1
	}
}
