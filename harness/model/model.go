// Package model is the reference: what a traversal is specified to do, written
// down independently of the code under test, as a direct recursive definition
// over the in-memory tree.
package model

import (
	"fmt"
	"hash/fnv"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/vfs"
)

// Filter describes a node, child or sample filter.
type Filter struct {
	Kind    string // glob globex regex poly custom
	Pattern string
	Scope   enums.FilterScope
	Negate  bool
	INA     enums.TriStateBool
	File    *Filter // poly
	Dir     *Filter // poly
	Pred    int     // custom
	Desc    string
}

// Samp is the sampling specification.
type Samp struct {
	Type        enums.SampleType
	Rev         bool
	Files, Dirs uint
}

// Spec is one traversal.
type Spec struct {
	FS         *vfs.FS `json:"-"`
	R          *vfs.FS `json:"-"` // resume file system
	NoR        bool    // the forest has no resume file system
	Listing    []string
	Tree       string
	Spell      string // how the path of the tree is spelt, if not cleanly
	Sub        enums.Subscription
	NoSep      bool // KeepTrailingSep=false
	CaseSens   int  // 0 no, 1 by behaviour, 2 by hook
	FilesFirst bool
	Depth      uint
	NoRecurse  bool
	Node       *Filter
	Custom     *Filter // FilterOptions.Custom
	Child      *Filter
	Sample     *Filter
	Sampling   *Samp
	Wake       *Filter
	Sleep      *Filter
	ExclWake   bool
	InclSleep  bool
	Ret        map[string]string // callback result by path
	Ask        map[string]string // skip handler decision by path
	HasAsk     bool              // a skip handler is installed
	Listeners  int               // listeners per event
	NoW        uint
	Fault      string // "", "nil", "other": what the fault handler returns
	Opt        int    // how the options are expressed
	Hooks      *HookPlan
}

// Spelled is the path of the tree as it is specified.
func (s *Spec) Spelled() string {
	if s.Spell != "" && path.Clean(s.Spell) == s.Tree {
		return s.Spell
	}

	return s.Tree
}

// HookPlan says which hooks are in place, by kind (stat read sort dsub fsub):
// step 0 is a tap, the others are chained, in that order.
type HookPlan struct {
	Steps map[string][]int
	Via   int  // how the tap obtains what it replaces
	Part  bool // the read hooks keep what was read before a failure
}

// Of a kind.
func (h *HookPlan) Of(kind string) []int {
	if h == nil {
		return nil
	}

	return h.Steps[kind]
}

// Partial says if what was read before a failure is presented.
func (h *HookPlan) Partial() bool {
	return h != nil && h.Part && slices.Contains(h.Of("read"), 0)
}

// What the hooks do; they are made up so that the result depends on each step
// and on their order.

// HookKeep is the effect of a read hook on an entry.
func HookKeep(step int, name string) bool {
	h := fnv.New32a()
	fmt.Fprintf(h, "%s%d", name, step)

	return h.Sum32()%5 != 0
}

// HookRecovers says if a chained read hook ignores the error.
func HookRecovers(step int) bool { return step == 3 }

// HookSort is the effect of a sort hook.
func HookSort[T any](step int, xs []T, name func(T) string) {
	rev := func(s string) string {
		b := []byte(s)
		slices.Reverse(b)

		return string(b)
	}

	switch {
	case step == 0:
		sort.SliceStable(xs, func(i, j int) bool { return rev(name(xs[i])) < rev(name(xs[j])) })
	case step%2 == 1:
		slices.Reverse(xs)
	case len(xs) > 0:
		copy(xs, append(append([]T{}, xs[1:]...), xs[0]))
	}
}

// HookSize is the effect of a query status hook.
func HookSize(step int, size int64) int64 {
	if step == 0 {
		return size + 1000
	}

	return size*2 + int64(step)
}

// HookSub is the effect of a sub path hook.
func HookSub(step int, prev, kind, path string) string {
	if step == 0 {
		return kind + "(" + path + ")"
	}

	return fmt.Sprintf("%s+%d/", prev, step)
}

// Attr are the attributes of a node.
type Attr struct {
	Path, Name, Parent, SubPath string
	Depth                       int
	Leaf, Dir                   bool
	Scope                       enums.FilterScope
	Children                    []string
	Chain                       []string // ancestors, nearest first
	Entry, Info                 string
	Err                         string
}

// Ev is an observable event.
type Ev struct {
	K    string
	Path string
	A    *Attr
	Note string
}

// Proj selects what is compared.
type Proj struct {
	Kinds    string // space separated
	Attrs    bool
	Children bool
	Chain    bool
	Notes    bool
}

func (a *Attr) String() string {
	return fmt.Sprintf("name=%q parent=%q sub=%q depth=%d leaf=%v dir=%v scope=%d entry=%s info=%s err=%q",
		a.Name, a.Parent, a.SubPath, a.Depth, a.Leaf, a.Dir, uint32(a.Scope), a.Entry, a.Info, a.Err)
}

// brief shortens a long chain: the ends of the paths that are far away.
func brief(chain []string) []string {
	if len(chain) < 40 {
		return chain
	}

	out := append([]string{}, chain[:4]...)

	for _, p := range chain[4:] {
		out = append(out, fmt.Sprintf("%d:%s", len(p), p[max(0, len(p)-5):]))
	}

	return out
}

// Render the events.
func (p Proj) Render(evs []Ev) []string {
	var out []string

	for i := range evs {
		e := &evs[i]
		if !strings.Contains(" "+p.Kinds+" ", " "+e.K+" ") {
			continue
		}

		s := e.K + " " + e.Path
		if e.A != nil {
			if p.Attrs {
				s += " " + e.A.String()
			}

			if p.Children {
				s += fmt.Sprintf(" children=%q", e.A.Children)
			}

			if p.Chain {
				s += fmt.Sprintf(" chain=%q", brief(e.A.Chain))
			}
		}

		if p.Notes && e.Note != "" {
			s += " | " + e.Note
		}

		out = append(out, s)
	}

	return out
}

// Metrics of a traversal.
type Metrics struct {
	Files, Dirs, FilesOut, DirsOut, ChildFound, ChildOut uint
}

func (m Metrics) String() string {
	return fmt.Sprintf("files=%d dirs=%d filesOut=%d dirsOut=%d childFound=%d childOut=%d",
		m.Files, m.Dirs, m.FilesOut, m.DirsOut, m.ChildFound, m.ChildOut)
}

// Trace is everything that can be observed of a traversal.
type Trace struct {
	Evs      []Ev
	M        Metrics
	Err      string // "" | name of the scripted error | "panic" | ...
	At       string // directory traversed when a panic struck
	AtDepth  int
	AtM      Metrics
	Reads    []string
	PanicEsc string
}

// ---------------------------------------------------------------- filters

// Subject of a filter.
type Subject struct {
	Name   string
	Dir    bool
	Depth  int
	Scope  enums.FilterScope
	Parent *Subject
}

// Pred is the harness' family of custom predicates.
func Pred(n int, name string, dir bool, depth int) bool {
	switch n % 5 {
	case 0:
		return len(name)%2 == 0
	case 1:
		return !dir
	case 2:
		return depth%2 == 1
	case 3:
		h := 0
		for _, c := range name {
			h = h*31 + int(c)
		}

		return h%3 != 0
	}

	return dir
}

// Scopes that the filter has in effect.
func (f *Filter) scope() enums.FilterScope {
	if f.Kind == "globex" {
		return enums.ScopeFile
	}

	if f.Scope == enums.ScopeUndefined {
		return enums.ScopeAll
	}

	return f.Scope
}

// Describe is the description; that of a poly filter is made up by it.
func (f *Filter) Describe() string {
	if f.Kind == "poly" {
		return "Poly"
	}

	return f.Desc
}

// Match decides whether the filter lets a node pass.
func (f *Filter) Match(s *Subject) bool {
	switch f.Kind {
	case "custom":
		return Pred(f.Pred, s.Name, s.Dir, s.Depth)

	case "poly":
		if s.Dir {
			return true
		}

		file, dir := *f.File, *f.Dir
		file.Scope = file.Scope&^enums.ScopeDirectory | enums.ScopeFile
		dir.Scope = dir.Scope&^enums.ScopeFile | enums.ScopeDirectory

		return (s.Parent == nil || dir.Match(s.Parent)) && file.Match(s)
	}

	ina := f.INA != enums.TriStateBoolFalse

	if f.scope()&s.Scope == 0 {
		return ina
	}

	var matched bool

	switch f.Kind {
	case "glob":
		matched, _ = filepath.Match(f.Pattern, s.Name)
	case "regex":
		matched = regexp.MustCompile(f.Pattern).MatchString(s.Name)
	case "globex":
		dirPart, list, _ := strings.Cut(f.Pattern, "|")
		glob, excl, _ := strings.Cut(strings.ToLower(dirPart), "/")

		if s.Parent != nil {
			p := strings.ToLower(s.Parent.Name)
			if ok, _ := filepath.Match(glob, p); !ok {
				return ina
			}

			if ok, _ := filepath.Match(excl, p); ok {
				return ina
			}
		}

		matched = suffixes(list, s.Name)
	default:
		panic("kind " + f.Kind)
	}

	return matched != f.Negate
}

// suffixes decides the file part of an extended glob.
func suffixes(list, name string) bool {
	for _, p := range strings.Split(list, ",") {
		if p == "" || p == "!" {
			continue
		}

		p = strings.ToLower(strings.TrimSpace(p))
		dot := strings.LastIndex(p, ".")
		base, ext := p[:dot], p[dot+1:]
		neg := strings.HasPrefix(ext, "!")
		ext = strings.TrimPrefix(ext, "!")

		if base == "" {
			base = "*"
		}

		hit, _ := filepath.Match(base+"."+ext, name)
		if neg {
			return !hit
		}

		if hit {
			return true
		}
	}

	return false
}

// entry decides child and sample filters, by name.
func (f *Filter) entry(n *vfs.Node) bool {
	var m bool

	switch f.Kind {
	case "glob":
		m, _ = filepath.Match(f.Pattern, n.Name)
	case "regex":
		m = regexp.MustCompile(f.Pattern).MatchString(n.Name)
	case "custom":
		m = Pred(f.Pred, n.Name, n.Dir, 0)
	default:
		panic("kind")
	}

	return m != f.Negate
}

// ---------------------------------------------------------------- traversal

type signal int

const (
	goOn signal = iota
	skipRest
	stop
)

type run struct {
	s     *Spec
	t     *Trace
	state int // hibernation
	limit uint
	err   string
}

type item struct {
	n     *vfs.Node
	path  string
	depth int
	up    *item
	subj  *Subject
	chain []string
	root  bool
}

// Names of a listing.
func names(ns []*vfs.Node) []string {
	out := make([]string, 0, len(ns))
	for _, n := range ns {
		out = append(out, n.Name)
	}

	return out
}

// Active tells if any filtering is in effect.
func (s *Spec) Active() bool {
	return s.Node != nil || s.Custom != nil || s.Child != nil || s.Sample != nil
}

// SampleScheme says if the sample filter is in effect (it is the least
// important of the primary ones).
func (s *Spec) SampleScheme() bool {
	return s.Sample != nil && s.Node == nil && s.Custom == nil
}

// Run the specification.
func Run(s *Spec) *Trace {
	r := &run{s: s, t: &Trace{}, limit: s.Depth}
	if s.NoRecurse {
		r.limit = 1
	}

	if s.Wake == nil {
		r.state = 1
	}

	tree := s.FS.At(s.Tree)
	if e := s.FS.StatErr[s.Tree]; e != nil || tree == nil {
		r.emit("fault", s.Tree, nil, "")

		switch s.Fault {
		case "nil":
		case "other":
			r.t.Err = "fault"
		default:
			r.t.Err = "stat"
		}

		r.emit("begin", s.Tree, nil, "")
		r.emit("end", "", nil, "")

		return r.t
	}

	r.emit("begin", s.Tree, nil, "")
	r.visit(&item{n: tree, path: s.Tree, root: true})
	r.t.Err = r.err
	r.emit("end", "", nil, "")

	return r.t
}

func (r *run) emit(k, p string, a *Attr, note string) {
	r.t.Evs = append(r.t.Evs, Ev{K: k, Path: p, A: a, Note: note})
}

// contents of a directory as presented: directories and files, sorted.
func (r *run) contents(it *item) (dirs, files []*vfs.Node, failed bool) {
	r.t.Reads = append(r.t.Reads, it.path)

	hooks := r.s.Hooks.Of("read")

	kids := it.n.Kids

	if r.s.FS.ReadErr[it.path] != nil {
		failed = !slices.ContainsFunc(hooks, HookRecovers)

		if !r.s.Hooks.Partial() {
			return nil, nil, failed
		}

		kids = kids[:min(len(kids), r.s.FS.ReadPart[it.path])]
	}

	for _, k := range kids {
		if k.Name == ".DS_Store" {
			continue
		}

		if slices.ContainsFunc(hooks, func(step int) bool { return !HookKeep(step, k.Name) }) {
			continue
		}

		if f := r.s.Sample; r.s.SampleScheme() {
			switch {
			case f.Scope == enums.ScopeDirectory && k.Dir,
				f.Scope == enums.ScopeFile && !k.Dir:
				if !f.entry(k) {
					continue
				}
			}
		}

		if k.Dir {
			dirs = append(dirs, k)
		} else {
			files = append(files, k)
		}
	}

	if q := r.s.Sampling; q != nil && q.Type != enums.SampleTypeUndefined {
		dirs, files = take(dirs, q.Dirs, q.Rev), take(files, q.Files, q.Rev)
	}

	r.sort(dirs)
	r.sort(files)

	return dirs, files, failed
}

func take(ns []*vfs.Node, n uint, rev bool) []*vfs.Node {
	ns = append([]*vfs.Node{}, ns...)
	if n == 0 || n >= uint(len(ns)) {
		return ns
	}

	if rev {
		return ns[uint(len(ns))-n:]
	}

	return ns[:n]
}

func (r *run) sort(ns []*vfs.Node) {
	r.order(ns)

	for _, step := range r.s.Hooks.Of("sort") {
		HookSort(step, ns, func(n *vfs.Node) string { return n.Name })
	}
}

func (r *run) order(ns []*vfs.Node) {
	key := strings.ToLower
	if r.s.CaseSens != 0 {
		key = func(s string) string { return s }
	}

	sort.Slice(ns, func(i, j int) bool {
		a, b := key(ns[i].Name), key(ns[j].Name)

		return a < b || a == b && ns[i].Name < ns[j].Name
	})
}

func (r *run) sub(it *item) string {
	s := ""

	if !it.root {
		dir, _ := path.Split(it.path)
		switch r.s.Tree {
		case "/":
			s = dir
		case ".":
			s = "/" + dir
		default:
			s = strings.TrimPrefix(dir, r.s.Tree)
		}
	}

	kind := "fsub"
	if it.n.Dir {
		kind = "dsub"
	}

	for _, step := range r.s.Hooks.Of(kind) {
		s = HookSub(step, s, kind, it.path)
	}

	if r.s.NoSep {
		s = strings.TrimSuffix(s, "/")
	}

	return s
}

// visit a node and, for a directory, its contents.
func (r *run) visit(it *item) signal {
	s := r.s
	if r.limit > 0 && uint(it.depth) > r.limit {
		return goOn
	}

	var (
		dirs, files, order []*vfs.Node
		failed             bool
	)

	if it.n.Dir {
		dirs, files, failed = r.contents(it)
	}

	dir, name := path.Split(it.path)
	a := &Attr{Path: it.path, Name: name, Parent: dir, SubPath: r.sub(it), Depth: it.depth,
		Dir: it.n.Dir, Leaf: it.n.Dir && len(dirs) == 0, Chain: it.chain, Children: []string{}}

	switch {
	case !it.n.Dir:
		a.Scope = enums.ScopeLeaf | enums.ScopeFile
	case it.depth == 0:
		a.Scope = enums.ScopeTree | enums.ScopeDirectory
	case it.depth == 1:
		a.Scope = enums.ScopeTop | enums.ScopeDirectory
	case !a.Leaf:
		a.Scope = enums.ScopeIntermediate | enums.ScopeDirectory
	default:
		a.Scope = enums.ScopeLeaf | enums.ScopeDirectory
	}

	if a.Leaf {
		a.Scope |= enums.ScopeLeaf
	}

	size := int64(len(it.n.Data))

	if it.root {
		for _, step := range s.Hooks.Of("stat") {
			size = HookSize(step, size)
		}
	}

	a.Entry, a.Info = "-", fmt.Sprintf("%s,%d,%v", it.n.Name, size, it.n.Dir)
	if !it.root {
		a.Entry = fmt.Sprintf("%s,%v", it.n.Name, it.n.Dir)

		if e := s.FS.InfoFailure(it.path); e != nil {
			a.Info, a.Err = "-", e.Error()
		}
	}

	it.subj = &Subject{Name: name, Dir: it.n.Dir, Depth: it.depth, Scope: a.Scope}
	if it.up != nil {
		it.subj.Parent = it.up.subj
	}

	switch s.Sub {
	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
		order = dirs
	default:
		if s.FilesFirst {
			order = append(append(order, files...), dirs...)
		} else {
			order = append(append(order, dirs...), files...)
		}
	}

	r.emit("descend", it.path, nil, "")

	sig := r.body(it, a, order, files, dirs, failed)

	if sig == stop && strings.HasPrefix(r.err, "panic") {
		// listeners still hear of it
		r.emit("ascend", it.path, a, "")
		return sig
	}

	r.emit("ascend", it.path, a, "")

	return sig
}

func (r *run) body(it *item, a *Attr, order, files, dirs []*vfs.Node, failed bool) signal {
	s := r.s

	if s.Sub != enums.SubscribeFiles || !it.n.Dir {
		switch strings.TrimSuffix(r.offer(it, a, files), "~") {
		case "":
		case "skipdir":
			if it.n.Dir {
				return goOn
			}

			return skipRest
		case "skipall":
			return stop
		case "panic", "panicerr", "panicnil", "panicindex", "panicstruct":
			r.err = "panic"
			if it.up != nil {
				r.t.At, r.t.AtDepth, r.t.AtM = it.up.path, it.up.depth, r.t.M
			}

			return stop
		default:
			return stop
		}
	}

	if it.n.Dir {
		if s.HasAsk {
			ds, fsn := names(dirs), names(files)
			sort.Strings(ds)
			sort.Strings(fsn)
			r.emit("ask", it.path, nil, fmt.Sprintf("failed=%v dirs=%q files=%q", failed, ds, fsn))
		}

		switch s.Ask[it.path] {
		case "all":
			return stop
		case "allerr":
			r.err = "askerr"
			return stop
		case "direrr":
			r.err = "askerr"
			return stop
		case "dir":
			return goOn
		}

		if failed && s.Sub == enums.SubscribeFiles {
			return goOn // what was read before the failure is not visited
		}
	}

	for _, k := range order {
		kid := &item{n: k, path: path.Join(it.path, k.Name), depth: it.depth + 1, up: it}
		kid.chain = append([]string{it.path}, it.chain...)

		switch r.visit(kid) {
		case skipRest:
			return goOn
		case stop:
			return stop
		}
	}

	return goOn
}

// offer the node to the callback, which the hibernation and filters may
// prevent.
func (r *run) offer(it *item, a *Attr, files []*vfs.Node) string {
	s := r.s

	if s.Wake != nil || s.Sleep != nil {
		switch r.state {
		case 0:
			if !s.Wake.Match(it.subj) {
				return ""
			}

			r.emit("wake", "", nil, s.Wake.Describe())
			r.state = 1

			if s.ExclWake {
				return ""
			}
		case 1:
			if s.Sleep != nil && s.Sleep.Match(it.subj) {
				r.emit("sleep", "", nil, s.Sleep.Describe())
				r.state = 2

				if !s.InclSleep {
					return ""
				}
			}
		case 2:
			return "skipall"
		}
	}

	if s.Sub == enums.SubscribeDirectoriesWithFiles && !s.Active() {
		a.Children = names(files)
		r.t.M.ChildFound += uint(len(files))
	}

	if f := s.primary(); f != nil {
		if !f.Match(it.subj) {
			if it.n.Dir {
				r.t.M.DirsOut++
			} else {
				r.t.M.FilesOut++
			}

			return ""
		}
	} else if s.SampleScheme() && it.root {
		f := s.Sample
		if (f.Scope == enums.ScopeDirectory) == it.n.Dir && !f.entry(it.n) {
			return ""
		}
	}

	if f := s.Child; f != nil {
		a.Children = []string{}

		for _, k := range files {
			if f.entry(k) {
				a.Children = append(a.Children, k.Name)
			} else {
				r.t.M.ChildOut++
			}
		}

		r.t.M.ChildFound += uint(len(a.Children))
	}

	if it.n.Dir {
		r.t.M.Dirs++
	} else {
		r.t.M.Files++
	}

	act := s.Ret[it.path]
	r.emit("invoke", it.path, a, act)

	switch strings.TrimSuffix(act, "~") {
	case "", "skipdir", "skipall", "panic", "panicerr", "panicnil", "panicindex", "panicstruct":
	default:
		r.err = act
	}

	return act
}

func (s *Spec) primary() *Filter {
	if s.Custom != nil {
		return s.Custom
	}

	return s.Node
}
