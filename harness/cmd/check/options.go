package main

import (
	"fmt"
	"io/fs"
	"log/slog"
	"runtime"
	"strings"

	age "github.com/snivilised/agenor"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	lf "github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func init() {
	checks["P26"] = p26
	checks["P27"] = p27
}

// ---------------------------------------------------------------------- P26

// composer makes a sequence of options, and keeps account of what it amounts to.
type composer struct {
	g     *gen.G
	s     *model.Spec
	out   []pref.Option
	log   []string
	bad   []string
	calls map[string]int // of the handlers, by tag
	want  map[string]string
	check []func() // whether the client's structures are as they were
	now   uint
	admin string
	outs  pref.OutputOptions
	logg  *slog.Logger
	hooks bool
	cased bool
	begun []string
	begin []string // expected
}

func (c *composer) complain(f string, args ...any) { c.bad = append(c.bad, fmt.Sprintf(f, args...)) }

// intact makes a note of a structure of the client's.
func intact[T any](c *composer, what string, p *T) *T {
	before := *p

	c.check = append(c.check, func() {
		if a, b := fmt.Sprintf("%+v", before), fmt.Sprintf("%+v", *p); a != b {
			c.complain("the client's %s was changed from %s to %s", what, a, b)
		}
	})

	return p
}

// def of a filter, watched.
func (c *composer) def(f *model.Filter) *core.FilterDef {
	if f == nil {
		return nil
	}

	return intact(c, "filter definition", exec.Def(f))
}

// give an option, in one of the ways there are.
func (c *composer) give(what string, o pref.Option, deed func()) {
	counts, wrong := 0, 0
	yes := func() pref.Option { counts++; return o }
	no := func() pref.Option {
		wrong++
		return func(*pref.Options) error { c.complain("an option that was ruled out is applied"); return nil }
	}

	way := c.g.Intn(10)
	expect := 0
	c.log = append(c.log, fmt.Sprint(what, "/", way))

	switch way {
	case 0:
		c.out = append(c.out, age.IfOption(true, o))
	case 1:
		expect = 1
		c.out = append(c.out, age.IfOptionF(true, yes))
	case 2:
		expect = 1
		c.out = append(c.out, age.IfElseOptionF(true, yes, no))
	case 3:
		expect = 1
		c.out = append(c.out, age.IfElseOptionF(false, no, yes))
	case 4: // is ruled out
		deed = nil
		c.out = append(c.out, age.IfOption(false, o))
	case 5:
		deed = nil
		c.out = append(c.out, age.IfOptionF(false, yes))
	case 6:
		deed = nil
		c.out = append(c.out, nil)
	default:
		c.out = append(c.out, o)
	}

	if counts != expect || wrong != 0 {
		c.complain("way %d: the function of the option is called %d times, the other %d times", way, counts, wrong)
	}

	if deed != nil {
		deed()
	}
}

func (c *composer) one(f *filters) {
	g, s := c.g, c.s

	switch g.Intn(20) {
	case 0:
		keep := g.P(1, 2)
		c.give("sub path", age.WithSubPathBehaviour(intact(c, "sub path", &pref.SubPathBehaviour{KeepTrailingSep: keep})),
			func() { s.NoSep = !keep })
	case 1:
		sb := &pref.SortBehaviour{IsCaseSensitive: g.P(1, 2), SortFilesFirst: g.P(1, 2)}
		c.give("sort", age.WithSortBehaviour(intact(c, "sort", sb)), func() { c.sorted(*sb) })
	case 2, 3:
		d := gen.Pick[uint](g, 0, 1, 2, 2, 3, 4)
		c.give("depth", age.WithDepth(d), func() { s.Depth = d })
	case 4:
		c.give("no recurse", age.WithNoRecurse(), func() { s.NoRecurse = true })
	case 5:
		nb := &pref.NavigationBehaviours{
			SubPath: pref.SubPathBehaviour{KeepTrailingSep: g.P(1, 2)},
			Sort:    pref.SortBehaviour{IsCaseSensitive: g.P(1, 2), SortFilesFirst: g.P(1, 2)},
			Cascade: pref.CascadeBehaviour{Depth: gen.Pick[uint](g, 0, 0, 1, 2, 3), NoRecurse: g.P(1, 5)},
		}
		c.give("behaviours", age.WithNavigationBehaviours(intact(c, "behaviours", nb)), func() {
			s.NoSep, s.Depth, s.NoRecurse = !nb.SubPath.KeepTrailingSep, nb.Cascade.Depth, nb.Cascade.NoRecurse
			c.sorted(nb.Sort)
		})
	case 6, 7:
		var x model.Spec
		if g.P(2, 3) {
			x.Node = f.node()
		}

		if g.P(1, 4) {
			x.Custom = f.custom()
		}

		if g.P(1, 3) {
			x.Child = f.child()
		}

		fo := &pref.FilterOptions{Node: c.def(x.Node), Child: exec.ChildDef(x.Child)}
		if x.Custom != nil {
			fo.Custom = exec.CustomOf(x.Custom)
		}

		c.give("filter", age.WithFilter(intact(c, "filter", fo)), func() { s.Node, s.Custom, s.Child = x.Node, x.Custom, x.Child })
	case 8, 9:
		q := &model.Samp{Type: gen.Pick(g, enums.SampleTypeUndefined, enums.SampleTypeSlice, enums.SampleTypeFilter),
			Rev: g.P(1, 2), Files: uint(g.Intn(4)), Dirs: uint(g.Intn(4))}
		c.give("sampling", age.WithSamplingOptions(intact(c, "sampling", &pref.SamplingOptions{Type: q.Type,
			InReverse: q.Rev, NoOf: pref.EntryQuantities{Files: q.Files, Directories: q.Dirs}})), func() { s.Sampling = q })
	case 10:
		x := f.node()
		c.give("wake", age.WithHibernationFilterWake(c.def(x)), func() { s.Wake = x })
	case 11:
		x := f.node()
		c.give("sleep", age.WithHibernationFilterSleep(c.def(x)), func() { s.Sleep = x })
	case 12:
		c.give("exclusive wake", age.WithHibernationBehaviourExclusiveWake(), func() { s.ExclWake = true })
	case 13:
		c.give("inclusive sleep", age.WithHibernationBehaviourInclusiveSleep(), func() { s.InclSleep = true })
	case 14:
		var wake, sleep *model.Filter
		if g.P(1, 2) {
			wake = f.node()
		}

		if g.P(1, 2) {
			sleep = f.node()
		}

		incW, incS := g.P(1, 2), g.P(1, 2)
		c.give("hibernation", age.WithHibernationOptions(intact(c, "hibernation", &core.HibernateOptions{WakeAt: c.def(wake),
			SleepAt: c.def(sleep), Behaviour: core.HibernationBehaviour{InclusiveWake: incW, InclusiveSleep: incS}})),
			func() { s.Wake, s.Sleep, s.ExclWake, s.InclSleep = wake, sleep, !incW, incS })
	case 15:
		if g.P(1, 3) {
			c.give("cpu", age.WithCPU(), func() { c.now = uint(runtime.NumCPU()) })
			return
		}

		n := uint(1 + g.Intn(40))
		c.give("now", age.WithNoW(n), func() { c.now = n })
	case 16:
		if g.P(1, 2) {
			a := fmt.Sprintf("/verif/admin-%d", g.Intn(100))
			c.give("admin", age.WithAdminPath(a), func() { c.admin = a })

			return
		}

		l := slog.New(slog.DiscardHandler)
		c.give("logger", age.WithLogger(l), func() { c.logg = l })
	case 17:
		tag := fmt.Sprint("skip ", len(c.out))
		c.give(tag, age.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, _ error) (enums.SkipTraversal, error) {
			c.calls[tag]++
			return enums.SkipNoneTraversal, nil
		})), func() { c.want["skip"] = tag })
	case 18:
		switch tag := fmt.Sprint("fault ", len(c.out)); g.Intn(3) {
		case 0:
			c.give(tag, age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
				c.calls[tag]++
				return f.Err
			})), func() { c.want["fault"] = tag })
		case 1:
			tag = fmt.Sprint("panic ", len(c.out))
			c.give(tag, age.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) {
				c.calls[tag]++
				return "", nil
			})), func() { c.want["panic"] = tag })
		case 2:
			o := &pref.OutputOptions{Size: uint(g.Intn(50))}
			c.give("output", age.WithOutput(o), func() { c.outs = *o })
		}
	case 19:
		if g.P(1, 3) {
			c.give("case sensitive hook", age.WithHookCaseSensitiveSort(), func() { c.hooks = true })
			return
		}

		tag := fmt.Sprint("begin ", len(c.out))
		c.give(tag, age.WithOnBegin(func(*lf.BeginState) { c.begun = append(c.begun, tag) }),
			func() { c.begin = append(c.begin, tag) })
	}
}

func (c *composer) sorted(sb pref.SortBehaviour) {
	c.s.FilesFirst, c.s.CaseSens = sb.SortFilesFirst, 0
	if sb.IsCaseSensitive {
		c.s.CaseSens = 1
	}
}

// filters that are defined for a tree.
type filters struct {
	g     *gen.G
	s     *model.Spec
	kinds []string
}

func (f *filters) node() *model.Filter   { return f.g.NodeFilter(f.s.FS, f.s.Tree, f.kinds...) }
func (f *filters) custom() *model.Filter { return f.g.NodeFilter(f.s.FS, f.s.Tree, "custom") }
func (f *filters) child() *model.Filter {
	return f.g.EntryFilter(f.s.FS, f.s.Tree, "glob", "regex")
}

func p26(r *rig.Rig) {
	run := func(trouble string) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			sh := gen.Shape{Max: 20, MaxKids: 4, Deep: 4, Lower: g.P(2, 3)}
			s := g.Spec(gen.Feature{Shape: sh})
			s.Spell = ""
			c := &composer{g: g, s: s, calls: map[string]int{}, want: map[string]string{}, now: uint(runtime.NumCPU())}
			f := &filters{g: g, s: s, kinds: []string{"glob", "regex", "globex", "poly"}}

			if !sh.Lower {
				f.kinds = f.kinds[:2]
			}

			for range g.Intn(14) {
				c.one(f)
			}

			c.cased = s.CaseSens == 1
			if c.hooks { // what is tapped prevails over the behaviour
				s.CaseSens = 2
			}

			dirs, files := gen.Paths(s.FS, s.Tree)
			at := gen.Pick(g, append(dirs, files...)...)

			switch trouble {
			case "read":
				s.FS.ReadErr[at] = exec.ErrRead
			case "stat":
				s.FS.StatErr[s.Tree] = exec.ErrStat
			case "panic":
				if at != s.Tree {
					s.Ret = map[string]string{at: "panic"}
				}
			}

			s.Listeners, s.HasAsk = 0, c.want["skip"] != ""
			got := exec.WalkOpts(s, c.out...)
			want := model.Run(s)

			if !compare(r, "effect", s, model.Proj{Kinds: "invoke", Attrs: true, Children: true, Chain: true}, want, got) {
				return
			}

			r.Count("options "+fmt.Sprintf("%02d", len(c.out)), 1)

			o := got.Opts
			if o == nil {
				r.Fail("options", "the last option isn't applied", s)
				return
			}

			r.Equal("in force", inForce(c.expected()), inForce(o), s)

			if c.logg != nil {
				r.Same("logger", fmt.Sprintf("%p", c.logg), fmt.Sprintf("%p", o.Monitor.Log), s)
			}

			if c.admin != "" {
				r.Same("admin path", c.admin, o.Monitor.Admin.Path, s)
			}

			if n := o.Concurrency.Output.Size; n != c.outs.Size {
				r.Fail("output", fmt.Sprintf("size %d, expected %d", n, c.outs.Size), s)
			}

			// all of the listeners; of the handlers only the last
			r.Equal("listeners", rig.Sorted(c.begin), rig.Sorted(c.begun), s)

			for tag, n := range c.calls {
				kind, _, _ := strings.Cut(tag, " ")
				if c.want[kind] != tag {
					r.Fail("handler", fmt.Sprintf("%q is called %d times, %q is in force", tag, n, c.want[kind]), s)
				}

				r.Count("calls of the handler in force: "+kind, n)
			}

			asks := 0

			for _, e := range want.Evs {
				if e.K == "ask" {
					asks = 1
				}
			}

			for _, kind := range []string{"fault", "panic", "skip"} {
				tag := c.want[kind]
				if tag == "" {
					continue
				}

				n := asks
				if kind != "skip" {
					n = 0

					if kind == "fault" && trouble == "stat" || kind == "panic" && want.Err == "panic" {
						n = 1
					}
				}

				if k := c.calls[tag]; k != n && (kind != "skip" || min(k, 1) < n) {
					r.Fail("handler", fmt.Sprintf("%q is called %d times, expected %d", tag, c.calls[tag], n), s)
				}
			}

			for _, fn := range c.check {
				fn()
			}

			for _, x := range c.bad {
				r.Fail("client", x, s)
			}
		}
	}

	r.Cases("sequences", r.N(1500, 6000), run(""))
	r.Cases("unreadable", r.N(300, 1200), run("read"))
	r.Cases("no tree", r.N(300, 1200), run("stat"))
	r.Cases("panics", r.N(400, 1600), run("panic"))
}

// expected options in force, in the form of a structure of the interface.
func (c *composer) expected() *pref.Options {
	s := c.s
	o := &pref.Options{}
	o.Behaviours.SubPath.KeepTrailingSep = !s.NoSep
	o.Behaviours.Sort = pref.SortBehaviour{IsCaseSensitive: c.cased, SortFilesFirst: s.FilesFirst}
	o.Behaviours.Cascade = pref.CascadeBehaviour{Depth: s.Depth, NoRecurse: s.NoRecurse}

	if s.NoRecurse {
		o.Behaviours.Cascade.Depth = 1
	}

	if q := s.Sampling; q != nil {
		o.Sampling = pref.SamplingOptions{Type: q.Type, InReverse: q.Rev, NoOf: pref.EntryQuantities{Files: q.Files, Directories: q.Dirs}}
	}

	o.Filter.Node, o.Filter.Child = exec.Def(s.Node), exec.ChildDef(s.Child)
	o.Hibernate = core.HibernateOptions{WakeAt: exec.Def(s.Wake), SleepAt: exec.Def(s.Sleep),
		Behaviour: core.HibernationBehaviour{InclusiveWake: !s.ExclWake, InclusiveSleep: s.InclSleep}}
	o.Concurrency.NoW = c.now

	return o
}

// ---------------------------------------------------------------------- P27

func p27(r *rig.Rig) {
	sh := gen.Shape{Max: 30, MaxKids: 5, Deep: 5}

	one := func(custom bool) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(gen.Feature{Shape: sh, Node: 8, Child: 5, Case: 2, FilesFirst: 2, Depth: 2, Info: 1})

			if s.Node == nil && s.Child == nil {
				s.Child = g.EntryFilter(s.FS, s.Tree, "glob", "regex")
			}

			if custom {
				s.Custom = g.NodeFilter(s.FS, s.Tree, "custom")
			}

			s.Listeners = 0

			var (
				replies []pref.FilterReply
				early   = true
				node    core.TraverseFilter
				child   core.ChildTraverseFilter
				told    []string // what the filter of the sink says
				invoked = map[string]bool{}
				kids    = map[string][]string{}
			)

			fo := &pref.FilterOptions{Node: exec.Def(s.Node), Child: exec.ChildDef(s.Child), Sink: func(reply pref.FilterReply) {
				if !early {
					r.Fail("late", "the sink is called after the traversal has begun", s)
				}

				replies = append(replies, reply)

				if reply.Node != nil {
					node = reply.Node
				}

				if reply.Child != nil {
					child = reply.Child
				}
			}}
			if custom {
				fo.Custom = exec.CustomOf(s.Custom)
			}

			verdicts := map[string]bool{}
			applies := map[string]bool{}

			got := exec.Walk(s, age.WithFilter(fo),
				age.WithOnBegin(func(*lf.BeginState) { early = false }),
				age.WithOnAscend(func(n *core.Node) {
					if node != nil {
						verdicts[n.Path], applies[n.Path] = node.IsMatch(n), node.IsApplicable(n)
					}
				}))

			want := model.Run(s)
			if !compare(r, "effect", s, model.Proj{Kinds: "invoke", Attrs: true, Children: true}, want, got) {
				return
			}

			for _, e := range got.Evs {
				if e.K == "invoke" {
					invoked[e.Path] = true
					kids[e.Path] = e.A.Children
				}
			}

			expect := 0
			if s.Node != nil && !custom {
				expect++
			}

			if s.Child != nil {
				expect++
			}

			if len(replies) != expect || (node != nil) != (s.Node != nil && !custom) || (child != nil) != (s.Child != nil) {
				r.Fail("replies", fmt.Sprintf("the sink is called %d times, with %v", len(replies), replies), s)
				return
			}

			if node != nil {
				for path, yes := range verdicts {
					if (s.Sub == enums.SubscribeDirectories || s.Sub == enums.SubscribeDirectoriesWithFiles) && !s.FS.At(path).Dir ||
						s.Sub == enums.SubscribeFiles && s.FS.At(path).Dir {
						continue
					}

					if yes != invoked[path] {
						r.Fail("verdict", fmt.Sprintf("%s: the filter of the sink says %v, invoked %v", path, yes, invoked[path]), s)
						return
					}

					told = append(told, fmt.Sprint(path, yes))
				}

				r.Count("verdicts", len(told))

				if s.Node.Kind != "poly" {
					r.Same("description", s.Node.Desc, node.Description(), s)

					if node.Scope() == enums.ScopeUndefined || s.Node.Scope != enums.ScopeUndefined && s.Node.Kind != "globex" && node.Scope() != s.Node.Scope {
						r.Fail("scope", fmt.Sprintf("%v of the filter, %v defined", node.Scope(), s.Node.Scope), s)
					}

					r.Same("source", exec.Def(s.Node).Pattern, node.Source(), s)
				} else if both := enums.ScopeFile | enums.ScopeDirectory; s.Node.Dir.Kind != "globex" && node.Scope()&both != both {
					r.Fail("scope", fmt.Sprintf("%v of a poly filter", node.Scope()), s)
				} else if p := exec.Def(s.Node).Poly; node.Source() != p.File.Pattern+"##"+p.Directory.Pattern {
					r.Fail("source", fmt.Sprintf("%q of the filter, %q and %q defined", node.Source(), p.File.Pattern, p.Directory.Pattern), s)
				} else if d := node.Description(); !strings.Contains(d, s.Node.File.Desc) || !strings.Contains(d, s.Node.Dir.Desc) {
					r.Fail("description", d, s)
				}
			}

			if child != nil {
				r.Same("child", s.Child.Desc+"/"+s.Child.Pattern, child.Description()+"/"+child.Source(), s)

				if s.Sub != enums.SubscribeDirectoriesWithFiles {
					return
				}

				for path, names := range kids {
					es, err := s.FS.ReadDir(path)
					if err != nil {
						continue
					}

					var files []fs.DirEntry

					for _, e := range es {
						if !e.IsDir() && e.Name() != ".DS_Store" {
							files = append(files, e)
						}
					}

					r.Equal("matching", rig.Sorted(names), rig.Sorted(exec.Entries(child.Matching(files))), s)
				}
			}

			r.Observe(rig.Sorted(told)...)
		}
	}

	r.Cases("derived", r.N(1500, 6000), one(false))
	r.Cases("custom", r.N(300, 1200), one(true))
}
