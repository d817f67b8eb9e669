package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
)

const (
	life  = "begin end descend ascend"
	hiber = "wake sleep"
)

func init() {
	checks["P01"] = p01
	checks["P02"] = p02
	checks["P03"] = p03
	checks["P04"] = p04
	checks["P05"] = p05
	checks["P06"] = p06
	checks["P07"] = p07
	checks["P08"] = p08
	checks["P09"] = p09
	checks["P10"] = p10
	checks["P11"] = p11
}

// metrics that are claimed for a specification.
func metrics(s *model.Spec, m model.Metrics) model.Metrics {
	if s.SampleScheme() {
		m.ChildFound, m.ChildOut = 0, 0
	}

	return m
}

func noErr(r *rig.Rig, s *model.Spec, got *exec.Run) {
	if got.NavErr != nil {
		r.Fail("error", fmt.Sprintf("unexpected error: %v", got.NavErr), s)
	}
}

// ---------------------------------------------------------------------- P01

func p01(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke"}

	r.Cases("any", r.N(2500, 40000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Case: 3, FilesFirst: 4, FileRoot: 3, NoSep: 3})
		_, got, _ := differ(r, s, pr)
		noErr(r, s, got)

		// an unfiltered traversal of the same tree, listed differently
		want := pr.Render(got.Evs)
		s.FS.Shuffle(g.Rand)
		again := exec.Walk(s)
		r.Equal("listing order", want, pr.Render(again.Evs), s)
	})

	r.Cases("cased", r.N(600, 8000), func(seed int64) {
		// names that differ by case only, where that matters
		g := gen.New(seed)
		s := &model.Spec{Sub: gen.Pick(g, gen.AllSubs...), CaseSens: 1 + g.Intn(2), FilesFirst: g.P(1, 2)}
		s.FS = vfs.New(true)
		s.Tree = "t"
		s.FS.Mk("t", true)

		for range 3 + g.Intn(12) {
			p := "t"
			for range 1 + g.Intn(3) {
				p += "/" + gen.Pick(g, "a", "A", "b", "B", "aB", "AB", "ab", "Ab", "_", "é", "É", "z", "Z")
			}

			mk(s.FS, p, g.P(1, 2))
		}

		s.FS.Shuffle(g.Rand)
		s.Listing = s.FS.Listing()
		differ(r, s, pr)
	})

	r.Cases("wide", r.N(20, 200), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 600, MaxKids: 80, Deep: 8}, FilesFirst: 5})
		differ(r, s, pr)
	})

	r.Cases("deep", r.N(20, 200), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 300, MaxKids: 2, Deep: 150, DirBias: 9}, FilesFirst: 5})
		differ(r, s, pr)
	})

	r.Cases("dot", r.N(40, 400), func(seed int64) {
		// the tree is the root of a relative file system
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Rel: true}})
		s.Tree = "."
		differ(r, s, pr)
	})

	r.Cases("disk", r.N(60, 600), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 25}, FilesFirst: 4})
		disk(r, g, s, pr)
	})
}

// mk makes p unless an ancestor is a file.
func mk(f *vfs.FS, p string, dir bool) {
	for q := path.Dir(p); q != "."; q = path.Dir(q) {
		if n := f.At(q); n != nil && !n.Dir {
			return
		}
	}

	f.Mk(p, dir)
}

// disk performs the specification on a copy of its tree in a scratch
// directory, with the file systems that are used by default.
func disk(r *rig.Rig, g *gen.G, s *model.Spec, pr model.Proj) {
	if s.Tree == "." || s.Tree == "/" {
		return
	}

	base, ok := lay(s)
	defer os.RemoveAll(base)

	if !ok {
		return
	}

	old := s.Tree
	want := model.Run(s)
	s.Tree = filepath.Join(base, path.Base(old))

	if g.P(1, 3) {
		s.Spell = s.Tree + "/"
	}

	got := exec.WalkDisk(s)

	for i := range want.Evs {
		e := &want.Evs[i]
		e.Path = s.Tree + strings.TrimPrefix(e.Path, old)
	}

	r.Count("disk traversals", 1)
	compare(r, "disk", s, pr, want, got)

	// and by relative file systems rooted at the scratch directory
	rel := path.Base(old)
	s.Tree = rel
	got = exec.WalkRel(s, base)
	want2 := *want

	for i := range want2.Evs {
		e := &want2.Evs[i]
		e.Path = rel + strings.TrimPrefix(e.Path, filepath.Join(base, rel))
	}

	compare(r, "disk, relative", s, pr, &want2, got)

	// or from the current directory
	if err := os.Chdir(base); err != nil {
		panic(err)
	}

	s.Spell = gen.Pick(g, "", "./"+rel, rel+"/", "./"+rel+"/", "x/../"+rel)
	got = exec.WalkDisk(s)
	compare(r, "disk, current directory", s, pr, &want2, got)

	if err := os.Chdir("/"); err != nil {
		panic(err)
	}

	// and from the root of one
	s.Tree = "."
	got = exec.WalkRel(s, filepath.Join(base, rel))

	for i := range want2.Evs {
		e := &want2.Evs[i]
		if e.Path = strings.TrimPrefix(strings.TrimPrefix(e.Path, rel), "/"); e.Path == "" {
			e.Path = "."
		}
	}

	compare(r, "disk, root", s, pr, &want2, got)
}

// lay out the tree of s in a scratch directory.
func lay(s *model.Spec) (base string, ok bool) {
	base, err := os.MkdirTemp("", "verif-disk-")
	if err != nil {
		panic(err)
	}

	ok = true

	var put func(n *vfs.Node, at string)
	put = func(n *vfs.Node, at string) {
		p := filepath.Join(at, n.Name)
		if n.Dir {
			ok = ok && os.MkdirAll(p, 0o755) == nil
			for _, k := range n.Kids {
				put(k, p)
			}

			return
		}

		n.Link = false
		ok = ok && os.WriteFile(p, n.Data, 0o644) == nil
	}
	put(s.FS.At(s.Tree), base)

	return base, ok
}

// ---------------------------------------------------------------------- P02

func p02(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke ascend", Attrs: true, Chain: true}

	r.Cases("any", r.N(2500, 40000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Case: 1, FilesFirst: 3, NoSep: 5, Info: 2, FileRoot: 3, Listeners: 5})
		differ(r, s, pr)
	})

	r.Cases("combined", r.N(1000, 15000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{FilesFirst: 3, NoSep: 5, Info: 1, Node: 3, Child: 2, Depth: 3, Sampling: 3, Fail: 1, Listeners: 5})
		differ(r, s, pr)
	})

	r.Cases("deep", r.N(30, 200), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 200, MaxKids: 2, Deep: 100, DirBias: 9}, NoSep: 5})
		differ(r, s, pr)
	})
}

// ---------------------------------------------------------------------- P03

func p03(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke descend ascend", Attrs: true}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			want, got, _ := differ(r, s, pr)

			// nothing is read below the limit
			limit := int(min(s.Depth, 1<<40))
			if s.NoRecurse {
				limit = 1
			}

			if limit > 0 {
				for _, p := range got.Reads {
					if d := depthOf(s.Tree, p); d > limit {
						r.Fail("read", fmt.Sprintf("%s at depth %d is read, limit %d", p, d, limit), s)
					}
				}
			}

			for _, e := range got.Evs {
				if e.K == "invoke" {
					r.Count(fmt.Sprintf("invoked at depth %d of limit %d", min(depthOf(s.Tree, e.Path), 9), min(limit, 9)), 1)
				}
			}

			_ = want
		}
	}

	deep := gen.Shape{Max: 40, MaxKids: 4, Deep: 8, DirBias: 7}
	r.Cases("depth", r.N(2000, 30000), one(gen.Feature{Shape: deep, Depth: 8, NoRecurse: 1, Listeners: 10, FilesFirst: 3}))
	r.Cases("norecurse", r.N(400, 4000), one(gen.Feature{Shape: deep, NoRecurse: 8, Depth: 2, Listeners: 10, FilesFirst: 3}))
	r.Cases("combined", r.N(1000, 15000), one(gen.Feature{Shape: deep, NoRecurse: 2, Depth: 8, Listeners: 7, Node: 5, Child: 3, Sampling: 3, SampleFilter: 5, FilesFirst: 3, Hib: 1}))
}

func depthOf(tree, p string) int {
	switch {
	case p == tree:
		return 0
	case tree == ".":
		return 1 + strings.Count(p, "/")
	case tree == "/":
		return strings.Count(p, "/")
	}

	return strings.Count(strings.TrimPrefix(p, tree), "/")
}

// ---------------------------------------------------------------------- P04

func p04(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke"}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			want, got, _ := differ(r, s, pr)
			noErr(r, s, got)
			r.Count("passed", int(want.M.Files+want.M.Dirs))
			r.Count("rejected", int(want.M.FilesOut+want.M.DirsOut))

			if s.Node != nil {
				r.Count("with "+s.Node.Kind, 1)
			}
		}
	}

	r.Cases("node", r.N(4000, 60000), one(gen.Feature{Node: 10, FilesFirst: 2, FileRoot: 2}))
	r.Cases("custom", r.N(400, 4000), one(gen.Feature{Node: 4, Custom: 10}))
	r.Cases("combined", r.N(1200, 15000), one(gen.Feature{Node: 10, Custom: 1, Child: 3, Depth: 3, Sampling: 2, Case: 2, FilesFirst: 3}))
	r.Cases("failing", r.N(300, 3000), one(gen.Feature{Node: 10, Fail: 5, Info: 3}))
}

// ---------------------------------------------------------------------- P05

func p05(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke", Children: true}
	dwf := []enums.Subscription{enums.SubscribeDirectoriesWithFiles}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			want, got, _ := differ(r, s, pr)
			noErr(r, s, got)
			r.Count("children", int(want.M.ChildFound))
			r.Count("children rejected", int(want.M.ChildOut))
		}
	}

	r.Cases("plain", r.N(1000, 15000), one(gen.Feature{Subs: dwf, Shape: gen.Shape{DirBias: 4}, Case: 2, FilesFirst: 3, Depth: 1}))
	r.Cases("child", r.N(1500, 20000), one(gen.Feature{Subs: dwf, Shape: gen.Shape{DirBias: 4}, Child: 10, Case: 2, Depth: 1}))
	r.Cases("hybrid", r.N(1500, 20000), one(gen.Feature{Subs: dwf, Shape: gen.Shape{DirBias: 4}, Child: 7, Node: 7, Custom: 2, Case: 1}))
	r.Cases("universal", r.N(500, 6000), one(gen.Feature{Subs: []enums.Subscription{enums.SubscribeUniversal, enums.SubscribeDirectories, enums.SubscribeFiles}, Child: 10, Node: 3, Case: 1}))
	r.Cases("hib", r.N(300, 3000), one(gen.Feature{Subs: dwf, Child: 5, Hib: 10}))
	r.Cases("sampling", r.N(400, 3000), one(gen.Feature{Subs: dwf, Child: 5, Sampling: 10}))
	r.Cases("failing", r.N(300, 3000), one(gen.Feature{Subs: dwf, Child: 5, Fail: 10}))
}

// ---------------------------------------------------------------------- P06

func p06(r *rig.Rig) {
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			pr := model.Proj{Kinds: "invoke", Attrs: true, Children: !s.SampleScheme()}
			want, got, _ := differ(r, s, pr)
			noErr(r, s, got)

			// what is not selected is not read either
			sel := map[string]bool{}
			for _, p := range want.Reads {
				sel[p] = true
			}

			for _, p := range got.Reads {
				if !sel[p] {
					r.Fail("read", p+" is read, but was not selected", s)
				}
			}

			if s.Sampling != nil {
				r.Count(fmt.Sprintf("rev=%v files=%d dirs=%d", s.Sampling.Rev, s.Sampling.Files, s.Sampling.Dirs), 1)
			}
		}
	}

	big := gen.Shape{Max: 60, MaxKids: 9, Deep: 5}
	r.Cases("slice", r.N(2000, 25000), one(gen.Feature{Shape: big, Sampling: 10, FilesFirst: 3, Case: 2}))
	r.Cases("filter", r.N(2000, 25000), one(gen.Feature{Shape: big, Sampling: 10, SampleFilter: 10, FilesFirst: 2}))
	r.Cases("partial", r.N(600, 6000), func(seed int64) {
		// directories that can be read in part only, which the hook lets pass
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: big, Sampling: 10, SampleFilter: 2, Fail: 10, Ask: 10, FilesFirst: 3})
		plan(g, s, 0)
		s.Hooks.Part = true
		s.Hooks.Steps["read"] = []int{0}

		if g.P(1, 3) {
			s.Hooks.Steps["read"] = append(s.Hooks.Steps["read"], 1+g.Intn(4))
		}

		pr := model.Proj{Kinds: "invoke ask", Attrs: true, Notes: true, Children: !s.SampleScheme()}
		want := model.Run(s)
		_, os := exec.Hooks(s)
		compare(r, "trace", s, pr, want, exec.Walk(s, os...))
	})
	r.Cases("combined", r.N(1000, 10000), one(gen.Feature{Shape: big, Sampling: 10, SampleFilter: 5, Node: 3, Child: 3, Depth: 3, NoSep: 2, FilesFirst: 2}))
}

// ---------------------------------------------------------------------- P07

func p07(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke " + hiber, Notes: true}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			_, got, _ := differ(r, s, pr)
			noErr(r, s, got)

			woke, slept := 0, 0
			for _, e := range got.Evs {
				switch e.K {
				case "wake":
					woke++
				case "sleep":
					slept++
				}
			}

			r.Count(fmt.Sprintf("woke=%d slept=%d", woke, slept), 1)
		}
	}

	sh := gen.Shape{Max: 30, MaxKids: 5, Deep: 5}
	r.Cases("window", r.N(3500, 50000), one(gen.Feature{Shape: sh, Hib: 10, Listeners: 10, FilesFirst: 2}))
	r.Cases("combined", r.N(1500, 20000), one(gen.Feature{Shape: sh, Hib: 10, Listeners: 10, Node: 5, Custom: 2, Child: 3, Depth: 2, Sampling: 2, FilesFirst: 2}))
	r.Cases("no listener", r.N(200, 2000), one(gen.Feature{Shape: sh, Hib: 10}))
}

// ---------------------------------------------------------------------- P08

func p08(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke " + life}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			want, got, _ := differ(r, s, pr)
			r.Same("error", "error="+want.Err, "error="+got.Err, s)
			r.Same("metrics", metrics(s, want.M), metrics(s, got.M), s)

			for _, e := range got.Evs {
				if e.K == "invoke" && e.Note != "" {
					r.Count(fmt.Sprintf("%.4s by dir=%v", e.Note, e.A.Dir), 1)
				}
			}
		}
	}

	sh := gen.Shape{Max: 30, MaxKids: 6, Deep: 5}
	r.Cases("script", r.N(4000, 60000), one(gen.Feature{Shape: sh, Ret: 10, Listeners: 7, FilesFirst: 4, FileRoot: 2}))
	r.Cases("many", r.N(600, 8000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: sh, Listeners: 7, FilesFirst: 4})
		dirs, files := gen.Paths(s.FS, s.Tree)
		s.Ret = map[string]string{}

		for _, p := range append(dirs, files...) {
			if g.P(1, 3) {
				s.Ret[p] = gen.Pick(g, "skipdir", "skipdir~")
			}
		}

		want, got, _ := differ(r, s, pr)
		r.Same("error", "error="+want.Err, "error="+got.Err, s)
		r.Same("metrics", want.M, got.M, s)
	})
	r.Cases("combined", r.N(1200, 15000), one(gen.Feature{Shape: sh, Ret: 10, Listeners: 5, Node: 4, Child: 3, Hib: 2, Depth: 3, Sampling: 3, FilesFirst: 4, Fail: 1}))
}

// ---------------------------------------------------------------------- P09

func p09(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke " + life + " " + hiber, Notes: true}
	one := func(ft gen.Feature, listeners ...int) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			s.Listeners = gen.Pick(g, listeners...)
			want, got, _ := differ(r, s, pr)

			session(r, s, got)

			if s.Listeners > 0 {
				if got.EndM == nil {
					r.Fail("end", "End was not notified", s)
				} else {
					r.Same("end", got.M, *got.EndM, s)
				}
			}

			_ = want
		}
	}

	r.Cases("plain", r.N(1500, 20000), one(gen.Feature{FilesFirst: 2, FileRoot: 3}, 1, 2, 3, 5, 9))
	r.Cases("ending", r.N(1500, 20000), one(gen.Feature{FilesFirst: 2, Ret: 7, Ask: 2}, 1, 2, 6))
	r.Cases("combined", r.N(1500, 20000), one(gen.Feature{FilesFirst: 2, Ret: 3, Node: 5, Hib: 3, Depth: 3, Sampling: 3, Child: 2, Fail: 2}, 1, 2, 3, 5, 9))
	r.Cases("panic", r.N(400, 4000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{FilesFirst: 2, Node: 2, Depth: 2})
		s.Listeners = 1 + g.Intn(3)

		if !panicAt(g, s, "panic") {
			return
		}

		differ(r, s, pr)
	})
	r.Cases("fault", r.N(60, 300), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{})
		s.Listeners = 1 + g.Intn(3)
		s.Fault = gen.Pick(g, "", "nil", "other", "same")
		s.FS.StatErr[s.Tree] = exec.ErrStat
		differ(r, s, pr)
	})
}

// session checks what the session of the result says, which is complete unless
// something went wrong.
func session(r *rig.Rig, s *model.Spec, got *exec.Run) {
	switch {
	case got.Session != "":
		r.Fail("session", got.Session, s)
	case got.NavErr == nil && !got.Complete && len(s.Ret) == 0 && len(s.Ask) == 0 && s.Wake == nil && s.Sleep == nil:
		r.Fail("session", "the session is not complete", s)
	}
}

// panicAt makes the callback panic at one of the nodes that would be invoked
// (not the tree itself).
func panicAt(g *gen.G, s *model.Spec, how string) bool {
	var at []string

	for _, e := range model.Run(s).Evs {
		if e.K == "invoke" && e.Path != s.Tree {
			at = append(at, e.Path)
		}
	}

	if len(at) == 0 {
		return false
	}

	s.Ret = map[string]string{gen.Pick(g, at...): how}

	return true
}

// ---------------------------------------------------------------------- P10

func p10(r *rig.Rig) {
	defer tidy()

	pr := model.Proj{Kinds: "invoke", Children: true}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			p := pr
			p.Children = !s.SampleScheme()
			want, got, ok := differ(r, s, p)

			r.Same("metrics", metrics(s, want.M), metrics(s, got.M), s)

			// independently of the model: against the log of the callback
			if ok {
				var m model.Metrics

				for _, e := range got.Evs {
					if e.K == "invoke" {
						if e.A.Dir {
							m.Dirs++
						} else {
							m.Files++
						}
					}
				}

				r.Same("log", fmt.Sprint(m.Files, m.Dirs), fmt.Sprint(got.M.Files, got.M.Dirs), s)
			}
		}
	}

	r.Cases("plain", r.N(800, 10000), one(gen.Feature{FilesFirst: 2, FileRoot: 3}))
	r.Cases("filters", r.N(2500, 30000), one(gen.Feature{FilesFirst: 2, Node: 8, Custom: 1, Child: 5}))
	r.Cases("ending", r.N(1000, 12000), one(gen.Feature{FilesFirst: 2, Node: 5, Child: 3, Ret: 8, Ask: 2, Fail: 2}))
	r.Cases("combined", r.N(1000, 12000), one(gen.Feature{FilesFirst: 2, Node: 5, Child: 3, Hib: 4, Depth: 4, Sampling: 4, SampleFilter: 3}))
	r.Cases("panic", r.N(400, 4000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{FilesFirst: 2, Node: 4, Child: 3, Depth: 2})

		if panicAt(g, s, gen.Pick(g, "panic", "panicerr")) {
			want, got, _ := differ(r, s, pr)
			r.Same("metrics", want.M, got.M, s)
		}
	})
	sh := gen.Shape{Max: 25, MaxKids: 4, Deep: 5}
	ft := gen.Feature{Shape: sh, FilesFirst: 2, Node: 3, Child: 3, Depth: 2}
	r.Cases("resumed fastward", r.N(300, 3000), resumeCase(r, enums.ResumeStrategyFastward, ft))
	r.Cases("resumed spawn", r.N(300, 3000), resumeCase(r, enums.ResumeStrategySpawn, ft))
	r.Cases("repeat", r.N(200, 2000), func(seed int64) {
		// sessions start from zero
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Node: 4, Child: 3})
		for range 3 {
			want, got, _ := differ(r, s, pr)
			r.Same("metrics", want.M, got.M, s)
		}
	})
}

// ---------------------------------------------------------------------- P11

func p11(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke ask fault oops " + life, Notes: true, Attrs: true, Children: true}
	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			p := pr
			p.Children = !s.SampleScheme()

			want, got, _ := differ(r, s, p)
			r.Same("error", "error="+want.Err, "error="+got.Err, s)

			for _, e := range got.Evs {
				if e.K == "ask" {
					r.Count(fmt.Sprintf("asked, %.11s, decided %q", e.Note, s.Ask[e.Path]), 1)
				}
			}
		}
	}

	sh := gen.Shape{Max: 30, MaxKids: 5, Deep: 5, DirBias: 6}
	r.Cases("default", r.N(1200, 15000), one(gen.Feature{Shape: sh, Fail: 10, Info: 3, Listeners: 5, FilesFirst: 2}))
	r.Cases("asked", r.N(2500, 30000), one(gen.Feature{Shape: sh, Fail: 7, Ask: 10, Listeners: 5, FilesFirst: 2, Info: 2}))
	r.Cases("info", r.N(500, 5000), one(gen.Feature{Shape: sh, Info: 10}))
	r.Cases("combined", r.N(1200, 15000), one(gen.Feature{Shape: sh, Fail: 10, Ask: 5, Node: 4, Child: 3, Depth: 3, Sampling: 3, SampleFilter: 3, Ret: 2}))
	r.Cases("partial", r.N(600, 6000), func(seed int64) {
		// directories that can be read in part only, which the hook lets pass
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: sh, Fail: 10, Ask: 7, Node: 2, Child: 2, Listeners: 5, FilesFirst: 2})
		plan(g, s, 0)
		s.Hooks.Part = true
		s.Hooks.Steps["read"] = append([]int{0}, g.Perm(4)[:g.Intn(2)]...)

		want := model.Run(s)
		_, os := exec.Hooks(s)
		got := exec.Walk(s, os...)
		compare(r, "trace", s, pr, want, got)
		r.Same("error", "error="+want.Err, "error="+got.Err, s)
	})
	r.Cases("stat", r.N(400, 3000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Node: 2, Child: 2, Hib: 1, Sampling: 1})
		s.Fault = gen.Pick(g, "", "nil", "other", "same")

		if g.P(1, 3) {
			s.Tree = path.Join(s.Tree, "absent")
		} else {
			s.FS.StatErr[s.Tree] = exec.ErrStat
		}

		want, got, _ := differ(r, s, model.Proj{Kinds: "invoke fault oops", Notes: true})
		r.Same("error", "error="+want.Err, "error="+got.Err, s)
		r.Same("metrics", model.Metrics{}, got.M, s)
	})
}

var (
	_ = fs.SkipAll
	_ = rand.Int
)
