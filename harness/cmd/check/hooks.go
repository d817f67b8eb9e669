package main

import (
	"fmt"
	"sort"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func init() {
	checks["P21"] = p21
}

func plan(g *gen.G, s *model.Spec, n int) { g.Plan(s, n) }

// ---------------------------------------------------------------------- P21

func p21(r *rig.Rig) {
	one := func(n int, ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			plan(g, s, n)

			pr := model.Proj{Kinds: "invoke descend ascend", Attrs: true, Children: !s.SampleScheme()}
			want := model.Run(s)
			log, os := exec.Hooks(s)
			got := exec.Walk(s, os...)
			compare(r, "trace", s, pr, want, got)
			r.Same("error", "error="+want.Err, "error="+got.Err, s)
			hooked(r, s, log, want)
		}
	}

	r.Cases("one", r.N(2000, 25000), one(1, gen.Feature{FilesFirst: 3, NoSep: 4, Listeners: 5, FileRoot: 4}))
	r.Cases("all", r.N(1500, 20000), one(5, gen.Feature{FilesFirst: 3, NoSep: 4, Listeners: 5}))
	r.Cases("combined", r.N(1500, 20000), one(3, gen.Feature{FilesFirst: 3, NoSep: 4, Case: 1, Node: 4, Child: 3, Depth: 3, Sampling: 4, SampleFilter: 3, Hib: 1, Fail: 2, Ret: 1}))
	r.Cases("unreadable", r.N(500, 6000), one(4, gen.Feature{Fail: 10}))
	r.Cases("stat", r.N(100, 500), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{})
		plan(g, s, 5)
		s.FS.StatErr[s.Tree] = exec.ErrStat
		log, os := exec.Hooks(s)
		got := exec.Walk(s, os...)
		r.Observe(fmt.Sprint(s.Hooks.Steps["stat"]), got.Err)
		r.Same("error", "error=stat", "error="+got.Err, s)
		hooked(r, s, log, nil)
	})

	// in a resumed session
	sh := gen.Shape{Max: 25, MaxKids: 4, Deep: 5}
	for i, st := range []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn} {
		fn := resumeCase(r, st, gen.Feature{Shape: sh, FilesFirst: 2, NoSep: 3, Node: 2, Sampling: 2, Hooks: true})
		r.Cases([]string{"fastward", "spawn"}[i], r.N(500, 6000), fn)
	}
}

// hooked checks the calls of the hooks.
func hooked(r *rig.Rig, s *model.Spec, log *exec.HookLog, want *model.Trace) {
	for _, b := range log.Bad {
		r.Fail("chain", b, s)
	}

	for k, n := range log.Calls {
		r.Count(k, n)
	}

	if want == nil {
		return
	}

	// what they are called for
	exp := map[string]map[string]bool{"stat": {s.Tree: true}}
	put := func(k, p string) {
		if exp[k] == nil {
			exp[k] = map[string]bool{}
		}

		exp[k][p] = true
	}

	for _, p := range want.Reads {
		put("read", p)
	}

	for _, e := range want.Evs {
		if e.K == "ascend" {
			if e.A.Dir {
				put("dsub", e.Path)
			} else {
				put("fsub", e.Path)
			}
		}
	}

	for _, k := range []string{"stat", "read", "dsub", "fsub"} {
		if len(s.Hooks.Of(k)) > 0 {
			r.Equal(k+" hook is called for", keys(exp[k]), keys(log.Args[k]), s)
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}
