package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	age "github.com/snivilised/agenor"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func init() {
	checks["P15"] = p15
}

// persisted part of the options, one line for each.
func inForce(o *pref.Options) []string {
	var out []string

	put := func(k string, v any) {
		b, err := json.Marshal(v)
		out = append(out, fmt.Sprint(k, " ", string(b), err))
	}
	def := func(k string, d *core.FilterDef) {
		if d == nil {
			put(k, nil)
			return
		}

		put(k, []any{d.Type, d.Description, d.Pattern, d.Scope, d.Negate, d.IfNotApplicable, d.Poly != nil})

		if p := d.Poly; p != nil {
			for i, x := range []core.FilterDef{p.File, p.Directory} {
				put(fmt.Sprint(k, ".poly", i), []any{x.Type, x.Description, x.Pattern, x.Scope, x.Negate, x.IfNotApplicable})
			}
		}
	}

	b := &o.Behaviours
	put("sub path", b.SubPath.KeepTrailingSep)
	put("sort", []any{b.Sort.IsCaseSensitive, b.Sort.SortFilesFirst})
	put("cascade", []any{b.Cascade.Depth, b.Cascade.NoRecurse})
	put("sampling", []any{o.Sampling.Type, o.Sampling.InReverse, o.Sampling.NoOf.Files, o.Sampling.NoOf.Directories})
	def("node", o.Filter.Node)

	if c := o.Filter.Child; c != nil {
		put("child", []any{c.Type, c.Description, c.Pattern, c.Negate})
	} else {
		put("child", nil)
	}

	if c := o.Filter.Sample; c != nil {
		put("sample", []any{c.Type, c.Description, c.Pattern, c.Scope, c.Negate})
	} else {
		put("sample", nil)
	}

	def("wake", o.Hibernate.WakeAt)
	def("sleep", o.Hibernate.SleepAt)
	put("hibernation", []any{o.Hibernate.Behaviour.InclusiveWake, o.Hibernate.Behaviour.InclusiveSleep})
	put("NoW", o.Concurrency.NoW)

	return out
}

// ---------------------------------------------------------------------- P15

func p15(r *rig.Rig) {
	defer tidy()

	strategies := []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}
	sh := gen.Shape{Max: 20, MaxKids: 4, Deep: 4}

	// the session before, interrupted
	first := func(g *gen.G, ft gen.Feature) (s *model.Spec, data []byte, at string, before []string) {
		s = g.Spec(ft)
		s.Listeners, s.NoW = g.Intn(2), uint(g.Intn(12))
		newR(g, s)

		ret := s.Ret
		if !panicAt(g, s, "panic") {
			return nil, nil, "", nil
		}

		want := model.Run(s)
		got := exec.Walk(s)
		data = saved(r, s, want, got, "")
		s.Ret = ret

		if data == nil || got.Opts == nil {
			return nil, nil, "", nil
		}

		return s, data, want.At, inForce(got.Opts)
	}

	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)

			s, data, _, before := first(g, ft)
			if s == nil {
				return
			}

			var after []string

			exec.Resume(s, keep(data), gen.Pick(g, strategies...), append([]pref.Option{
				func(o *pref.Options) error { after = inForce(o); return nil },
			}, again(s)...)...)

			r.Observe(before...)
			r.Equal("in force", before, after, s)

			for _, l := range before {
				if !strings.Contains(l, " null") {
					r.Count("with "+strings.SplitN(l, " ", 2)[0], 1)
				}
			}
		}
	}

	r.Cases("options", r.N(2500, 30000), one(gen.Feature{Shape: sh, FilesFirst: 5, Case: 3, NoSep: 5, Node: 6, Child: 5, Depth: 4, NoRecurse: 1, Sampling: 5, SampleFilter: 5, Hib: 2}))
	r.Cases("hibernate", r.N(500, 6000), one(gen.Feature{Shape: sh, Hib: 10, Node: 2}))
	r.Cases("default", 20, one(gen.Feature{Shape: sh}))

	r.Cases("override", r.N(1200, 15000), func(seed int64) {
		g := gen.New(seed)

		s, data, at, before := first(g, gen.Feature{Shape: sh, FilesFirst: 3, Case: 1, NoSep: 5, Node: 5, Child: 3, Sampling: 2, SampleFilter: 3})
		if s == nil {
			return
		}

		o := *s // as it is overridden
		var os []pref.Option

		if g.P(1, 2) {
			o.NoSep = !s.NoSep
			os = append(os, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: !o.NoSep}))
		}

		if g.P(1, 2) {
			o.Node, o.Custom, o.Child, o.Sample = g.NodeFilter(o.FS, o.Tree, "glob", "regex", "globex", "poly"), nil, nil, nil
			if g.P(1, 3) {
				o.Node.Kind, o.Node.Pattern = "glob", "*"
			}

			os = append(os, exec.Filter(&o))
		} else {
			os = append(os, again(s)...)
		}

		if g.P(1, 3) {
			o.FilesFirst = !s.FilesFirst
			os = append(os, age.WithSortBehaviour(&pref.SortBehaviour{IsCaseSensitive: o.CaseSens == 1, SortFilesFirst: o.FilesFirst}))
		}

		if g.P(1, 2) {
			o.NoW = uint(1 + g.Intn(20))
			os = append(os, age.WithNoW(o.NoW))
		}

		for _, st := range strategies {
			rest := suffix(model.Run(&o), at)
			if rest == nil {
				continue // the directory is not part of what has been overridden
			}

			got := exec.Resume(&o, keep(data), st, os...)
			pr := model.Proj{Kinds: "invoke", Attrs: true, Children: !o.SampleScheme()}
			r.Observe(pr.Render(got.Evs)...)
			r.Count("overridden, resumed nodes", len(invokes(got.Evs)))
			r.Equal(fmt.Sprint("overridden ", st), pr.Render(rest), pr.Render(got.Evs), &o)

			if o.NoW != 0 {
				r.Same("NoW", o.NoW, got.Opts.Concurrency.NoW, &o)
			}
		}

		_ = before
	})

	r.Cases("damaged", r.N(400, 5000), func(seed int64) {
		g := gen.New(seed)

		s, data, _, _ := first(g, gen.Feature{Shape: sh, Node: 5, Child: 3})
		if s == nil {
			return
		}

		from := keep(data)
		what := gen.Pick(g, "missing", "directory", "empty", "truncated", "garbage", "dropped", "shape")

		var now []byte

		switch what {
		case "missing":
			from += ".absent"
		case "directory":
			from = filepath.Dir(from)
		case "empty":
		case "truncated":
			now = data[:g.Intn(len(data)-1)]
		case "garbage":
			now = make([]byte, 1+g.Intn(200))
			g.Read(now)
		case "dropped":
			// a structural character is lost
			for {
				i := g.Intn(len(data))
				if strings.ContainsRune("{}:", rune(data[i])) {
					now = append(append(now, data[:i]...), data[i+1:]...)
					break
				}
			}
		case "shape":
			now = []byte(gen.Pick(g, "[]", "42", `"x"`, "true", `{"Active":[]}`, `{"Active":{"Tree":1}}`, `{"JO":3}`, `{"Active":{"Depth":"x"}}`))
		}

		valid := false

		if what != "missing" && what != "directory" {
			valid = json.Valid(now)
			if err := os.WriteFile(from, now, 0o600); err != nil {
				panic(err)
			}
		}

		if valid && what != "shape" {
			return
		}

		for _, st := range strategies {
			got := exec.Resume(s, from, st)
			r.Observe(what, string(now), fmt.Sprint(got.NavErr))
			r.Count(what, 1)

			if got.PanicEsc != "" || got.NavErr == nil || len(got.Evs) != 0 || got.Result == nil {
				r.Fail(what, fmt.Sprintf("%q: error=%v events=%d panic=%q", now, got.NavErr, len(got.Evs), got.PanicEsc), s)
			}
		}
	})
}
