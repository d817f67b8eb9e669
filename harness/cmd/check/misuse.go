package main

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"regexp/syntax"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
)

func init() {
	checks["P20"] = p20
}

var errOption = errors.New("verif: option")

// misuse of the interface.
type misuse struct {
	name  string
	using func(u *pref.Using) // what is wrong with the facade
	relic func(u *pref.Relic)
	none  bool
	swap  bool                            // the other facade
	opt   func(g *gen.G) []pref.Option    // wrong options
	is    func(err error) bool            // identifies the problem
	fs    func(s *model.Spec) (t, r bool) // flip the kind of file system
	only  string
}

func is(target error) func(error) bool {
	return func(err error) bool { return errors.Is(err, target) }
}

func isSyntax(err error) bool {
	var se *syntax.Error
	return errors.As(err, &se)
}

func names(what string) func(error) bool {
	return func(err error) bool { return strings.Contains(err.Error(), what) }
}

func anyErr(error) bool { return true }

// nodeBad are definitions of node filters that can't be fulfilled.
var nodeBad = []struct {
	name string
	def  func() *core.FilterDef
	is   func(error) bool
}{
	{"undefined", func() *core.FilterDef { return &core.FilterDef{Pattern: "*"} }, is(locale.ErrFilterMissingType)},
	{"custom", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypeCustom, Pattern: "*"} }, is(locale.ErrFilterIsNil)},
	{"regex", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "a(b"} }, isSyntax},
	{"regex2", func() *core.FilterDef {
		return &core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "*[", Negate: true}
	}, isSyntax},
	{"globex", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*.flac"} }, locale.IsInvalidExtGlobFilterMissingSeparatorError},
	{"globex pattern", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "*|*.txt,flac"} }, names("flac")},
	{"globex patterns", func() *core.FilterDef {
		return &core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "a*/ab|cover.,*.flac"}
	}, names("cover.")},
	{"poly", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*"} }, is(locale.ErrPolyFilterIsInvalid)},
	{"poly empty", func() *core.FilterDef {
		return &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{}}
	}, is(locale.ErrFilterMissingType)},
	{"unknown", func() *core.FilterDef { return &core.FilterDef{Type: enums.FilterTypePoly + 1, Pattern: "*"} }, anyErr},
	{"poly unknown", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, core.FilterDef{Type: enums.FilterTypePoly + 2, Pattern: "*"})
	}, anyErr},
	{"poly file", func() *core.FilterDef {
		return poly(core.FilterDef{Pattern: "*"}, core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"})
	}, is(locale.ErrFilterMissingType)},
	{"poly directory", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, core.FilterDef{Pattern: "*"})
	}, is(locale.ErrFilterMissingType)},
	{"poly nested file", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*"}, core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"})
	}, is(locale.ErrPolyFilterIsInvalid)},
	{"poly nested directory", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*"})
	}, is(locale.ErrPolyFilterIsInvalid)},
	{"poly regex", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, core.FilterDef{Type: enums.FilterTypeRegex, Pattern: "x)"})
	}, isSyntax},
	{"poly custom", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeCustom}, core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"})
	}, is(locale.ErrFilterIsNil)},
	{"poly globex", func() *core.FilterDef {
		return poly(core.FilterDef{Type: enums.FilterTypeGlobEx, Pattern: "x"}, core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"})
	}, locale.IsInvalidExtGlobFilterMissingSeparatorError},
}

func poly(f, d core.FilterDef) *core.FilterDef {
	return &core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*", Poly: &core.PolyFilterDef{File: f, Directory: d}}
}

func misuses() []misuse {
	ms := []misuse{
		{name: "tree", only: "prime", using: func(u *pref.Using) { u.Tree = "" }, is: is(locale.ErrUsageMissingTreePath)},
		{name: "subscription", only: "prime", using: func(u *pref.Using) { u.Subscription = enums.SubscribeUndefined }, is: is(locale.ErrUsageMissingSubscription)},
		{name: "unknown subscription", only: "prime", using: func(u *pref.Using) { u.Subscription += enums.SubscribeUniversal }, is: anyErr},
		{name: "unknown strategy", only: "resume", relic: func(u *pref.Relic) { u.Strategy += enums.ResumeStrategyFastward }, is: anyErr},
		{name: "no traverse fs", using: func(u *pref.Using) { without(&u.Head, true, false) }, relic: func(u *pref.Relic) { without(&u.Head, true, false) }, is: func(err error) bool {
			var me *locale.TraverseFsMismatchError
			return errors.Is(err, core.ErrNilForest) || errors.As(err, &me)
		}},
		{name: "no resume fs", only: "resume", relic: func(u *pref.Relic) { without(&u.Head, false, true) }, is: func(err error) bool {
			return errors.Is(err, core.ErrNilForest) || locale.IsCoreResumeFsMismatchError(err)
		}},
		{name: "no fs", using: func(u *pref.Using) { without(&u.Head, true, true) }, relic: func(u *pref.Relic) { without(&u.Head, true, true) }, is: anyErr},
		{name: "handler", using: func(u *pref.Using) { u.Handler = nil }, relic: func(u *pref.Relic) { u.Handler = nil }, is: is(locale.ErrUsageMissingHandler)},
		{name: "from", only: "resume", relic: func(u *pref.Relic) { u.From = "" }, is: is(locale.ErrUsageMissingRestorePath)},
		{name: "strategy", only: "resume", relic: func(u *pref.Relic) { u.Strategy = enums.ResumeStrategyUndefined }, is: anyErr},
		{name: "facade", swap: true, is: func(err error) bool {
			return errors.Is(err, core.ErrWrongPrimaryFacade) || errors.Is(err, core.ErrWrongResumeFacade)
		}},
		{name: "forest", using: func(u *pref.Using) { u.GetForest = func(string) *core.Forest { return nil } }, relic: func(u *pref.Relic) { u.GetForest = func(string) *core.Forest { return nil } }, is: is(core.ErrNilForest)},
		{name: "no facade", none: true, is: func(err error) bool {
			return errors.Is(err, core.ErrWrongPrimaryFacade) || errors.Is(err, core.ErrWrongResumeFacade)
		}},
		{name: "absent", only: "resume", relic: func(u *pref.Relic) { u.From += ".absent" }, is: anyErr},
		{name: "traverse fs", only: "resume", fs: func(*model.Spec) (bool, bool) { return true, false }, is: func(err error) bool {
			var me *locale.TraverseFsMismatchError
			return errors.As(err, &me)
		}},
		{name: "resume fs", only: "resume", fs: func(*model.Spec) (bool, bool) { return false, true }, is: locale.IsCoreResumeFsMismatchError},
		{name: "option", opt: func(*gen.G) []pref.Option {
			return []pref.Option{func(*pref.Options) error { return errOption }}
		}, is: is(errOption)},
		{name: "custom filter", opt: func(g *gen.G) []pref.Option {
			fo := &pref.FilterOptions{Custom: invalid{}}
			if g.P(1, 2) {
				fo.Node = &core.FilterDef{Type: gen.Pick(g, enums.FilterTypeCustom, enums.FilterTypeGlob), Pattern: "*"}
			}

			return []pref.Option{age.WithFilter(fo)}
		}, is: is(errOption)},
		{name: "custom sample filter", opt: func(g *gen.G) []pref.Option {
			return []pref.Option{
				age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 2, Directories: 2}}),
				age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{Type: enums.FilterTypeCustom, Custom: invalidSample{},
					Scope: gen.Pick(g, enums.ScopeFile, enums.ScopeDirectory)}}),
			}
		}, is: is(errOption)},
		{name: "sample files", opt: func(g *gen.G) []pref.Option {
			return sampling(g, enums.ScopeFile, 0, 1+uint(g.Intn(3)))
		}, is: is(locale.ErrInvalidFileSamplingSpecMissingFiles)},
		{name: "sample directories", opt: func(g *gen.G) []pref.Option {
			return sampling(g, enums.ScopeDirectory, 1+uint(g.Intn(3)), 0)
		}, is: is(locale.ErrInvalidSamplingSpecMissingDirectories)},
	}

	for _, b := range nodeBad {
		ms = append(ms,
			misuse{name: "node " + b.name, is: b.is, opt: func(g *gen.G) []pref.Option {
				d := b.def()
				if d.Pattern == "" && d.Poly == nil {
					d.Pattern = "*"
				}

				return []pref.Option{age.WithFilter(&pref.FilterOptions{Node: d})}
			}},
			misuse{name: "wake " + b.name, is: b.is, opt: func(g *gen.G) []pref.Option {
				return []pref.Option{age.WithHibernationFilterWake(b.def())}
			}},
			misuse{name: "sleep " + b.name, is: b.is, opt: func(g *gen.G) []pref.Option {
				if g.P(1, 2) {
					return []pref.Option{age.WithHibernationFilterSleep(b.def())}
				}

				return []pref.Option{age.WithHibernationOptions(&core.HibernateOptions{
					WakeAt: &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, SleepAt: b.def()})}
			}})
	}

	for _, c := range []struct {
		t  enums.FilterType
		p  string
		is func(error) bool
	}{
		{enums.FilterTypeUndefined, "*", is(locale.ErrFilterUndefined)},
		{enums.FilterTypePoly + 1, "*", anyErr},
		{enums.FilterTypeGlobEx, "*|txt", is(locale.ErrFilterChildGlobExNotSupported)},
		{enums.FilterTypeCustom, "*", is(locale.ErrFilterCustomNotSupported)},
		{enums.FilterTypePoly, "*", anyErr},
		{enums.FilterTypeRegex, "a(", isSyntax},
	} {
		ms = append(ms, misuse{name: fmt.Sprint("child ", c.t), is: c.is, opt: func(g *gen.G) []pref.Option {
			fo := &pref.FilterOptions{Child: &core.ChildFilterDef{Type: c.t, Pattern: c.p}}
			if g.P(1, 2) {
				fo.Node = &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}
			}

			return []pref.Option{age.WithFilter(fo)}
		}})
	}

	for _, c := range []struct {
		t  enums.FilterType
		p  string
		is func(error) bool
	}{
		{enums.FilterTypeUndefined, "*", is(locale.ErrFilterMissingType)},
		{enums.FilterTypePoly + 1, "*", anyErr},
		{enums.FilterTypeGlobEx, "*|txt", anyErr},
		{enums.FilterTypePoly, "*", anyErr},
		{enums.FilterTypeCustom, "*", is(locale.ErrFilterIsNil)},
		{enums.FilterTypeRegex, "a(", isSyntax},
	} {
		ms = append(ms, misuse{name: fmt.Sprint("sample ", c.t), is: c.is, opt: func(g *gen.G) []pref.Option {
			return append([]pref.Option{age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter,
				NoOf: pref.EntryQuantities{Files: 1 + uint(g.Intn(3)), Directories: 1 + uint(g.Intn(3))}})},
				age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{Type: c.t, Pattern: c.p,
					Scope: gen.Pick(g, enums.ScopeFile, enums.ScopeDirectory)}}))
		}})
	}

	return ms
}

// invalid custom filter.
type invalid struct{}

func (invalid) Description() string          { return "invalid" }
func (invalid) Validate() error              { return errOption }
func (invalid) Source() string               { return "" }
func (invalid) IsMatch(*core.Node) bool      { return true }
func (invalid) IsApplicable(*core.Node) bool { return true }
func (invalid) Scope() enums.FilterScope     { return enums.ScopeAll }

type invalidSample struct{}

func (invalidSample) Description() string                     { return "invalid" }
func (invalidSample) Validate() error                         { return errOption }
func (invalidSample) Source() string                          { return "" }
func (invalidSample) Matching(es []fs.DirEntry) []fs.DirEntry { return es }

// without some of the file systems.
func without(h *pref.Head, t, r bool) {
	build := h.GetForest
	h.GetForest = func(tree string) *core.Forest {
		f := build(tree)
		if t {
			f.T = nil
		}

		if r {
			f.R = nil
		}

		return f
	}
}

// owned keeps an eye on the forest that belongs to the client.
func owned(r *rig.Rig, s *model.Spec, h *pref.Head) func() {
	build := h.GetForest
	if build == nil {
		return func() {}
	}

	var mine, was core.Forest

	once := false
	h.GetForest = func(tree string) *core.Forest {
		f := build(tree)
		if f == nil {
			return nil
		}

		mine, was, once = *f, *f, true

		return &mine
	}

	return func() {
		if once && mine != was {
			r.Fail("forest", "the forest of the client is modified", s)
		}
	}
}

func sampling(g *gen.G, scope enums.FilterScope, files, dirs uint) []pref.Option {
	return []pref.Option{
		age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: files, Directories: dirs}}),
		age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{Type: gen.Pick(g, enums.FilterTypeGlob, enums.FilterTypeRegex),
			Pattern: "a.", Scope: scope}}),
	}
}

// relics for the resume of anything.
func interrupted(r *rig.Rig, g *gen.G) (*model.Spec, []byte) {
	for {
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 12, MaxKids: 4, Deep: 3}, Node: 1})
		newR(g, s)

		if panicAt(g, s, "panic") {
			if data := saved(r, s, model.Run(s), exec.Walk(s), ""); data != nil {
				s.Ret = nil
				return s, data
			}
		}

		if len(r.Viol) > 0 {
			return nil, nil
		}
	}
}

// ---------------------------------------------------------------------- P20

func p20(r *rig.Rig) {
	defer tidy()

	for _, m := range misuses() {
		for _, extent := range []string{"prime", "resume"} {
			if m.only != "" && m.only != extent {
				continue
			}

			for _, fast := range []bool{false, true} {
				name := fmt.Sprintf("%s/%s/run=%v", m.name, extent, fast)
				r.Cases(name, r.N(6, 60), func(seed int64) {
					g := gen.New(seed)

					s, data := interrupted(r, g)
					if s == nil {
						return
					}

					abuse(r, g, s, data, &m, extent, fast)
				})
			}
		}
	}
}

func abuse(r *rig.Rig, g *gen.G, s *model.Spec, data []byte, m *misuse, extent string, fast bool) {
	run := &exec.Run{}
	from := keep(data)
	s.FS.Reset()
	s.R = vfs.New(s.R.Rel)

	if m.fs != nil {
		t, rr := m.fs(s)
		f := s.FS
		kind := *f

		if t {
			kind.Rel = !kind.Rel
		}

		s.FS = &kind
		if rr {
			s.R = vfs.New(!s.R.Rel)
		}

		defer func() { s.FS = f }()
	}

	// other options, without those that would get in the way
	var os []pref.Option

	os = append(os, age.WithDepth(uint(g.Intn(3))), age.WithNoW(1+uint(g.Intn(4))), age.IfOption(g.P(1, 2), age.WithNoRecurse()))
	s.Listeners = g.Intn(2)
	os = append(os, run.Listeners(s)...)

	if m.opt != nil {
		i := g.Intn(len(os) + 1)
		os = append(append(append([]pref.Option{}, os[:i]...), m.opt(g)...), os[i:]...)
	}

	using := run.UsingOf(s)
	relic := run.RelicOf(s, from, gen.Pick(g, enums.ResumeStrategyFastward, enums.ResumeStrategySpawn))

	if extent == "prime" && !m.none && !m.swap && m.name != "option" && g.P(1, 4) {
		// options that are ready made
		using.O = pref.DefaultOptions()

		if m.opt != nil {
			for _, fn := range m.opt(g) {
				if err := fn(using.O); err != nil {
					panic(err)
				}
			}
		}
	}

	if m.using != nil {
		m.using(using)
	}

	if m.relic != nil {
		m.relic(relic)
	}

	intact, intactR := owned(r, s, &using.Head), owned(r, s, &relic.Head)

	var ext *age.Builders

	switch {
	case m.none && extent == "prime":
		ext = age.Prime(nil, os...)
	case m.none:
		ext = age.Resume(nil, os...)
	case extent == "prime" && m.swap:
		ext = age.Prime(relic, os...)
	case extent == "prime":
		ext = age.Prime(using, os...)
	case m.swap:
		ext = age.Resume(using, os...)
	default:
		ext = age.Resume(relic, os...)
	}

	run.Go(fast, ext)
	rejected(r, s, run, m.is)
	intact()
	intactR()
	r.Count("rejected", 1)
}

// rejected checks that a session was refused.
func rejected(r *rig.Rig, s *model.Spec, run *exec.Run, is func(error) bool) {
	r.Observe(r.Current(), fmt.Sprint(run.NavErr))

	switch {
	case run.PanicEsc != "":
		r.Fail("panic", run.PanicEsc, s)
	case run.NavErr == nil:
		r.Fail("error", "the misuse is not reported", s)
	case !is(run.NavErr):
		r.Fail("error", fmt.Sprintf("the error does not identify the problem: %v", run.NavErr), s)
	case run.Result == nil:
		r.Fail("result", "there is no result", s)
	case run.Session != "":
		r.Fail("session", run.Session, s)
	case run.Complete:
		r.Fail("session", "the refused session is complete", s)
	default:
		r.Same("metrics", model.Metrics{}, run.M, s)
	}

	for _, e := range run.Evs {
		if e.K == "invoke" || e.K == "descend" || e.K == "wake" {
			r.Fail("events", e.K+" "+e.Path+" in spite of the misuse", s)
			break
		}
	}
}

var (
	_ = context.Background
	_ = strings.Join
)
