// Package exec runs a specification against the real code and records what is
// observed, in the vocabulary of the reference model. It uses the public
// interface only.
package exec

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log/slog"
	"path"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/vfs"
	"github.com/snivilised/li18ngo"
	nef "github.com/snivilised/nefilim"
)

// Init the translation package that the code under test relies on.
func Init() {
	if err := li18ngo.Use(func(o *li18ngo.UseOptions) {
		o.From.Sources = li18ngo.TranslationFiles{
			locale.SourceID: li18ngo.TranslationSource{Name: "agenor"},
		}
	}); err != nil {
		panic(err)
	}
}

// Scripted is an error returned by a scripted callback.
type Scripted struct {
	Name  string
	Cause error
}

func (e *Scripted) Error() string { return "scripted " + e.Name }

// Unwrap the cause.
func (e *Scripted) Unwrap() error { return e.Cause }

// some of the scripted errors are of a well known kind, which is not expected
// to matter.
var causes = map[string]error{"e3": fs.ErrNotExist, "e4": fs.ErrPermission, "e5": context.Canceled,
	"e6": io.EOF, "e7": fs.ErrExist, "e8": context.DeadlineExceeded}

// The errors used by scripts.
var (
	ErrStat  = errors.New("verif: stat failure")
	ErrRead  = errors.New("verif: read failure")
	ErrInfo  = errors.New("verif: info failure")
	ErrFault = errors.New("verif: fault handler")
	ErrAsk   = errors.New("verif: skip handler")
	ErrPanic = errors.New("verif: panic cause")
	ErrSave  = errors.New("verif: save failure")
)

// Run is one execution.
type Run struct {
	model.Trace
	Result core.TraverseResult
	NavErr error
	EndM   *model.Metrics // metrics of the result given to the End listeners
	Opts   *pref.Options  // what the last option saw
	mu     sync.Mutex
	WG     sync.WaitGroup

	Session  string // what is wrong with the session of the result
	Complete bool   // according to the session
	EndAt    time.Time

	born, first, last time.Time
}

func (r *Run) emit(k, p string, a *model.Attr, note string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evs = append(r.Evs, model.Ev{K: k, Path: p, A: a, Note: note})

	if k != "invoke" || r.first.IsZero() { // callbacks may still be running when Navigate returns
		r.last = time.Now()
	}

	if r.first.IsZero() {
		r.first = r.last
	}
}

// session checks what the session of the result says.
func (r *Run) session(x core.TraverseResult) string {
	se := x.Session()
	if se == nil {
		return "the result has no session"
	}

	r.mu.Lock()
	defer r.mu.Unlock()

	at, took, now := se.StartedAt(), se.Elapsed(), time.Now()
	r.Complete = se.IsComplete()

	switch {
	case r.born.IsZero():
		return ""
	case at.Before(r.born) || at.After(now):
		return "the session did not start while Navigate was running"
	case !r.first.IsZero() && at.After(r.first):
		return "the session started after its first event"
	case !r.last.IsZero() && took < r.last.Sub(at):
		return fmt.Sprintf("the session took %v, but events occurred %v after its start", took, r.last.Sub(at))
	case took > now.Sub(at):
		return fmt.Sprintf("the session took %v, but started %v ago only", took, now.Sub(at))
	case se.Elapsed() != took:
		return "the session is over, but its elapsed time keeps growing"
	case !r.EndAt.IsZero() && !r.EndAt.Equal(at):
		return "the session given to End is not that of the result"
	}

	return ""
}

// Entries as names.
func Entries(es []fs.DirEntry) []string {
	out := make([]string, 0, len(es))
	for _, e := range es {
		out = append(out, e.Name())
	}

	return out
}

// Attrs captures the attributes of a node.
func Attrs(n *core.Node) *model.Attr {
	x := n.Extension
	a := &model.Attr{Path: n.Path, Name: x.Name, Parent: x.Parent, SubPath: x.SubPath,
		Depth: x.Depth, Leaf: x.IsLeaf, Dir: n.IsDirectory(), Scope: x.Scope,
		Children: Entries(n.Children), Entry: "-", Info: "-"}

	if n.Entry != nil {
		a.Entry = fmt.Sprintf("%s,%v", n.Entry.Name(), n.Entry.IsDir())
	}

	if n.Info != nil {
		a.Info = fmt.Sprintf("%s,%d,%v", n.Info.Name(), n.Info.Size(), n.Info.IsDir())
	}

	if n.Error != nil {
		a.Err = n.Error.Error()
	}

	for p := n.Parent; p != nil; p = p.Parent {
		a.Chain = append(a.Chain, p.Path)

		if len(a.Chain) > 1000 {
			a.Chain = append(a.Chain, "CYCLE")
			break
		}
	}

	return a
}

// custom node filter of the harness.
type custom struct{ f *model.Filter }

func (c *custom) Description() string          { return c.f.Desc }
func (c *custom) Validate() error              { return nil }
func (c *custom) Source() string               { return "custom" }
func (c *custom) IsApplicable(*core.Node) bool { return true }
func (c *custom) Scope() enums.FilterScope     { return enums.ScopeAll }
func (c *custom) IsMatch(n *core.Node) bool {
	return model.Pred(c.f.Pred, n.Extension.Name, n.IsDirectory(), n.Extension.Depth)
}

// custom sample filter of the harness, written as a client would.
type customSample struct {
	f     *model.Filter
	match func([]fs.DirEntry, func(fs.DirEntry, int) bool) []fs.DirEntry
	scope func() enums.FilterScope
}

func newCustomSample(f *model.Filter) *customSample {
	base := age.NewCustomSampleFilter(f.Scope)

	return &customSample{f: f,
		match: func(es []fs.DirEntry, fn func(fs.DirEntry, int) bool) []fs.DirEntry {
			return base.Matching(es, fn)
		},
		scope: base.Scope,
	}
}

func (c *customSample) Description() string      { return c.f.Desc }
func (c *customSample) Validate() error          { return nil }
func (c *customSample) Source() string           { return "custom" }
func (c *customSample) Scope() enums.FilterScope { return c.scope() }
func (c *customSample) Matching(es []fs.DirEntry) []fs.DirEntry {
	return c.match(es, func(e fs.DirEntry, _ int) bool {
		return model.Pred(c.f.Pred, e.Name(), e.IsDir(), 0) != c.f.Negate
	})
}

// Kinds of filters by name.
var Kinds = map[string]enums.FilterType{
	"glob": enums.FilterTypeGlob, "globex": enums.FilterTypeGlobEx,
	"regex": enums.FilterTypeRegex, "poly": enums.FilterTypePoly,
	"custom": enums.FilterTypeCustom, "undefined": enums.FilterTypeUndefined,
}

// Def makes the definition.
func Def(f *model.Filter) *core.FilterDef {
	if f == nil {
		return nil
	}

	d := &core.FilterDef{Type: Kinds[f.Kind], Description: f.Desc, Pattern: f.Pattern,
		Scope: f.Scope, Negate: f.Negate, IfNotApplicable: f.INA}

	if f.Kind == "poly" {
		d.Poly = &core.PolyFilterDef{File: *Def(f.File), Directory: *Def(f.Dir)}
	}

	return d
}

// ChildDef makes the child definition.
func ChildDef(f *model.Filter) *core.ChildFilterDef {
	if f == nil {
		return nil
	}

	return &core.ChildFilterDef{Type: Kinds[f.Kind], Description: f.Desc,
		Pattern: f.Pattern, Negate: f.Negate}
}

// SampleDef makes the sample definition.
func SampleDef(f *model.Filter) *core.SampleFilterDef {
	if f == nil {
		return nil
	}

	d := &core.SampleFilterDef{Type: Kinds[f.Kind], Description: f.Desc,
		Pattern: f.Pattern, Negate: f.Negate, Scope: f.Scope}

	if f.Kind == "custom" {
		d.Custom = newCustomSample(f)
	}

	return d
}

// Filter makes the option that has all of the filters of the specification.
func Filter(s *model.Spec) pref.Option {
	fo := &pref.FilterOptions{Node: Def(s.Node), Child: ChildDef(s.Child), Sample: SampleDef(s.Sample)}
	if s.Custom != nil {
		fo.Custom = &custom{s.Custom}
	}

	return age.WithFilter(fo)
}

// Options expresses the persistable part of the specification.
func Options(s *model.Spec) []pref.Option {
	var os []pref.Option

	add := func(o ...pref.Option) { os = append(os, o...) }

	sb := &pref.SortBehaviour{IsCaseSensitive: s.CaseSens == 1, SortFilesFirst: s.FilesFirst}

	if s.Opt&1 != 0 {
		add(age.WithNavigationBehaviours(&pref.NavigationBehaviours{
			SubPath: pref.SubPathBehaviour{KeepTrailingSep: !s.NoSep},
			Sort:    *sb,
			Cascade: pref.CascadeBehaviour{Depth: s.Depth, NoRecurse: s.NoRecurse},
		}))
	} else {
		if s.NoSep || s.Opt&2 != 0 {
			add(age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: !s.NoSep}))
		}

		if s.FilesFirst || s.CaseSens == 1 || s.Opt&4 != 0 {
			add(age.WithSortBehaviour(sb))
		}

		if s.Depth > 0 {
			add(age.WithDepth(s.Depth))
		}

		if s.Opt&64 != 0 {
			add(age.IfElseOptionF(s.NoRecurse, age.WithNoRecurse, func() pref.Option { return nil }))
		} else {
			add(age.IfOption(s.NoRecurse, age.WithNoRecurse()))
		}
	}

	if s.Node != nil || s.Custom != nil || s.Child != nil || s.Sample != nil {
		add(Filter(s))
	}

	if q := s.Sampling; q != nil {
		add(age.WithSamplingOptions(&pref.SamplingOptions{Type: q.Type, InReverse: q.Rev,
			NoOf: pref.EntryQuantities{Files: q.Files, Directories: q.Dirs}}))
	}

	if s.Opt&8 != 0 && (s.Wake != nil || s.Sleep != nil) {
		add(age.WithHibernationOptions(&core.HibernateOptions{WakeAt: Def(s.Wake), SleepAt: Def(s.Sleep),
			Behaviour: core.HibernationBehaviour{InclusiveWake: !s.ExclWake, InclusiveSleep: s.InclSleep}}))
	} else {
		if s.Wake != nil {
			add(age.WithHibernationFilterWake(Def(s.Wake)))
		}

		if s.Sleep != nil {
			add(age.WithHibernationFilterSleep(Def(s.Sleep)))
		}

		add(age.IfOptionF(s.ExclWake, func() pref.Option { return age.WithHibernationBehaviourExclusiveWake() }))
		add(age.IfOptionF(s.InclSleep, func() pref.Option { return age.WithHibernationBehaviourInclusiveSleep() }))
	}

	if s.NoW > 0 {
		add(age.WithNoW(s.NoW))
	}

	if s.Opt&64 != 0 {
		add(age.WithLogger(slog.New(slog.DiscardHandler)))
	}

	// the options are independent of each other
	if s.Opt&16 != 0 {
		slices.Reverse(os)
	}

	if h := len(os) / 2; s.Opt&32 != 0 {
		os = append(os[h:], os[:h]...)
	}

	return os
}

// Listeners expresses what can't be persisted: hooks, listeners and handlers.
func (r *Run) Listeners(s *model.Spec) []pref.Option {
	var os []pref.Option

	add := func(o ...pref.Option) { os = append(os, o...) }

	if s.CaseSens == 2 {
		add(age.WithHookCaseSensitiveSort())
	}

	for i := range s.Listeners {
		note := ""
		if s.Listeners > 1 {
			note = fmt.Sprintf("#%d", i)
		}

		add(
			age.WithOnBegin(func(b *life.BeginState) { r.emit("begin", b.Tree, nil, note) }),
			age.WithOnEnd(func(x core.TraverseResult) {
				r.emit("end", "", nil, note)
				m := MetricsOf(x)
				r.EndM = &m

				if se := x.Session(); se != nil {
					r.EndAt = se.StartedAt()
				}
			}),
			age.WithOnDescend(func(n *core.Node) { r.emit("descend", n.Path, nil, note) }),
			age.WithOnAscend(func(n *core.Node) { r.emit("ascend", n.Path, Attrs(n), note) }),
			age.WithOnWake(func(d string) { r.emit("wake", "", nil, desc(d, note)) }),
			age.WithOnSleep(func(d string) { r.emit("sleep", "", nil, desc(d, note)) }),
		)
	}

	if s.HasAsk {
		add(age.WithSkipHandler(pref.Asker(func(n *core.Node, c core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			if n.IsDirectory() {
				var d, f []string
				if c != nil {
					d, f = Entries(c.Directories()), Entries(c.Files())
				}

				sort.Strings(d)
				sort.Strings(f)
				r.emit("ask", n.Path, nil, fmt.Sprintf("failed=%v dirs=%q files=%q", err != nil, d, f))

				if err != nil && !errors.Is(err, ErrRead) {
					r.emit("oops", n.Path, nil, "skip handler got "+err.Error())
				}
			}

			switch s.Ask[n.Path] {
			case "all":
				return enums.SkipAllTraversal, nil
			case "allerr":
				return enums.SkipAllTraversal, ErrAsk
			case "dir":
				return enums.SkipDirTraversal, nil
			case "direrr":
				return enums.SkipDirTraversal, ErrAsk
			}

			return enums.SkipNoneTraversal, nil
		})))
	}

	if s.Fault != "" {
		add(age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			r.emit("fault", f.Path, nil, "")

			if !errors.Is(f.Err, ErrStat) && !errors.Is(f.Err, fs.ErrNotExist) {
				r.emit("oops", f.Path, nil, fmt.Sprint("fault handler got ", f.Err))
			}

			switch s.Fault {
			case "nil":
				return nil
			case "other":
				return ErrFault
			}

			return f.Err
		})))
	}

	return os
}

// desc of a hibernation condition; that of a poly filter is made up.
func desc(d, note string) string {
	if strings.HasPrefix(d, "Poly") {
		d = "Poly"
	}

	return strings.TrimSpace(d + " " + note)
}

// Act performs the scripted action.
func Act(a string) error {
	switch a {
	case "":
		return nil
	case "skipdir":
		return fs.SkipDir
	case "skipdir~":
		return fmt.Errorf("wrapped: %w", fs.SkipDir)
	case "skipall":
		return fs.SkipAll
	case "skipall~":
		return errors.Join(ErrInfo, fs.SkipAll)
	case "panic":
		panic("verif: panic")
	case "panicerr":
		panic(ErrPanic)
	case "panicnil":
		var m map[string]int
		m["verif"]++ // a run time error
	case "panicindex":
		var xs []int
		_ = xs[len(a)]
	case "panicstruct":
		panic(struct{ A, B int }{1, 2})
	}

	return &Scripted{a, causes[a]}
}

// Client makes the recording callback.
func (r *Run) Client(s *model.Spec) core.Client {
	return func(sv core.Servant) error {
		n := sv.Node()
		act := s.Ret[n.Path]
		r.emit("invoke", n.Path, Attrs(n), act)

		return Act(act)
	}
}

// MetricsOf a result.
func MetricsOf(x core.TraverseResult) model.Metrics {
	m := x.Metrics()

	return model.Metrics{
		Files: m.Count(enums.MetricNoFilesInvoked), Dirs: m.Count(enums.MetricNoDirectoriesInvoked),
		FilesOut: m.Count(enums.MetricNoFilesFilteredOut), DirsOut: m.Count(enums.MetricNoDirectoriesFilteredOut),
		ChildFound: m.Count(enums.MetricNoChildFilesFound), ChildOut: m.Count(enums.MetricNoChildFilesFilteredOut),
	}
}

// ErrName classifies Navigate's error in the vocabulary of the model.
func ErrName(err error) string {
	var sc *Scripted

	switch {
	case err == nil:
		return ""
	case errors.As(err, &sc):
		return sc.Name
	case errors.Is(err, ErrStat), errors.Is(err, fs.ErrNotExist):
		return "stat"
	case errors.Is(err, ErrFault):
		return "fault"
	case errors.Is(err, ErrAsk):
		return "askerr"
	}

	if s := err.Error(); strings.Contains(s, "saved") || strings.Contains(s, "panic") {
		return "panic"
	}

	return "?" + err.Error()
}

// Forest over the in-memory file systems of the specification.
func Forest(s *model.Spec) pref.BuildForest {
	r := s.R
	if r == nil {
		r = vfs.New(s.FS.Rel)
	}

	return func(string) *core.Forest {
		if s.NoR {
			return &core.Forest{T: s.FS}
		}

		return &core.Forest{T: s.FS, R: r}
	}
}

// Finish a run with the outcome of Navigate.
func (r *Run) Finish(x core.TraverseResult, err error) *Run {
	r.Result, r.NavErr, r.Err = x, err, ErrName(err)

	if x != nil {
		r.M = MetricsOf(x)
		r.Session = r.session(x)
	}

	return r
}

// Guard runs fn; a panic that escapes is recorded.
func (r *Run) Guard(fn func()) {
	defer func() {
		if p := recover(); p != nil {
			r.PanicEsc = fmt.Sprint(p)
		}
	}()

	r.born = time.Now()
	fn()
}

// Walk the specification, sequentially.
func Walk(s *model.Spec, extra ...pref.Option) *Run {
	r := &Run{}
	s.FS.Reset()
	r.Guard(func() {
		os := append(Options(s), r.Listeners(s)...)
		os = append(os, extra...)
		os = append(os, func(o *pref.Options) error { r.Opts = o; return nil })
		r.Finish(age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Tree: s.Spelled(), Subscription: subscribed(s.Sub),
			Head: pref.Head{Handler: r.Client(s), GetForest: Forest(s)},
		}, os...)).Navigate(context.Background()))
	})
	r.Reads = s.FS.TakeReads()

	return r
}

// Resume from a saved state (a file on the real disk) on the tree of s.
func Resume(s *model.Spec, from string, strategy enums.ResumeStrategy, os ...pref.Option) *Run {
	r := &Run{}
	s.FS.Reset()
	r.Guard(func() {
		os = append(os, r.Listeners(s)...)
		os = append(os, func(o *pref.Options) error { r.Opts = o; return nil })
		r.Finish(age.Walk().Configure().Extent(age.Resume(&pref.Relic{
			From: from, Strategy: by(strategy),
			Head: pref.Head{Handler: r.Client(s), GetForest: Forest(s)},
		}, os...)).Navigate(context.Background()))
	})
	r.Reads = s.FS.TakeReads()

	return r
}

// Clock makes the names of the saved states distinct.
func Clock() {
	var (
		mu sync.Mutex
		at = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	)

	core.Now = func() time.Time {
		mu.Lock()
		defer mu.Unlock()
		at = at.Add(time.Second)

		return at
	}
}

// Base of a path.
func Base(p string) string { return path.Base(p) }

// WalkDisk uses the file systems that are used by default.
func WalkDisk(s *model.Spec) *Run {
	return walkWith(s, nil)
}

// ResumeDisk uses the file systems that are used by default.
func ResumeDisk(s *model.Spec, from string, strategy enums.ResumeStrategy) *Run {
	r := &Run{}
	r.Guard(func() {
		r.Finish(age.Walk().Configure().Extent(age.Resume(&pref.Relic{
			From: from, Strategy: by(strategy),
			Head: pref.Head{Handler: r.Client(s)},
		})).Navigate(context.Background()))
	})

	return r
}

// WalkRel uses relative file systems of the local disk.
func WalkRel(s *model.Spec, root string) *Run {
	return walkWith(s, func(string) *core.Forest {
		f := tfs.NewFS(nef.Rel{Root: root})

		return &core.Forest{T: f, R: f}
	})
}

func walkWith(s *model.Spec, forest pref.BuildForest) *Run {
	r := &Run{}
	r.Guard(func() {
		r.Finish(age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Tree: s.Spelled(), Subscription: subscribed(s.Sub),
			Head: pref.Head{Handler: r.Client(s), GetForest: forest},
		}, append(Options(s), r.Listeners(s)...)...)).Navigate(context.Background()))
	})

	return r
}

// Go performs the extent with Walk or with Run, and waits for it.
func (r *Run) Go(fast bool, ext *age.Builders) *Run {
	return r.Via(func() age.Navigator {
		if fast {
			return age.Run(r.group()).Configure().Extent(ext)
		}

		return age.Walk().Configure().Extent(ext)
	})
}

func (r *Run) group() *sync.WaitGroup { return &r.WG }

// Via performs a navigator, and waits for it.
func (r *Run) Via(nav func() age.Navigator) *Run {
	r.Guard(func() {
		r.Finish(nav().Navigate(context.Background()))
	})
	r.WG.Wait()

	return r
}

// UsingOf the specification.
func (r *Run) UsingOf(s *model.Spec) *pref.Using {
	return &pref.Using{Tree: s.Spelled(), Subscription: subscribed(s.Sub),
		Head: pref.Head{Handler: r.Client(s), GetForest: Forest(s)}}
}

// RelicOf the specification.
func (r *Run) RelicOf(s *model.Spec, from string, strategy enums.ResumeStrategy) *pref.Relic {
	return &pref.Relic{From: from, Strategy: by(strategy),
		Head: pref.Head{Handler: r.Client(s), GetForest: Forest(s)}}
}

// CustomOf is the custom filter of the harness.
func CustomOf(f *model.Filter) core.TraverseFilter { return &custom{f} }

// WalkOpts walks with no other options than those given.
func WalkOpts(s *model.Spec, os ...pref.Option) *Run {
	r := &Run{}
	s.FS.Reset()
	r.Guard(func() {
		os = append(slices.Clone(os), func(o *pref.Options) error { r.Opts = o; return nil })
		r.Finish(age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Tree: s.Spelled(), Subscription: subscribed(s.Sub),
			Head: pref.Head{Handler: r.Client(s), GetForest: Forest(s)},
		}, os...)).Navigate(context.Background()))
	})
	r.Reads = s.FS.TakeReads()

	return r
}

// subscribed and by name the subscription and the strategy the way a client
// of the module does: with the constants of its root package.
func subscribed(sub enums.Subscription) enums.Subscription {
	switch sub {
	case enums.SubscribeFiles:
		return age.SubscribeFiles
	case enums.SubscribeDirectories:
		return age.SubscribeDirectories
	case enums.SubscribeDirectoriesWithFiles:
		return age.SubscribeDirectoriesWithFiles
	case enums.SubscribeUniversal:
		return age.SubscribeUniversal
	default:
		return sub
	}
}

func by(strategy enums.ResumeStrategy) enums.ResumeStrategy {
	switch strategy {
	case enums.ResumeStrategySpawn:
		return age.ResumeStrategySpawn
	case enums.ResumeStrategyFastward:
		return age.ResumeStrategyFastward
	default:
		return strategy
	}
}
