package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
)

func init() {
	checks["P12"] = p12
	checks["P13"] = p13
	checks["P14"] = p14
	checks["P15"] = p15
}

// state is what is read back of a saved session.
type state struct {
	Active struct {
		Tree                string
		TraverseDescription struct{ IsRelative bool }
		ResumeDescription   struct{ IsRelative bool }
		Subscription        enums.Subscription
		CurrentPath         string
		IsDir               bool
		Depth               int
		Metrics             map[string]struct {
			T       int
			Counter uint
		}
	}
}

func (st *state) metrics() (m model.Metrics) {
	at := func(k enums.Metric) uint {
		x := st.Active.Metrics[fmt.Sprint(int(k))]
		return x.Counter
	}

	return model.Metrics{Files: at(enums.MetricNoFilesInvoked), Dirs: at(enums.MetricNoDirectoriesInvoked),
		ChildFound: at(enums.MetricNoChildFilesFound)}
}

// persisted are the metrics that make it into a saved session.
func persisted(s *model.Spec, m model.Metrics) string {
	if s.SampleScheme() {
		m.ChildFound = 0
	}

	return fmt.Sprintf("files=%d dirs=%d children=%d", m.Files, m.Dirs, m.ChildFound)
}

// newR makes the resume file system. Unlike the traversal's it may be relative
// or not.
func newR(g *gen.G, s *model.Spec) {
	s.R = vfs.New(g.P(1, 2))
}

var adminPath = []string{"", "/verif/admin", "/verif/with space/x", "/verif/agenor/admin/resume", "/verif/agenor/admin/resume/x", "/verif/agenor/admin/resumed"}

// named checks the name of the file of a session of the kind that was
// interrupted by a panic.
func named(r *rig.Rig, kind, at string) {
	r.Same("name of the file", true, strings.HasPrefix(path.Base(at), kind+".panic.") && path.Ext(at) == ".json", at)
}

// saved checks everything about a save and returns the bytes.
func saved(r *rig.Rig, s *model.Spec, want *model.Trace, got *exec.Run, admin string) []byte {
	var te *locale.TraversalSavedError

	if !errors.As(got.NavErr, &te) || !locale.IsCorePanicOccurredError(got.NavErr) {
		r.Fail("error", fmt.Sprintf("the error does not identify the save and the panic: %v", got.NavErr), s)
		return nil
	}

	if len(s.R.Writes) != 1 {
		r.Fail("writes", fmt.Sprintf("expected a single file to be written, observed %q", s.R.Writes), s)
		return nil
	}

	if len(s.FS.Writes) != 0 && s.FS != s.R {
		r.Fail("writes", fmt.Sprintf("written through the traversal file system: %q", s.FS.Writes), s)
	}

	if len(s.R.Unusable) != 0 {
		r.Fail("permissions", fmt.Sprintf("its owner can not use %q", s.R.Unusable), s)
	}

	at := s.R.Writes[0]
	r.Same("destination", te.Destination, at, s)
	r.Same("text with the destination", true, strings.Contains(got.NavErr.Error(), at), got.NavErr.Error())

	named(r, "prime", at)

	if admin != "" {
		dir := admin
		if !strings.HasSuffix(dir, "agenor/admin/resume") {
			dir += "/agenor/admin/resume"
		}

		r.Same("directory", dir, path.Dir(at), s)
	}

	data := s.R.At(at).Data

	var st state
	if err := json.Unmarshal(data, &st); err != nil {
		r.Fail("json", fmt.Sprint(err), s)
		return nil
	}

	a := &st.Active
	r.Same("saved state",
		fmt.Sprintf("tree=%s sub=%d at=%s dir=true depth=%d T.rel=%v R.rel=%v", s.Tree, s.Sub, want.At, want.AtDepth, s.FS.Rel, s.R.Rel),
		fmt.Sprintf("tree=%s sub=%d at=%s dir=%v depth=%d T.rel=%v R.rel=%v", a.Tree, a.Subscription, a.CurrentPath, a.IsDir, a.Depth, a.TraverseDescription.IsRelative, a.ResumeDescription.IsRelative), s)
	r.Same("saved metrics", persisted(s, want.AtM), persisted(s, st.metrics()), s)

	return data
}

// ---------------------------------------------------------------------- P12

func p12(r *rig.Rig) {
	pr := model.Proj{Kinds: "invoke " + life}

	one := func(ft gen.Feature) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			newR(g, s)

			ret := s.Ret
			if !panicAt(g, s, gen.Pick(g, "panic", "panicerr", "panicnil", "panicindex", "panicstruct")) {
				return
			}

			for p, a := range ret {
				if _, ok := s.Ret[p]; !ok {
					s.Ret[p] = a
				}
			}

			// the action that is scripted may come before the panic
			want := model.Run(s)
			if want.Err != "panic" {
				return
			}

			admin := gen.Pick(g, adminPath...)
			got := exec.Walk(s, age.IfOption(admin != "", age.WithAdminPath(admin)))

			if compare(r, "trace", s, pr, want, got) {
				saved(r, s, want, got, admin)
				r.Same("metrics", metrics(s, want.M), metrics(s, got.M), s)
			}

			r.Count(fmt.Sprintf("panic at depth %d", want.AtDepth), 1)
		}
	}

	r.Cases("plain", r.N(1500, 20000), one(gen.Feature{FilesFirst: 2, Listeners: 5}))
	r.Cases("combined", r.N(1500, 20000), one(gen.Feature{FilesFirst: 2, Listeners: 5, Node: 4, Child: 3, Depth: 3, Hib: 2, Sampling: 3, SampleFilter: 3, Fail: 1, Ret: 2}))

	r.Cases("again", r.N(300, 4000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 30, MaxKids: 5, Deep: 5}, FilesFirst: 2, Node: 2, Depth: 2})
		newR(g, s)

		data, _ := interrupt(r, g, s)
		if data == nil {
			return
		}

		dirs, files := gen.Paths(s.FS, s.Tree)
		ret := map[string]string{}

		for range 1 + g.Intn(4) {
			if at := gen.Pick(g, append(dirs, files...)...); at != s.Tree {
				ret[at] = gen.Pick(g, "panic", "panicerr")
			}
		}

		s.R = vfs.New(s.R.Rel)
		got := exec.Resume(withRet(s, ret), keep(data), gen.Pick(g, enums.ResumeStrategyFastward, enums.ResumeStrategySpawn))
		inv := invokes(got.Evs)

		if len(inv) == 0 || ret[inv[len(inv)-1].Path] == "" {
			return // the rest has none of them
		}

		var (
			te *locale.TraversalSavedError
			st state
		)

		if got.PanicEsc != "" || !errors.As(got.NavErr, &te) || len(s.R.Writes) != 1 {
			r.Fail("again", fmt.Sprintf("not saved: %q, %v, escaped: %v", s.R.Writes, got.NavErr, got.PanicEsc), s)
			return
		}

		r.Same("destination", te.Destination, s.R.Writes[0], s)
		named(r, "resume", s.R.Writes[0])

		if err := json.Unmarshal(s.R.At(s.R.Writes[0]).Data, &st); err != nil {
			r.Fail("json", fmt.Sprint(err), s)
			return
		}

		up := path.Dir(inv[len(inv)-1].Path)
		state := fmt.Sprintf("tree=%s sub=%d at=%s depth=%d", st.Active.Tree, st.Active.Subscription, st.Active.CurrentPath, st.Active.Depth)

		r.Same("saved again", fmt.Sprintf("tree=%s sub=%d at=%s depth=%d", s.Tree, s.Sub, up, depthOf(s.Tree, up)), state, s)
		r.Observe(state)
		r.Count("interrupted again", 1)
	})

	r.Cases("unsaved", r.N(500, 6000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{FilesFirst: 2, Listeners: 5, Node: 2})
		newR(g, s)

		if !panicAt(g, s, gen.Pick(g, "panic", "panicerr", "panicnil")) {
			return
		}

		reason := exec.ErrSave

		switch g.Intn(4) {
		case 3:
			s.NoR, reason = true, core.ErrNilForest
		case 0:
			s.R.MkErr = exec.ErrSave
		case 1:
			s.R.WriteErr = exec.ErrSave
		case 2:
			s.R.WriteErr, s.R.WriteCut = exec.ErrSave, g.Intn(60)
		}

		want := model.Run(s)
		got := exec.Walk(s, age.WithAdminPath("/verif/admin"))
		compare(r, "trace", s, pr, want, got)
		unsaved(r, s, got, reason)
	})

	// sessions that are saved within the same instant, in the same place
	r.Cases("same time", r.N(300, 4000), func(seed int64) {
		defer exec.Clock()

		g := gen.New(seed)
		now := time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)
		core.Now = func() time.Time { return now }

		type session struct {
			s    *model.Spec
			want *model.Trace
			got  *exec.Run
		}

		var (
			all    []*session
			shared = vfs.New(g.P(1, 2))
			admin  = gen.Pick(g, adminPath[1:]...)
			same   sync.WaitGroup
			queue  = g.P(1, 2)
		)

		n := 2 + g.Intn(3)
		if g.P(1, 12) {
			n = 11 + g.Intn(15)
		}

		for range n {
			s := g.Spec(gen.Feature{FilesFirst: 2, Listeners: 5})
			s.R = shared

			if panicAt(g, s, gen.Pick(g, "panic", "panicerr", "panicnil")) {
				all = append(all, &session{s: s, want: model.Run(s)})
			}
		}

		for _, x := range all {
			same.Add(1)

			go func() {
				defer same.Done()

				x.got = exec.Walk(x.s, age.WithAdminPath(admin))
			}()

			if queue {
				same.Wait()
			}
		}

		same.Wait()

		seen := map[string]bool{}

		for _, x := range all {
			var te *locale.TraversalSavedError
			if !errors.As(x.got.NavErr, &te) {
				r.Fail("error", fmt.Sprintf("not saved: %v", x.got.NavErr), x.s)
				return
			}

			at := te.Destination
			if n := shared.At(at); n == nil || seen[at] {
				r.Fail("overwritten", fmt.Sprintf("%s (of the files written: %q) is of another session, or missing", at, shared.Writes), x.s)
				return
			}

			seen[at] = true
			alone := vfs.New(shared.Rel)
			alone.Mk(at, false).Data = shared.At(at).Data
			alone.Writes = []string{at}
			x.s.R = alone

			if compare(r, "trace", x.s, pr, x.want, x.got) {
				saved(r, x.s, x.want, x.got, admin)
			}
		}

		r.Count("saved at the same time", len(all))
	})

	r.Cases("handler", r.N(500, 6000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{FilesFirst: 2, Listeners: 5, Node: 2})
		newR(g, s)

		if !panicAt(g, s, gen.Pick(g, "panic", "panicerr")) {
			return
		}

		how, calls := g.Intn(3), 0
		want := model.Run(s)
		got := exec.Walk(s, age.WithAdminPath("/verif/admin"), age.WithPanicHandler(pref.Rescuer(
			func(rec pref.Recovery, data pref.RescueData) (string, error) {
				calls++

				switch fmt.Sprint(data.Data()) {
				case "verif: panic", exec.ErrPanic.Error():
				default:
					r.Fail("data", fmt.Sprintf("the handler is given %v", data.Data()), s)
				}

				switch how {
				case 0:
					return "mine", nil
				case 1:
					return "", exec.ErrSave
				}

				return rec.Save(data)
			})))

		compare(r, "trace", s, pr, want, got)
		r.Same("handler", "calls=1", fmt.Sprintf("calls=%d", calls), s)

		switch how {
		case 0:
			var te *locale.TraversalSavedError
			if !errors.As(got.NavErr, &te) || te.Destination != "mine" || len(s.R.Writes) > 0 {
				r.Fail("handler", fmt.Sprintf("%v %q", got.NavErr, s.R.Writes), s)
			}
		case 1:
			unsaved(r, s, got, exec.ErrSave)
		case 2:
			saved(r, s, want, got, "/verif/admin")
		}
	})
}

func unsaved(r *rig.Rig, s *model.Spec, got *exec.Run, reason error) {
	var te *locale.TraversalNotSavedError

	if !errors.As(got.NavErr, &te) || !locale.IsCorePanicOccurredError(got.NavErr) {
		r.Fail("error", fmt.Sprintf("the error does not identify the failure to save and the panic: %v", got.NavErr), s)
	} else if !errors.Is(te.Reason, reason) {
		r.Fail("reason", fmt.Sprint(te.Reason), s)
	} else if !strings.Contains(got.NavErr.Error(), reason.Error()) {
		r.Fail("text with the reason", got.NavErr.Error(), s)
	}
}

// ---------------------------------------------------------------------- resume

var scratch string

// keep the saved bytes in a real file, which is where a resume reads them.
func keep(data []byte) string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-resume-")
		if err != nil {
			panic(err)
		}

		scratch = d
	}

	p := filepath.Join(scratch, "resume.json")
	if err := os.WriteFile(p, data, 0o600); err != nil {
		panic(err)
	}

	return p
}

func tidy() {
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// suffix of the events of the uninterrupted traversal from where the directory
// is descended into.
func suffix(u *model.Trace, at string) []model.Ev {
	for i, e := range u.Evs {
		if e.K == "descend" && e.Path == at {
			return u.Evs[i:]
		}
	}

	return nil
}

// interrupt runs s until the panic, and returns the saved bytes, or nil.
func interrupt(r *rig.Rig, g *gen.G, s *model.Spec) (data []byte, want *model.Trace) {
	keepRet := s.Ret
	defer func() { s.Ret = keepRet }()

	if !panicAt(g, s, gen.Pick(g, "panic", "panicerr")) {
		return nil, nil
	}

	for p, a := range keepRet {
		if _, ok := s.Ret[p]; !ok {
			s.Ret[p] = a
		}
	}

	want = model.Run(s)
	if want.Err != "panic" {
		return nil, nil
	}

	s.R = vfs.New(s.R.Rel)

	var os []pref.Option
	if s.Hooks != nil {
		_, os = exec.Hooks(s)
	}

	got := exec.Walk(s, os...)

	return saved(r, s, want, got, ""), want
}

func wakes(evs []model.Ev) bool {
	for _, e := range evs {
		if e.K == "wake" {
			return true
		}
	}

	return false
}

// only the invocations.
func invokes(evs []model.Ev) (out []model.Ev) {
	for _, e := range evs {
		if e.K == "invoke" {
			out = append(out, e)
		}
	}

	return
}

// cut the chain of ancestors: a spawned session does not have it all.
func cut(evs []model.Ev) []model.Ev {
	out := append([]model.Ev{}, evs...)

	for i := range out {
		if a := out[i].A; a != nil {
			b := *a
			b.Chain = b.Chain[:min(1, len(b.Chain))]
			out[i].A = &b
		}
	}

	return out
}

func withRet(s *model.Spec, ret map[string]string) *model.Spec {
	x := *s
	x.Ret = ret

	return &x
}

// again is what has to be specified again on resume, because it can't be saved.
func again(s *model.Spec) []pref.Option {
	if s.Custom != nil || s.Sample != nil && s.Sample.Kind == "custom" {
		return []pref.Option{exec.Filter(s)}
	}

	return nil
}

// resumeCase interrupts and resumes, up to several times.
func resumeCase(r *rig.Rig, strategy enums.ResumeStrategy, ft gen.Feature) func(seed int64) {
	return func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(ft)
		s.Listeners = 1
		newR(g, s)

		if ft.Hooks {
			plan(g, s, 3)
			delete(s.Hooks.Steps, "stat")
		}

		data, want := interrupt(r, g, s)
		if data == nil {
			return
		}

		at := want.At
		u := model.Run(s) // uninterrupted
		base := want.AtM  // metrics at the interruption

		for round := 1; ; round++ {
			rest := suffix(u, at)
			s.R = vfs.New(s.R.Rel)

			// a spawned session does not know whether the session was awake: see the
			// known findings
			if strategy == enums.ResumeStrategySpawn && s.Wake != nil && !wakes(rest) {
				return
			}

			// interrupt the resumed session too?
			run := s
			stop := -1

			if cand := invokes(rest); round < 4 && g.P(1, 2) {
				var pos []int

				for i, e := range cand {
					if e.Path != s.Tree {
						pos = append(pos, i)
					}
				}

				if len(pos) > 0 {
					stop = pos[g.Intn(len(pos))]
					ret := map[string]string{cand[stop].Path: gen.Pick(g, "panic", "panicerr")}

					for p, a := range s.Ret {
						if _, ok := ret[p]; !ok {
							ret[p] = a
						}
					}

					run = withRet(s, ret)
				}
			}

			os := again(s)

			if s.Hooks != nil {
				log, hs := exec.Hooks(s)
				os = append(os, hs...)

				defer func() {
					for _, b := range log.Bad {
						r.Fail("chain", b, s)
					}
				}()
			}

			got := exec.Resume(run, keep(data), strategy, os...)
			if got.PanicEsc != "" {
				r.Fail("resume", "a panic escaped: "+got.PanicEsc, s)
				return
			}

			expected := invokes(rest)
			if stop >= 0 {
				expected = expected[:stop+1]
			}

			pr := model.Proj{Kinds: "invoke", Attrs: true, Children: !s.SampleScheme(), Chain: true}
			we, ge := expected, invokes(got.Evs)

			if strategy == enums.ResumeStrategySpawn {
				we, ge = cut(we), cut(ge)
			}

			r.Observe(append([]string{fmt.Sprint(round, strategy)}, pr.Render(ge)...)...)
			r.Count(fmt.Sprintf("resumed, round %d", round), 1)
			r.Count("resumed nodes", len(ge))

			kind := fmt.Sprintf("round %d from %s", round, at)
			if !r.Equal(kind, pr.Render(we), pr.Render(ge), s) {
				return
			}

			if stop < 0 {
				session(r, s, got)
				r.Same(kind+" error", "error="+u.Err, "error="+got.Err, s)
			}

			if strategy == enums.ResumeStrategyFastward {
				events(r, s, at, rest, got, stop >= 0)
			} else {
				spawned(r, s, kind, at, got, base)
			}

			if strategy == enums.ResumeStrategyFastward {
				// counts what this session invoked
				m := count(got)
				r.Same(kind+" metrics", fmt.Sprintf("files=%d dirs=%d", m.Files, m.Dirs),
					fmt.Sprintf("files=%d dirs=%d", got.M.Files, got.M.Dirs), s)
			}

			if stop < 0 {
				return
			}

			// the next round starts from what has been saved now
			var te *locale.TraversalSavedError
			if !errors.As(got.NavErr, &te) || len(s.R.Writes) != 1 {
				r.Fail(kind, fmt.Sprintf("the interrupted resume was not saved: %v", got.NavErr), s)
				return
			}

			named(r, "resume", s.R.Writes[0])

			data = s.R.At(s.R.Writes[0]).Data

			var st state
			if err := json.Unmarshal(data, &st); err != nil {
				r.Fail(kind, fmt.Sprint(err), s)
				return
			}

			up := path.Dir(expected[stop].Path)
			r.Same(kind+" saved", fmt.Sprintf("tree=%s sub=%d at=%s depth=%d", s.Tree, s.Sub, up, depthOf(s.Tree, up)),
				fmt.Sprintf("tree=%s sub=%d at=%s depth=%d", st.Active.Tree, st.Active.Subscription, st.Active.CurrentPath, st.Active.Depth), s)

			at, base = up, st.metrics()
		}
	}
}

// events of a fastward resume: silence up to the resume point.
func events(r *rig.Rig, s *model.Spec, at string, rest []model.Ev, got *exec.Run, interrupted bool) {
	first := -1

	for i, e := range got.Evs {
		if e.K == "invoke" {
			first = i
			break
		}
	}

	ends := 0

	for i, e := range got.Evs {
		if e.K == "end" {
			ends++
		}

		if e.K == "begin" {
			r.Fail("events", "Begin is notified by a fastward resume", s)
		}

		if first >= 0 && i < first && (e.K == "descend" || e.K == "ascend") && !under(e.Path, at) {
			r.Fail("events", fmt.Sprintf("%s %s is notified ahead of the resume point %s", e.K, e.Path, at), s)
		}
	}

	r.Same("End", "ends=1", fmt.Sprintf("ends=%d", ends), s)

	// whether it's notified that the session wakes up where it resumes is left open;
	// it must not be notified if that was before
	if wakes(got.Evs) && !wakes(rest) {
		r.Fail("events", "Wake is notified, but the session woke up ahead of the resume point "+at, s)
	}

	if first < 0 || interrupted {
		return
	}

	// from the first invocation on, exactly as in the uninterrupted traversal
	pr := model.Proj{Kinds: "invoke " + life + " " + hiber, Notes: true}
	for i, e := range rest {
		if e.K == "invoke" {
			r.Equal("events", pr.Render(rest[i:]), pr.Render(got.Evs[first:]), s)
			break
		}
	}
}

func under(p, dir string) bool {
	return p == dir || dir == "." || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// count the invocations.
func count(got *exec.Run) (m model.Metrics) {
	for _, e := range got.Evs {
		if e.K == "invoke" {
			if e.A.Dir {
				m.Dirs++
			} else {
				m.Files++
			}
		}
	}

	return
}

// spawned checks what is particular to spawn: metrics add up, and what has been
// completed isn't read.
func spawned(r *rig.Rig, s *model.Spec, kind, at string, got *exec.Run, base model.Metrics) {
	m := count(got)
	r.Same(kind+" metrics", fmt.Sprintf("files=%d dirs=%d", base.Files+m.Files, base.Dirs+m.Dirs),
		fmt.Sprintf("files=%d dirs=%d", got.M.Files, got.M.Dirs), s)

	// before the resume point: not an ancestor, not below it, and not after it
	order := map[string]int{}
	for i, e := range model.Run(withRet(s, nil)).Evs {
		if e.K == "descend" {
			order[e.Path] = i
		}
	}

	for _, p := range got.Reads {
		if i, ok := order[p]; ok && i < order[at] && !under(at, p) {
			r.Fail(kind, p+" was completed before, but is read again", s)
			return
		}
	}
}

// diskCase interrupts and resumes on the local disk, with the file systems that
// are used by default and the state where it is saved by default.
func diskCase(r *rig.Rig, strategy enums.ResumeStrategy) func(seed int64) {
	return func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 20, MaxKids: 4, Deep: 5}, FilesFirst: 3, Node: 3, Child: 2})

		if s.Tree == "." || s.Tree == "/" || s.Custom != nil || !panicAt(g, s, "panic") {
			return
		}

		base, ok := lay(s)
		defer os.RemoveAll(base)

		if !ok {
			return
		}

		old := s.Tree
		at := filepath.Join(base, path.Base(old))
		want, uninterrupted := model.Run(s), model.Run(withRet(s, nil))
		moved := func(evs []model.Ev) (out []model.Ev) {
			for _, e := range invokes(evs) {
				e.Path = at + strings.TrimPrefix(e.Path, old)
				out = append(out, e)
			}

			return
		}

		x := withRet(s, map[string]string{})
		x.Tree = at

		for p, a := range s.Ret {
			x.Ret[at+strings.TrimPrefix(p, old)] = a
		}

		if g.P(1, 3) {
			x.Spell = at + "/"
		}

		pr := model.Proj{Kinds: "invoke", Children: true}
		got := exec.WalkDisk(x)

		if !r.Equal("disk", pr.Render(moved(want.Evs)), pr.Render(invokes(got.Evs)), x) {
			return
		}

		var te *locale.TraversalSavedError
		if !errors.As(got.NavErr, &te) {
			r.Fail("disk", fmt.Sprintf("not saved: %v", got.NavErr), x)
			return
		}

		defer os.Remove(te.Destination)

		x.Ret = nil
		got = exec.ResumeDisk(x, te.Destination, strategy)
		r.Count("resumed on disk", 1)
		rest := pr.Render(moved(suffix(uninterrupted, want.At)))
		r.Observe(rest...)
		r.Equal("disk, resumed", rest, pr.Render(invokes(got.Evs)), x)
		r.Same("disk, error", "<nil>", fmt.Sprint(got.NavErr), x)
	}
}

// ---------------------------------------------------------------------- P13

func p13(r *rig.Rig) {
	defer tidy()

	fw := enums.ResumeStrategyFastward
	sh := gen.Shape{Max: 25, MaxKids: 4, Deep: 5, Huge: 4}
	r.Cases("plain", r.N(1500, 20000), resumeCase(r, fw, gen.Feature{Shape: sh, FilesFirst: 2, Case: 2, NoSep: 3}))
	r.Cases("combined", r.N(1500, 20000), resumeCase(r, fw, gen.Feature{Shape: sh, FilesFirst: 2, Case: 1, NoSep: 3, Node: 5, Custom: 1, Child: 3, Depth: 3, Sampling: 3, SampleFilter: 3}))
	r.Cases("scripted", r.N(600, 6000), resumeCase(r, fw, gen.Feature{Shape: sh, FilesFirst: 3, Ret: 10}))
	r.Cases("disk", r.N(60, 600), diskCase(r, fw))
	r.Cases("hibernating", r.N(500, 5000), resumeCase(r, fw, gen.Feature{Shape: sh, FilesFirst: 3, Hib: 10, Node: 2}))
}

// ---------------------------------------------------------------------- P14

func p14(r *rig.Rig) {
	defer tidy()

	sp := enums.ResumeStrategySpawn
	sh := gen.Shape{Max: 25, MaxKids: 4, Deep: 5, Huge: 4}
	r.Cases("plain", r.N(1500, 20000), resumeCase(r, sp, gen.Feature{Shape: sh, FilesFirst: 2, Case: 2, NoSep: 3}))
	r.Cases("combined", r.N(1500, 20000), resumeCase(r, sp, gen.Feature{Shape: sh, FilesFirst: 2, Case: 1, NoSep: 3, Node: 5, Custom: 1, Child: 3, Depth: 3, Sampling: 3, SampleFilter: 3}))
	r.Cases("scripted", r.N(600, 6000), resumeCase(r, sp, gen.Feature{Shape: sh, FilesFirst: 3, Ret: 10}))
	r.Cases("disk", r.N(60, 600), diskCase(r, sp))
	r.Cases("hibernating", r.N(600, 6000), resumeCase(r, sp, gen.Feature{Shape: sh, FilesFirst: 3, Hib: 10, Node: 2}))
	r.Cases("awake", 1, func(int64) {
		// the specific history of the known finding
		s := &model.Spec{Tree: "t", Sub: enums.SubscribeFiles, FS: vfs.New(true), Listeners: 1,
			Wake: &model.Filter{Kind: "glob", Pattern: "w", Scope: enums.ScopeAll, Desc: "w"},
			Ret:  map[string]string{"t/b/x": "panic"}}
		s.R = vfs.New(true)
		s.FS.Mk("t", true)
		s.FS.Mk("t/a", true)
		s.FS.Mk("t/a/w", false)
		s.FS.Mk("t/b", true)
		s.FS.Mk("t/b/x", false)
		s.FS.Mk("t/b/y", false)
		s.Listing = s.FS.Listing()

		want := model.Run(s)
		got := exec.Walk(s)
		data := saved(r, s, want, got, "")
		s.Ret = nil
		again := exec.Resume(s, keep(data), sp)

		var at []string
		for _, e := range invokes(again.Evs) {
			at = append(at, e.Path)
		}

		r.Observe(at...)
		r.Known["spawn-after-wake"] = len(at) == 0

		if len(at) != 0 {
			r.Same("awake", "[t/b/x t/b/y]", fmt.Sprint(at), s)
		}
	})
}
