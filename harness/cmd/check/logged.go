package main

import (
	"context"
	"fmt"
	"log/slog"
	"sync"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func init() {
	checks["P31"] = p31
}

// journal of what is logged.
type journal struct {
	mu      sync.Mutex
	records []string
}

func (j *journal) Enabled(context.Context, slog.Level) bool { return true }

func (j *journal) Handle(_ context.Context, r slog.Record) error {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.records = append(j.records, fmt.Sprint(r.Level, " ", r.Message))

	return nil
}

func (j *journal) WithAttrs([]slog.Attr) slog.Handler { return j }
func (j *journal) WithGroup(string) slog.Handler      { return j }

func p31(r *rig.Rig) {
	defer tidy()

	pr := model.Proj{Kinds: "invoke ask fault oops " + life, Notes: true}

	// what is logged of a session that ended with err
	audit := func(kind string, s *model.Spec, j *journal, err error) {
		var want []string
		if err != nil {
			want = append(want, "ERROR "+err.Error())
			r.Count("logged", 1)
		} else {
			r.Count("not logged", 1)
		}

		r.Equal(kind, want, j.records, s)
		r.Observe(append([]string{kind}, j.records...)...)
	}

	one := func(ft gen.Feature, panics bool) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			s := g.Spec(ft)
			newR(g, s)

			if panics && !panicAt(g, s, gen.Pick(g, "panic", "panicerr", "panicnil")) {
				return
			}

			want := model.Run(s)
			if want.PanicEsc != "" {
				return
			}

			j, other := &journal{}, &journal{}
			got := exec.Walk(s, age.WithLogger(slog.New(other)), age.WithLogger(slog.New(j)))

			compare(r, "trace", s, pr, want, got)
			audit("walk", s, j, got.NavErr)
			r.Equal("a logger that was replaced", nil, other.records, s)

			if panics || g.P(1, 2) {
				return
			}

			// the same with a run; its handlers have no bearing on the traversal

			if ft.Ret == 0 {
				j = &journal{}
				run := &exec.Run{}
				s.FS.Reset()

				ext := age.Prime(run.UsingOf(s), append(exec.Options(s), age.WithLogger(slog.New(j)))...)
				run.Go(true, ext)
				audit("run", s, j, run.NavErr)
			}
		}
	}

	sh := gen.Shape{Max: 20, MaxKids: 5, Deep: 5}
	r.Cases("callback", r.N(800, 10000), one(gen.Feature{Shape: sh, Ret: 10, Listeners: 5, FileRoot: 2, Hib: 3, Node: 3}, false))
	r.Cases("file system", r.N(800, 10000), one(gen.Feature{Shape: sh, Fail: 8, Ask: 6, Info: 3, Listeners: 5, FilesFirst: 2, Child: 3}, false))
	r.Cases("panic", r.N(400, 5000), one(gen.Feature{Shape: sh, Listeners: 5, Depth: 3}, true))
	r.Cases("success", r.N(300, 3000), one(gen.Feature{Shape: sh, Hib: 5, Node: 3, Sampling: 3, Depth: 3}, false))

	r.Cases("resume", r.N(300, 3000), func(seed int64) {
		g := gen.New(seed)
		s := g.Spec(gen.Feature{Shape: sh, FilesFirst: 2})
		newR(g, s)

		if !panicAt(g, s, "panic") {
			return
		}

		want := model.Run(s)
		if want.Err != "panic" {
			return
		}

		j := &journal{}
		got := exec.Walk(s, age.WithLogger(slog.New(j)))
		data := saved(r, s, want, got, "")
		audit("walk", s, j, got.NavErr)

		if data == nil {
			return
		}

		rest := *s
		rest.Ret = nil

		if g.P(1, 2) {
			dirs, files := gen.Paths(s.FS, s.Tree)
			rest.Ret = map[string]string{gen.Pick(g, append(dirs, files...)...): "err"}
		}

		j = &journal{}
		got = exec.Resume(&rest, keep(data), gen.Pick(g, enums.ResumeStrategyFastward, enums.ResumeStrategySpawn),
			age.WithLogger(slog.New(j)))

		// whether a resumed session that fails is logged is left open
		//
		for _, m := range j.records {
			r.Same("resume", true, got.NavErr != nil && m == "ERROR "+got.NavErr.Error(), j.records)
		}

		r.Same("resume", true, len(j.records) <= 1, j.records)
		r.Observe(append([]string{"resume"}, j.records...)...)
	})
}
