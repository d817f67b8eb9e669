package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
	"github.com/snivilised/pants"
)

func init() {
	checks["P22"] = p22
}

// goid of the calling goroutine.
func goid() int {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.Atoi(string(b[:bytes.IndexByte(b, ' ')]))

	return n
}

// group counts how it's used.
type group struct {
	sync.WaitGroup
	adds atomic.Int64
}

func (g *group) Add(n int) {
	g.adds.Add(1)
	g.WaitGroup.Add(n)
}

// outcome of a navigator.
type outcome struct {
	*exec.Run
	foreign int // invocations on another goroutine
	adds    int64
}

// composites that can stand for the combination.
func composites(walk, prime bool, wg pants.WaitGroup) map[string]age.Scenario {
	cs := map[string]age.Scenario{"hydra": age.Hydra(walk, prime, wg)}

	if walk {
		cs["tortoise"] = age.Tortoise(prime)
	} else {
		cs["hare"] = age.Hare(prime, wg)
	}

	if prime {
		cs["goldfish"] = age.Goldfish(walk, wg)
	}

	return cs
}

func explicit(walk, prime bool, wg pants.WaitGroup) age.Scenario {
	return func(f pref.Facade, os ...pref.Option) age.Navigator {
		var ext *age.Builders
		if prime {
			ext = age.Prime(f, os...)
		} else {
			ext = age.Resume(f, os...)
		}

		if walk {
			return age.Walk().Configure().Extent(ext)
		}

		return age.Run(wg).Configure().Extent(ext)
	}
}

// navigate by a scenario.
func navigate(s *model.Spec, how func(wg pants.WaitGroup) age.Scenario, facade func(run *exec.Run, handler core.Client) pref.Facade, os func(run *exec.Run) []pref.Option) *outcome {
	o := &outcome{Run: &exec.Run{}}

	var (
		g       group
		mu      sync.Mutex
		self    = goid()
		foreign int
		client  = o.Client(s)
	)

	handler := func(sv core.Servant) error {
		if goid() != self {
			mu.Lock()
			foreign++
			mu.Unlock()
		}

		return client(sv)
	}

	s.FS.Reset()
	o.Guard(func() {
		o.Finish(how(&g)(facade(o.Run, handler), append(os(o.Run), func(p *pref.Options) error {
			o.Opts = p
			return nil
		})...).Navigate(context.Background()))
	})
	g.Wait()

	o.foreign, o.adds = foreign, g.adds.Load()

	return o
}

func p22(r *rig.Rig) {
	defer tidy()

	for _, walk := range []bool{true, false} {
		for _, prime := range []bool{true, false} {
			for _, name := range []string{"hydra", "hare", "tortoise", "goldfish"} {
				if _, ok := composites(walk, prime, nil)[name]; !ok {
					continue
				}

				r.Cases(fmt.Sprintf("%s/walk=%v/prime=%v", name, walk, prime), r.N(300, 3000), func(seed int64) {
					composite(r, gen.New(seed), name, walk, prime)
				})
				r.Cases(fmt.Sprintf("%s/walk=%v/prime=%v/facade", name, walk, prime), r.N(2, 20), func(seed int64) {
					misfit(r, gen.New(seed), name, walk, prime)
				})
			}
		}
	}
}

func composite(r *rig.Rig, g *gen.G, name string, walk, prime bool) {
	sh := gen.Shape{Max: 20, MaxKids: 4, Deep: 4}

	var (
		s    *model.Spec
		data []byte
		want *model.Trace
		at   string
	)

	for data == nil {
		ft := gen.Feature{Shape: sh, FilesFirst: 2, Node: 4, Child: 2, Depth: 2, Sampling: 2, SampleFilter: 2}
		if walk {
			ft.Ret = 3
			ft.Listeners = 3
		}

		s = g.Spec(ft)
		s.Listeners = min(s.Listeners, 1)
		newR(g, s)

		if prime {
			break
		}

		s.Ret = nil

		var w *model.Trace
		if data, w = interrupt(r, g, s); len(r.Viol) > 0 {
			return
		} else if w != nil {
			at = w.At
		}
	}

	s.NoW = uint(1 + g.Intn(6))
	want = model.Run(s)
	strategy := gen.Pick(g, enums.ResumeStrategyFastward, enums.ResumeStrategySpawn)

	facade := func(run *exec.Run, handler core.Client) pref.Facade {
		if prime {
			u := run.UsingOf(s)
			u.Handler = handler

			return u
		}

		x := run.RelicOf(s, keep(data), strategy)
		x.Handler = handler

		return x
	}

	os := func(run *exec.Run) []pref.Option {
		if prime {
			return append(exec.Options(s), run.Listeners(s)...)
		}

		// concurrency was not part of what was saved
		return append(append(again(s), age.WithNoW(s.NoW)), run.Listeners(s)...)
	}

	s.R = vfs.New(s.R.Rel)
	ref := navigate(s, func(wg pants.WaitGroup) age.Scenario { return explicit(walk, prime, wg) }, facade, os)
	s.R = vfs.New(s.R.Rel)
	got := navigate(s, func(wg pants.WaitGroup) age.Scenario { return composites(walk, prime, wg)[name] }, facade, os)

	if ref.PanicEsc != "" || got.PanicEsc != "" || got.Result == nil || ref.Result == nil {
		r.Fail("panic", fmt.Sprintf("explicit: %q, composite: %q", ref.PanicEsc, got.PanicEsc), s)
		return
	}

	pr := model.Proj{Kinds: "invoke " + life, Attrs: true, Children: true, Chain: true}
	if !walk {
		pr.Kinds = "invoke"
	}

	a, b := pr.Render(ref.Evs), pr.Render(got.Evs)
	if !walk {
		a, b = rig.Sorted(a), rig.Sorted(b)
	}

	r.Observe(append([]string{name}, b...)...)

	if !r.Equal("like explicit", a, b, s) {
		return
	}

	r.Same("metrics", ref.M, got.M, s)
	r.Same("error", "error="+ref.Err, "error="+got.Err, s)
	r.Same("settings", settings(ref.Opts), settings(got.Opts), s)
	r.Count("invocations", len(invokes(got.Evs)))

	// and what they're both expected to do
	expected := want.Evs
	if !prime {
		expected = suffix(want, at)
	}

	attr := model.Proj{Kinds: "invoke", Attrs: true}
	a, b = attr.Render(expected), attr.Render(got.Evs)

	if !walk {
		a, b = rig.Sorted(a), rig.Sorted(b)
	}

	r.Equal("as specified", a, b, s)

	n := len(invokes(got.Evs))

	switch {
	case walk && got.foreign > 0:
		r.Fail("walk", fmt.Sprintf("%d invocations on another goroutine", got.foreign), s)
	case walk && got.adds > 0:
		r.Fail("walk", "uses the wait group", s)
	case !walk && got.foreign != n:
		r.Fail("run", fmt.Sprintf("%d of %d invocations on the goroutine of the caller", n-got.foreign, n), s)
	case !walk && got.adds == 0:
		r.Fail("run", "doesn't use the wait group", s)
	}
}

// settings that were in force.
func settings(o *pref.Options) string {
	if o == nil {
		return "none"
	}

	data, err := json.Marshal([]any{o.Behaviours, o.Sampling.Type, o.Sampling.InReverse, o.Sampling.NoOf, o.Hibernate, o.Concurrency.NoW, o.Concurrency.Input,
		o.Concurrency.Output.Size, o.Concurrency.Output.CheckCloseInterval, o.Concurrency.Output.TimeoutOnSend,
		o.Filter.Node, o.Filter.Child, o.Filter.Sample, o.Monitor.Admin.Path})

	if err != nil {
		panic(err)
	}

	return string(data)
}

// misfit passes the facade of the other extent.
func misfit(r *rig.Rig, g *gen.G, name string, walk, prime bool) {
	s, data := interrupted(r, g)
	if s == nil {
		return
	}

	got := navigate(s, func(wg pants.WaitGroup) age.Scenario { return composites(walk, prime, wg)[name] },
		func(run *exec.Run, handler core.Client) pref.Facade {
			if g.P(1, 5) {
				return nil
			}

			if prime {
				return run.RelicOf(s, keep(data), enums.ResumeStrategyFastward)
			}

			return run.UsingOf(s)
		}, func(run *exec.Run) []pref.Option { return nil })

	rejected(r, s, got.Run, func(err error) bool {
		if prime {
			return errors.Is(err, core.ErrWrongPrimaryFacade)
		}

		return errors.Is(err, core.ErrWrongResumeFacade)
	})
}
