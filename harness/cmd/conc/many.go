package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
)

// task is one of several sessions.
type task struct {
	s    *model.Spec
	want *model.Trace
	data []byte     // to be resumed
	rest []model.Ev // what remains then
	fast bool       // Run
	conc *prepared  // in that case
	how  enums.ResumeStrategy
	run  *exec.Run
	hook func() // inside of each callback
}

// newTask on a file system of its own, or on the given one.
func newTask(g *gen.G, shared *model.Spec) *task {
	if g.P(1, 4) && shared == nil {
		return &task{fast: true, conc: prepare(g, feature(g), 2)}
	}

	ft := gen.Feature{Shape: gen.Shape{Max: 40, MaxKids: 6, Deep: 5}, FilesFirst: 3, Case: 2, NoSep: 3, Node: 4, Custom: 1,
		Child: 3, Depth: 2, NoRecurse: 1, Sampling: 3, SampleFilter: 3, Hib: 2, Ret: 3, Ask: 2, Fail: 2, Info: 1, Listeners: 6}

	if shared != nil {
		ft.Fail, ft.Info = 0, 0
	}

	s := g.Spec(ft)
	if shared != nil {
		s.FS, s.Tree, s.Listing = shared.FS, shared.Tree, shared.Listing
		s.Ret, s.Ask = nil, nil
	}

	t := &task{s: s}
	s.R = vfs.New(s.FS.Rel)

	if s.Custom == nil && (s.Sample == nil || s.Sample.Kind != "custom") && s.CaseSens != 2 && s.Ret == nil && !s.HasAsk && g.P(1, 4) && shared == nil {
		t.data, t.rest = interrupt(g, s)
		t.how = enums.ResumeStrategyFastward
	}

	t.want = model.Run(s)

	return t
}

// perform the session.
func (t *task) perform() {
	if t.fast {
		t.conc.run(context.Background())
		t.conc.wg.Wait()

		return
	}

	s := t.s
	r := &exec.Run{}
	t.run = r
	client := r.Client(s)
	handler := func(sv core.Servant) error {
		if t.hook != nil {
			t.hook()
		}

		return client(sv)
	}

	r.Guard(func() {
		head := pref.Head{Handler: handler, GetForest: exec.Forest(s)}

		if t.data != nil {
			r.Finish(age.Walk().Configure().Extent(age.Resume(&pref.Relic{From: keep(t.data), Strategy: t.how, Head: head},
				r.Listeners(s)...)).Navigate(context.Background()))

			return
		}

		r.Finish(age.Walk().Configure().Extent(age.Prime(&pref.Using{Tree: s.Spelled(), Subscription: s.Sub, Head: head},
			append(exec.Options(s), r.Listeners(s)...)...)).Navigate(context.Background()))
	})
}

// verify that the session was as it would have been on its own.
func (t *task) verify(r *rig.Rig, kind string) {
	if t.fast {
		t.conc.complete(r)
		return
	}

	alone(r, kind, t.s, t.want, t.rest, t.run)
}

func alone(r *rig.Rig, kind string, s *model.Spec, want *model.Trace, rest []model.Ev, got *exec.Run) {
	if got.PanicEsc != "" || got.Result == nil {
		r.Fail(kind, "a panic escaped Navigate: "+got.PanicEsc, s)
		return
	}

	p := model.Proj{Kinds: "invoke begin end descend ascend wake sleep ask", Attrs: true, Children: !s.SampleScheme(), Chain: true, Notes: true}
	evs := want.Evs

	if rest != nil {
		p.Kinds, p.Notes, evs = "invoke", false, rest
	} else if s.Listeners == 0 {
		p.Kinds = "invoke ask"
	}

	gs := p.Render(got.Evs)
	r.Observe(gs...)
	r.Count("sessions", 1)
	r.Count("events", len(gs))

	if r.Equal(kind, p.Render(evs), gs, s) {
		r.Same(kind+" error", "error="+want.Err, "error="+got.Err, s)

		if rest == nil {
			r.Same(kind+" metrics", metrics(s, want.M), metrics(s, got.M), s)
		}
	}
}

func p24(r *rig.Rig) {
	r.Cases("at the same time", r.N(60, 300), func(seed int64) {
		g := gen.New(seed)
		ts := make([]*task, 2+g.Intn(7))

		for i := range ts {
			ts[i] = newTask(g, nil)
		}

		var wg sync.WaitGroup

		start := make(chan struct{})

		for _, t := range ts {
			wg.Add(1)

			go func() {
				defer wg.Done()
				<-start
				t.perform()
			}()
		}

		close(start)
		wg.Wait()

		for _, t := range ts {
			t.verify(r, "at the same time")
		}
	})

	r.Cases("same tree", r.N(40, 200), func(seed int64) {
		g := gen.New(seed)
		shared := g.Spec(gen.Feature{Shape: gen.Shape{Max: 40, MaxKids: 6, Deep: 5}})
		ts := make([]*task, 2+g.Intn(5))

		for i := range ts {
			ts[i] = newTask(g, shared)
		}

		var wg sync.WaitGroup

		for _, t := range ts {
			wg.Add(1)

			go func() {
				defer wg.Done()
				t.perform()
			}()
		}

		wg.Wait()

		for _, t := range ts {
			t.verify(r, "same tree")
		}
	})

	r.Cases("nested", r.N(60, 300), func(seed int64) {
		g := gen.New(seed)

		var outer *task
		for outer == nil || outer.fast {
			outer = newTask(g, nil)
		}

		var inner []*task

		for range 1 + g.Intn(3) {
			inner = append(inner, newTask(g, nil))
		}

		n := 0
		every := 1 + g.Intn(4)
		performed := 0
		outer.hook = func() {
			if n++; n%every == 0 && performed < len(inner) {
				inner[performed].perform()
				performed++
			}
		}
		outer.perform()
		outer.verify(r, "outer")

		for _, t := range inner[:performed] {
			t.verify(r, "inner")
		}
	})

	r.Cases("interleaved", r.N(60, 300), func(seed int64) {
		// walks that take turns, so that they are all in progress throughout
		g := gen.New(seed)
		ts := make([]*task, 2+g.Intn(3))

		var (
			mu   sync.Mutex
			cond = sync.NewCond(&mu)
			turn atomic.Int64
			left = map[int]bool{}
		)

		next := func() { // with mu
			if len(left) == 0 {
				return
			}

			for {
				k := int(turn.Add(1)) % len(ts)
				if left[k] {
					break
				}
			}

			cond.Broadcast()
		}

		for i := range ts {
			for ts[i] == nil || ts[i].fast {
				ts[i] = newTask(g, nil)
			}

			left[i] = true
			ts[i].hook = func() {
				mu.Lock()
				defer mu.Unlock()
				next()

				for int(turn.Load())%len(ts) != i {
					cond.Wait()
				}
			}
		}

		var wg sync.WaitGroup

		for i, t := range ts {
			wg.Add(1)

			go func() {
				defer wg.Done()
				t.perform()
				mu.Lock()
				defer mu.Unlock()
				delete(left, i)
				next()
			}()
		}

		wg.Wait()

		for _, t := range ts {
			t.verify(r, "interleaved")
		}
	})

	r.Cases("same options", r.N(60, 300), func(seed int64) {
		// the same option functions used for several sessions
		g := gen.New(seed)
		s := reusable(g)
		want := model.Run(s)
		os := exec.Options(s)
		parallel := g.P(1, 2)
		n := 2 + g.Intn(3)
		runs := make([]*exec.Run, n)

		var wg sync.WaitGroup

		for i := range n {
			one := func() { runs[i] = reuse(s, os, nil) }

			if !parallel {
				one()
				continue
			}

			wg.Add(1)

			go func() {
				defer wg.Done()
				one()
			}()
		}

		wg.Wait()

		for i, run := range runs {
			alone(r, fmt.Sprintf("same options, session %d", i), s, want, nil, run)
		}
	})

	r.Cases("Using.O", r.N(120, 600), func(seed int64) {
		// the same instance used for several sessions, on different trees
		g := gen.New(seed)
		s := reusable(g)
		g.Plan(s, g.Intn(6))
		opts := exec.Options(s)
		log, hooks := exec.Hooks(s)
		opts = append(opts, hooks...)

		var o *pref.Options

		if g.P(1, 2) {
			o = pref.DefaultOptions()

			for _, fn := range opts {
				if fn != nil {
					if err := fn(o); err != nil {
						r.Fail("option", err.Error(), s)
					}
				}
			}
		} else {
			// as found in the first session
			first := reuse(s, append(append([]pref.Option{}, opts...), func(x *pref.Options) error { o = x; return nil }), nil)
			alone(r, "the first", s, model.Run(s), nil, first)
		}

		for i := range 2 + g.Intn(3) {
			x := *s
			if g.P(1, 2) {
				other := g.Spec(gen.Feature{Shape: gen.Shape{Max: 40, MaxKids: 6, Deep: 5, Lower: true}})
				x.FS, x.Tree, x.Listing, x.Sub = other.FS, other.Tree, other.Listing, other.Sub

				if x.SampleScheme() {
					x.Sub = s.Sub
				}
			}

			log.Tree = x.Tree
			alone(r, fmt.Sprintf("use %d", i), &x, model.Run(&x), nil, reuse(&x, nil, o))
		}

		for _, b := range log.Bad {
			r.Fail("hooks", b, s)
		}
	})
}

func reusable(g *gen.G) *model.Spec {
	return g.Spec(gen.Feature{Shape: gen.Shape{Max: 40, MaxKids: 6, Deep: 5, Lower: true}, FilesFirst: 3, Case: 2, NoSep: 3, Node: 4, Custom: 1,
		Child: 3, Depth: 2, NoRecurse: 1, Sampling: 4, SampleFilter: 3, Hib: 2})
}

func reuse(s *model.Spec, os []pref.Option, o *pref.Options) *exec.Run {
	r := &exec.Run{}
	if s.CaseSens == 2 && o == nil {
		os = append(append([]pref.Option{}, os...), age.WithHookCaseSensitiveSort())
	}

	r.Guard(func() {
		r.Finish(age.Walk().Configure().Extent(age.Prime(&pref.Using{Tree: s.Spelled(), Subscription: s.Sub, O: o,
			Head: pref.Head{Handler: r.Client(s), GetForest: exec.Forest(s)}}, os...)).Navigate(context.Background()))
	})

	return r
}
