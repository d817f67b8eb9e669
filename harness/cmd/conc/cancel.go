package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	age "github.com/snivilised/agenor"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/pants"
)

type pref2 = pants.JobOutput[*core.TraverseOutput]

// leftover goroutines of sessions: those with a frame of the code under test.
func leftover() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]

	for i, gr := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // this one
		}

		if strings.Contains(gr, "snivilised/pants") || strings.Contains(strings.ReplaceAll(gr, "snivilised/agenor/zzverif", ""), "snivilised/agenor") {
			return gr
		}
	}

	return ""
}

func p19(r *rig.Rig) {
	cases := func(how string, quick, thorough int) {
		r.Cases(how, r.N(quick, thorough), func(seed int64) {
			g := gen.New(seed)
			ft := feature(g)
			resume := 2

			if how == "stuck" {
				ft, resume = gen.Feature{Shape: gen.Shape{Max: 260, MaxKids: gen.Pick(g, 4, 12, 300), Deep: 5}, FilesFirst: 3}, 0
			}

			p := prepare(g, ft, resume)
			n := len(p.expected)
			held := int(p.now+p.inputs) + 4 // jobs that the navigator could submit while the workers are stuck

			if p.inputs == 0 {
				held += int(p.now)
			}

			if how == "stuck" && n < held+60 {
				return
			}

			var (
				ctx    = context.Background()
				cancel context.CancelFunc
				target = context.Canceled
				late   atomic.Int64
				begun  atomic.Int64 // handlers, by the time of the cancellation, or -1
			)

			if how == "deadline" {
				ctx, cancel = context.WithDeadline(ctx, time.Now().Add(time.Duration(g.Intn(2000)-300)*time.Microsecond))
				target = context.DeadlineExceeded
			} else {
				ctx, cancel = context.WithCancel(ctx)
			}
			defer cancel()

			begun.Store(-1)

			stop := func() { cancel(); begun.Store(p.m.total.Load()) }

			if how == "deadline" {
				context.AfterFunc(ctx, func() { begun.Store(p.m.total.Load()) })
			}
			at := int64(1 + g.Intn(n+1))

			var once sync.Once
			extra := func(k int64, _ string) {}

			switch how {
			case "before":
				stop()
			case "handler":
				extra = func(k int64, _ string) {
					if k == at {
						once.Do(stop)
					}
				}
			case "blocked":
				// the handlers don't return until the context is cancelled, so that
				// the navigator can't submit any more
				extra = func(k int64, _ string) {
					if k == min(at, int64(p.now)) {
						go func() {
							time.Sleep(time.Duration(hash("x", p.pace.salt)%2000) * time.Microsecond)
							once.Do(stop)
						}()
					}

					<-ctx.Done()
				}
			case "stuck":
				// the handlers don't return for a while after the cancellation
				extra = func(k int64, _ string) {
					if k == int64(p.now) {
						go func() {
							time.Sleep(time.Duration(hash("x", p.pace.salt)%20) * time.Millisecond)
							once.Do(stop)
						}()
					}

					<-ctx.Done()
					time.Sleep(50 * time.Millisecond)
				}
			case "node":
				var nodes atomic.Int64
				p.os = append(p.os, age.WithOnDescend(func(*core.Node) {
					if nodes.Add(1) == at {
						once.Do(stop)
					}
				}))
			case "after":
			case "async":
				go func() {
					time.Sleep(time.Duration(hash("y", p.pace.salt)%3000) * time.Microsecond)
					once.Do(stop)
				}()
			}

			if how == "blocked" && n < int(p.now) {
				return
			}

			p.client = p.m.handler(p.pace, p.errs, extra)

			out := &outputs{got: map[string]int{}, target: target}
			ranges := g.P(1, 2)

			if g.P(1, 2) {
				p.os = append(p.os, age.WithOutput(&pref.OutputOptions{
					Size: uint(g.Intn(5)), CheckCloseInterval: time.Millisecond, TimeoutOnSend: time.Hour,
					On: func(outs core.OutputStream) {
						p.wg.Add(1)

						go func() {
							defer p.wg.Done()

							if ranges {
								for o := range outs {
									out.take(o, p.m)
								}

								return
							}

							for {
								select {
								case o, ok := <-outs:
									if !ok {
										return
									}

									out.take(o, p.m)
								case <-ctx.Done():
									// what is in the stream still
									for {
										select {
										case o, ok := <-outs:
											if !ok {
												return
											}

											out.take(o, p.m)
										default:
											return
										}
									}
								}
							}
						}()
					},
				}))
			}

			p.run(ctx)

			if how == "after" {
				stop()
			}

			p.wg.Wait()

			if p.panicked != "" {
				r.Fail("panic", p.panicked, p.s)
				return
			}

			m := p.m
			m.mu.Lock()

			order := strings.Join(m.order, " ")
			executed := len(m.order)

			if m.now != 0 {
				r.Fail("in execution", fmt.Sprintf("%d handlers are in execution when the wait group is released", m.now), p.s)
			}

			allowed := map[string]bool{}

			for _, e := range p.expected {
				allowed[e.Path] = true
			}

			for path, k := range m.begun {
				if k > 1 {
					r.Fail("twice", fmt.Sprintf("the handler for %s was executed %d times", path, k), p.s)
				}

				if !allowed[path] {
					r.Fail("invocation", "of "+path+" is unexpected", p.s)
				}
			}
			m.mu.Unlock()

			// a worker may be about to execute a job that it has taken already
			if b := begun.Load(); b >= 0 && int64(executed)-b > int64(p.now) {
				r.Fail("abandoned", fmt.Sprintf("%d handlers began after the cancellation, there are %d workers", int64(executed)-b, p.now), p.s)
			}

			r.Observe(how, fmt.Sprint(p.now, p.inputs, at), order, fmt.Sprint(p.err))
			r.Count(fmt.Sprintf("%s: cancelled=%v", how, p.err != nil), 1)

			switch {
			case p.err == nil && how == "stuck":
				r.Fail("error", fmt.Sprintf("Navigate returned none, of %d jobs at most %d could be submitted before the cancellation", n, held), p.s)
			case p.err == nil:
				// then everything was submitted
				if p.result == nil {
					r.Fail("result", "there is none", p.s)
				} else if p.from == "" {
					r.Same("submitted without error", metrics(p.s, p.want.M), metrics(p.s, exec.MetricsOf(p.result)), p.s)
				}
			case p.want.Err != "" && exec.ErrName(p.err) == p.want.Err:
			case !errors.Is(p.err, target):
				r.Fail("error", fmt.Sprintf("Navigate returned %v", p.err), p.s)
			case how == "after":
				r.Fail("error", fmt.Sprintf("Navigate returned %v before the cancellation", p.err), p.s)
			}

			for path, k := range out.got {
				if k > 1 || !allowed[path] {
					r.Fail("output", fmt.Sprintf("%d outputs for %s, %d jobs", k, path, m.begun[path]), p.s)
				}
			}

			for _, s := range out.bad {
				r.Fail("output", s, p.s)
			}

			// nothing remains; goroutines may need a moment to end
			var rest string
			for range 3000 {
				if rest = leftover(); rest == "" {
					break
				}

				time.Sleep(10 * time.Millisecond)
			}

			if rest != "" {
				r.Fail("goroutine", "remains 30s after the wait group was released:\n"+rest, p.s)
			}

			m.mu.Lock()
			late.Store(int64(len(m.order) - executed))
			m.mu.Unlock()

			if late.Load() > 0 {
				r.Fail("late", fmt.Sprintf("%d handlers began after the wait group was released", late.Load()), p.s)
			}
		})
	}

	cases("before", 30, 150)
	cases("node", 60, 300)
	cases("handler", 60, 300)
	cases("blocked", 60, 300)
	cases("stuck", 60, 200)
	cases("async", 40, 200)
	cases("deadline", 40, 200)
	cases("after", 10, 50)
}
