// Command conc decides the properties of concurrent traversals, and of several
// traversals at the same time. It is built with the race detector.
package main

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
	"github.com/snivilised/agenor/zzverif/vfs"
)

var checks = map[string]func(r *rig.Rig){
	"P16": p16, "P17": p17, "P18": p18, "P19": p19, "P24": p24,
}

func main() {
	exec.Init()
	exec.Clock()

	gen.ErrRead, gen.ErrInfo = exec.ErrRead, exec.ErrInfo

	r := rig.New()

	fn, ok := checks[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", r.Prop)
		os.Exit(3)
	}

	d, err := os.MkdirTemp("", "verif-conc-")
	if err != nil {
		panic(err)
	}

	scratch = d

	fn(r)
	os.RemoveAll(d)
	r.Done()
}

var (
	scratch string
	files   atomic.Int64
)

// keep the state where Resume can load it from.
func keep(data []byte) string {
	p := filepath.Join(scratch, fmt.Sprintf("resume-%d.json", files.Add(1)))
	if err := os.WriteFile(p, data, 0o600); err != nil {
		panic(err)
	}

	return p
}

// ------------------------------------------------------------------- monitor

// monitor of the handlers of a session.
type monitor struct {
	mu       sync.Mutex
	begun    map[string]int
	done     map[string]int
	errs     map[string]error
	attrs    []model.Ev
	bad      []string
	now, top int
	order    []string
	total    atomic.Int64
}

func newMonitor() *monitor {
	return &monitor{begun: map[string]int{}, done: map[string]int{}, errs: map[string]error{}}
}

func (m *monitor) enter(ev model.Ev) {
	m.mu.Lock()
	defer m.mu.Unlock()

	m.begun[ev.Path]++
	m.attrs = append(m.attrs, ev)
	m.order = append(m.order, ev.Path)
	m.now++
	m.top = max(m.top, m.now)
}

func (m *monitor) leave(p string, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()

	m.now--
	m.done[p]++
	m.errs[p] = err
}

func (m *monitor) complain(f string, args ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()

	m.bad = append(m.bad, fmt.Sprintf(f, args...))
}

// hash of a path and a salt.
func hash(p string, salt int64) uint32 {
	h := fnv.New32a()
	fmt.Fprint(h, p, salt)

	return h.Sum32()
}

// pace of the handlers.
type pace struct {
	kind int
	salt int64
}

func newPace(g *gen.G) pace { return pace{g.Intn(7), g.Int63()} }

// wait as befits the node.
func (p pace) wait(at string) {
	h := hash(at, p.salt)

	switch p.kind {
	case 0:
	case 1:
		for range h % 50 {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(h%200) * time.Microsecond)
	case 3:
		if h%7 == 0 {
			time.Sleep(3 * time.Millisecond)
		}
	case 4:
		if h%2 == 0 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Microsecond)
		}
	case 5:
		time.Sleep(500 * time.Microsecond)
	case 6:
		x := 0
		for i := range int(h % 20000) {
			x += i
		}

		sink.Store(int64(x))
	}
}

var sink atomic.Int64

// result of a handler; most of them fail if errs.
func verdict(p string, errs bool, salt int64) error {
	if !errs {
		return nil
	}

	switch h := hash(p, salt) % 8; h {
	case 0, 1:
		return nil
	case 2:
		return &exec.Scripted{Name: p}
	default:
		return exec.Act([]string{"skipdir", "skipall", "e1", "e2", "e3"}[h-3])
	}
}

// handler that is monitored. extra is done while the handler is in execution.
func (m *monitor) handler(pc pace, errs bool, extra func(n int64, p string)) core.Client {
	return func(sv core.Servant) error {
		n := sv.Node()
		a := exec.Attrs(n)
		before := fmt.Sprint(a, a.Children, a.Chain)
		m.enter(model.Ev{K: "invoke", Path: a.Path, A: a})
		k := m.total.Add(1)

		if extra != nil {
			extra(k, a.Path)
		}

		pc.wait(a.Path)

		err := verdict(a.Path, errs, pc.salt)
		b := exec.Attrs(n)

		if after := fmt.Sprint(b, b.Children, b.Chain); after != before {
			m.complain("the node changed during the handler: %s to %s", before, after)
		}

		m.leave(a.Path, err)

		return err
	}
}

// ------------------------------------------------------------------- session

// session is a concurrent traversal under observation.
type session struct {
	s        *model.Spec
	m        *monitor
	client   core.Client
	os       []pref.Option
	from     string // resume
	strategy enums.ResumeStrategy
	result   core.TraverseResult
	err      error
	panicked string
	waited   *monitor
	wg       sync.WaitGroup
}

func (x *session) run(ctx context.Context) {
	defer func() {
		if p := recover(); p != nil {
			x.panicked = fmt.Sprint(p)
		}
	}()

	head := pref.Head{Handler: x.client, GetForest: exec.Forest(x.s)}

	var ext *age.Builders
	if x.from != "" {
		ext = age.Resume(&pref.Relic{From: x.from, Strategy: x.strategy, Head: head}, x.os...)
	} else {
		ext = age.Prime(&pref.Using{Tree: x.s.Spelled(), Subscription: x.s.Sub, Head: head}, x.os...)
	}

	x.s.FS.Reset()
	x.result, x.err = age.Run(&x.wg).Configure().Extent(ext).Navigate(ctx)
}

// features of the traversals.
func feature(g *gen.G) gen.Feature {
	sh := gen.Shape{Max: gen.Pick(g, 3, 10, 30, 60, 120), MaxKids: gen.Pick(g, 3, 6, 12), Deep: 5}
	if g.P(1, 2) {
		return gen.Feature{Shape: sh, FilesFirst: 3}
	}

	return gen.Feature{Shape: sh, FilesFirst: 3, Case: 2, NoSep: 3, Node: 3, Custom: 1, Child: 3, Depth: 3,
		NoRecurse: 1, Sampling: 3, SampleFilter: 3, Hib: 2, Fail: 1, Info: 1}
}

// interrupt a walk of s, for the purpose of resuming it.
func interrupt(g *gen.G, s *model.Spec) (data []byte, rest []model.Ev) {
	u := model.Run(s)

	var at []string

	for _, e := range u.Evs {
		if e.K == "invoke" && e.Path != s.Tree {
			at = append(at, e.Path)
		}
	}

	if len(at) == 0 {
		return nil, nil
	}

	s.R = vfs.New(s.FS.Rel)
	s.Ret = map[string]string{gen.Pick(g, at...): "panic"}
	want := model.Run(s)
	got := exec.Walk(s)
	s.Ret = nil

	if want.Err != "panic" || len(s.R.Writes) != 1 {
		panic(fmt.Sprint("can't interrupt: ", got.NavErr, got.PanicEsc))
	}

	data = s.R.At(s.R.Writes[0]).Data
	s.R = vfs.New(s.R.Rel)

	for i, e := range u.Evs {
		if e.K == "descend" && e.Path == want.At {
			return data, u.Evs[i:]
		}
	}

	return nil, nil
}

func invokes(evs []model.Ev) (out []model.Ev) {
	for _, e := range evs {
		if e.K == "invoke" {
			out = append(out, e)
		}
	}

	return
}

func metrics(s *model.Spec, m model.Metrics) string {
	if s.SampleScheme() {
		m.ChildFound, m.ChildOut = 0, 0
	}

	return m.String()
}

func nows(g *gen.G) uint { return gen.Pick[uint](g, 1, 1, 2, 2, 3, 4, 5, 8, 16, 32) }

// prepared session: what is expected of it.
type prepared struct {
	*session
	expected []model.Ev
	want     *model.Trace
	now      uint
	g        *gen.G
	pace     pace
	proj     model.Proj
	errs     bool
	inputs   uint
	cut      bool
	bang     func(path string) bool // the handler panics
}

func prepare(g *gen.G, ft gen.Feature, resume int) *prepared {
	s := g.Spec(ft)
	s.Listeners = 0
	p := &prepared{session: &session{s: s, m: newMonitor()}, g: g, now: nows(g), pace: newPace(g), errs: g.P(1, 2)}
	s.NoW = p.now

	var how []pref.Option

	if g.P(1, 6) { // by default as many as there are processors
		p.now, s.NoW = uint(runtime.NumCPU()), 0

		switch g.Intn(3) {
		case 0:
			how = append(how, age.WithCPU())
		case 1:
			how = append(how, age.WithNoW(3), age.WithCPU())
		}
	}

	p.os = append(exec.Options(s), how...)
	p.proj = model.Proj{Kinds: "invoke", Attrs: true, Children: !s.SampleScheme(), Chain: true}

	if g.P(1, 2) {
		p.inputs = uint(g.Intn(5))
		p.os = append(p.os, func(o *pref.Options) error { o.Concurrency.Input.Size = p.inputs; return nil })
	}

	if g.P(resume, 10) && s.Custom == nil && !(s.Sample != nil && s.Sample.Kind == "custom") {
		if data, rest := interrupt(g, s); data != nil {
			strategy := gen.Pick(g, enums.ResumeStrategyFastward, enums.ResumeStrategySpawn)

			if strategy == enums.ResumeStrategyFastward || s.Wake == nil {
				p.from, p.strategy, p.expected = keep(data), strategy, invokes(rest)
				p.os = nil
				p.cut = strategy == enums.ResumeStrategySpawn
			}
		}
	}

	p.want = model.Run(s)
	if p.from == "" {
		p.expected = invokes(p.want.Evs)
	}

	if s.CaseSens == 2 { // a hook can't be saved
		p.os = append(p.os, age.WithHookCaseSensitiveSort())
	}

	p.client = p.m.handler(p.pace, p.errs, nil)

	return p
}

// cutChain truncates the chain of ancestors, that of a spawned session isn't complete.
func cutChain(evs []model.Ev) []model.Ev {
	out := append([]model.Ev{}, evs...)

	for i := range out {
		if a := out[i].A; a != nil {
			b := *a
			b.Chain = b.Chain[:min(1, len(b.Chain))]
			out[i].A = &b
		}
	}

	return out
}

// everything was executed exactly once.
func (p *prepared) complete(r *rig.Rig) bool {
	if p.panicked != "" {
		r.Fail("panic", "a panic escaped Navigate: "+p.panicked, p.s)
		return false
	}

	m := p.m
	m.mu.Lock()
	defer m.mu.Unlock()

	we, ge := p.expected, m.attrs
	if p.cut {
		we, ge = cutChain(we), cutChain(ge)
	}

	a, b := rig.Sorted(p.proj.Render(we)), rig.Sorted(p.proj.Render(ge))
	r.Observe(fmt.Sprintf("now=%d pace=%d", p.now, p.pace.kind), strings.Join(m.order, " "))
	r.Count("handlers", len(ge))
	r.Count(fmt.Sprintf("at most %02d in parallel", m.top), 1)

	ok := r.Equal("invocations", a, b, p.s)

	for path, n := range m.begun {
		if m.done[path] != n {
			ok = false

			r.Fail("unfinished", fmt.Sprintf("the handler for %s is not complete when the wait group is released", path), p.s)
		}
	}

	for _, s := range m.bad {
		ok = false

		r.Fail("node", s, p.s)
	}

	if p.want.Err == "" && p.err != nil {
		ok = false

		r.Fail("error", fmt.Sprintf("Navigate returned %v", p.err), p.s)
	}

	return ok
}

// fallible makes some of the handlers panic, when they have done their work.
func fallible(p *prepared) {
	inner, salt, rate := p.client, p.g.Int63(), gen.Pick(p.g, 1, 2, 5, 20)
	p.bang = func(path string) bool { return hash(path, salt)%uint32(rate) == 0 }
	p.client = func(sv core.Servant) error {
		err := inner(sv)

		if p.bang(sv.Node().Path) {
			panic(errBang)
		}

		return err
	}
}

var errBang = errors.New("verif: bang")

// ------------------------------------------------------------------------ P16

func p16(r *rig.Rig) {
	one := func(resume int) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			p := prepare(g, feature(g), resume)
			p.run(context.Background())
			p.wg.Wait()

			if p.complete(r) && p.from == "" && p.result != nil {
				r.Same("metrics", metrics(p.s, p.want.M), metrics(p.s, exec.MetricsOf(p.result)), p.s)
			}
		}
	}

	r.Cases("prime", r.N(150, 600), one(0))
	r.Cases("resume", r.N(80, 300), one(10))

	// the handlers that panic are lost to nobody else
	r.Cases("panics", r.N(40, 200), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, feature(g), 2)
		fallible(p)
		p.run(context.Background())
		p.wg.Wait()

		if p.complete(r) && p.m.top > int(p.now) {
			r.Fail("bound", fmt.Sprintf("%d handlers in execution with %d workers", p.m.top, p.now), p.s)
		}
	})

	// the wait group is released concurrently with the end of the session
	r.Cases("waiting", r.N(60, 300), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, feature(g), 0)
		p.wg.Add(1)

		done := make(chan struct{})

		go func() {
			defer close(done)
			p.wg.Wait()
			p.complete(r)
		}()

		p.run(context.Background())
		p.wg.Done()
		<-done
	})
	r.Cases("large", r.N(2, 6), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, gen.Feature{Shape: gen.Shape{Max: 1500, MaxKids: 30, Deep: 6}}, 0)
		p.run(context.Background())
		p.wg.Wait()
		p.complete(r)
	})
}

// ------------------------------------------------------------------------ P17

// barrier that opens when n are there.
type barrier struct {
	mu   sync.Mutex
	n    int
	in   int
	open chan struct{}
}

// patience of those that wait for something that is certain to happen. When it
// didn't there's no need for the cases that follow to wait for as long.
func patience() time.Duration {
	if impatient.Load() {
		return 5 * time.Second
	}

	return 100 * time.Second
}

var impatient atomic.Bool

func p17(r *rig.Rig) {
	r.Cases("bound", r.N(150, 600), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, feature(g), 3)
		p.run(context.Background())
		p.wg.Wait()

		if p.complete(r) && p.m.top > int(p.now) {
			r.Fail("bound", fmt.Sprintf("%d handlers in execution with %d workers", p.m.top, p.now), p.s)
		}
	})

	r.Cases("parallel", r.N(120, 500), func(seed int64) {
		g := gen.New(seed)

		var p *prepared
		for p == nil || len(p.expected) < int(p.now) {
			p = prepare(g, gen.Feature{Shape: gen.Shape{Max: 100, MaxKids: 9, Deep: 5}, Child: 2, Depth: 1}, 3)
		}

		var (
			mu       sync.Mutex
			in       int
			open     = make(chan struct{})
			timedOut atomic.Bool
		)

		// in rounds of as many as there are workers; the last few don't wait
		limit := int64(len(p.expected) / int(p.now) * int(p.now))
		p.client = p.m.handler(p.pace, p.errs, func(k int64, _ string) {
			if k > limit {
				return
			}

			mu.Lock()
			in++

			if in == int(p.now) {
				in = 0

				close(open)
				open = make(chan struct{})
				mu.Unlock()

				return
			}

			gate := open
			mu.Unlock()

			select {
			case <-gate:
			case <-time.After(patience()):
				timedOut.Store(true)
				impatient.Store(true)
			}
		})
		p.run(context.Background())
		p.wg.Wait()
		p.complete(r)

		switch {
		case timedOut.Load():
			r.Fail("parallel", fmt.Sprintf("%d workers and %d jobs, but no more than %d handlers in parallel", p.now, len(p.expected), p.m.top), p.s)
		case p.m.top > int(p.now):
			r.Fail("bound", fmt.Sprintf("%d handlers in execution with %d workers", p.m.top, p.now), p.s)
		}
	})

	// the navigator is ahead of the handlers by what the input channel can hold
	r.Cases("ahead", r.N(60, 250), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, gen.Feature{Shape: gen.Shape{Max: 150, MaxKids: gen.Pick(g, 3, 9, 150), Deep: 5}, FilesFirst: 3}, 0)

		size := uint(gen.Pick(g, 0, 0, 1, 2, 3, 5, 10, 20, 40))
		p.os = append(p.os, func(o *pref.Options) error { o.Concurrency.Input.Size = size; return nil })

		if size == 0 {
			size = p.now
		}

		var (
			nodes, finished, most atomic.Int64
			reached               = make(chan struct{})
			timedOut              atomic.Bool
			once                  sync.Once
			allowed               = int64(p.now + size)
			lower                 = min(int64(len(p.expected)), allowed)
			slack                 = int64(4) // what the navigator and the pool have in their hands
		)

		p.os = append(p.os, age.WithOnDescend(func(n *core.Node) {
			switch dir := n.IsDirectory(); p.s.Sub {
			case enums.SubscribeFiles:
				if dir {
					return
				}
			case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
				if !dir {
					return
				}
			}

			k := nodes.Add(1)
			d := k - finished.Load()

			for m := most.Load(); d > m && !most.CompareAndSwap(m, d); m = most.Load() {
			}

			if k == lower {
				once.Do(func() { close(reached) })
			}
		}))

		settle := time.Duration(gen.Pick(g, 0, 1, 5)) * time.Millisecond
		inner := p.m.handler(p.pace, p.errs, func(k int64, _ string) {
			select {
			case <-reached:
				if k <= int64(p.now) {
					time.Sleep(settle)
				}
			case <-time.After(patience()):
				timedOut.Store(true)
				impatient.Store(true)
				once.Do(func() { close(reached) })
			}
		})
		p.client = func(sv core.Servant) error {
			defer finished.Add(1)

			return inner(sv)
		}
		p.run(context.Background())
		p.wg.Wait()
		p.complete(r)
		r.Count(fmt.Sprintf("ahead by %02d more than the workers and the buffer", max(0, most.Load()-allowed)), 1)

		switch {
		case timedOut.Load():
			r.Fail("ahead", fmt.Sprintf("%d workers and an input channel of %d, but the navigator waits with %d of %d nodes",
				p.now, size, nodes.Load(), len(p.expected)), p.s)
		case most.Load() > allowed+slack:
			r.Fail("ahead", fmt.Sprintf("%d workers and an input channel of %d, but the navigator is %d nodes ahead",
				p.now, size, most.Load()), p.s)
		}
	})

	// as many accesses to the nodes as possible, while the traversal continues
	r.Cases("races", r.N(60, 300), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, feature(g), 3)
		p.client = p.m.handler(p.pace, p.errs, func(int64, string) {})
		inner := p.client
		p.client = func(sv core.Servant) error {
			n := sv.Node()
			for range 3 {
				for q := n; q != nil; q = q.Parent {
					sink.Add(int64(q.Extension.Depth + len(q.Extension.SubPath) + len(q.Children) + len(q.Path)))
				}

				runtime.Gosched()
			}

			return inner(sv)
		}
		p.run(context.Background())

		// while the handlers are at work, look at the result
		if p.result != nil {
			_ = exec.MetricsOf(p.result)
		}

		p.wg.Wait()
		p.complete(r)
	})
}

// ------------------------------------------------------------------------ P18

// outputs records what the stream yields.
type outputs struct {
	mu     sync.Mutex
	got    map[string]int
	bad    []string
	closed bool
	n      int
	target error // a job that's abandoned has this error
	bang   func(path string) bool
}

func (o *outputs) take(out pref2, m *monitor) {
	o.mu.Lock()
	defer o.mu.Unlock()

	o.n++

	if out.Payload == nil || out.Payload.Servant == nil || out.Payload.Servant.Node() == nil {
		o.bad = append(o.bad, "an output without a node")
		return
	}

	p := out.Payload.Servant.Node().Path
	o.got[p]++

	if o.bang != nil && o.bang(p) {
		return // whether a panic is reported by an output isn't specified
	}

	m.mu.Lock()
	err, done := m.errs[p], m.done[p]
	m.mu.Unlock()

	if done == 0 && o.target != nil && out.Error != nil && errors.Is(out.Error, o.target) && errors.Is(out.Payload.Error, o.target) {
		return // abandoned
	}

	if done == 0 {
		o.bad = append(o.bad, "an output for "+p+", the job of which is not done")
	}

	if out.Payload.Error != err || out.Error != err {
		o.bad = append(o.bad, fmt.Sprintf("the output for %s has errors %v and %v, the handler returned %v", p, out.Payload.Error, out.Error, err))
	}
}

func p18(r *rig.Rig) {
	one := func(panics bool) func(seed int64) {
		return func(seed int64) {
			g := gen.New(seed)
			ft := feature(g)
			ft.Shape.Max = min(ft.Shape.Max, 60)
			p := prepare(g, ft, 2)

			out := &outputs{got: map[string]int{}}

			if panics {
				fallible(p)
				out.bang = p.bang
			}

			kind, size := g.Intn(6), uint(g.Intn(6))
			salt := g.Int63()

			p.os = append(p.os, age.WithOutput(&pref.OutputOptions{
				Size:               size,
				CheckCloseInterval: gen.Pick(g, 0, time.Millisecond, 15*time.Millisecond),
				TimeoutOnSend:      time.Hour,
				On: func(outs core.OutputStream) {
					p.wg.Add(1)

					go func() {
						defer p.wg.Done()

						if kind == 1 {
							time.Sleep(5 * time.Millisecond)
						}

						i := 0
						for o := range outs {
							out.take(o, p.m)

							switch i++; {
							case kind == 2:
								time.Sleep(300 * time.Microsecond)
							case kind == 3 && i%5 == 0:
								time.Sleep(3 * time.Millisecond)
							case kind == 4:
								runtime.Gosched()
							case kind == 5 && hash(fmt.Sprint(i), salt)%4 == 0:
								time.Sleep(time.Millisecond)
							}
						}

						out.mu.Lock()
						out.closed = true
						out.mu.Unlock()
					}()
				},
			}))

			p.run(context.Background())
			p.wg.Wait()

			if !p.complete(r) {
				return
			}

			out.mu.Lock()
			defer out.mu.Unlock()

			r.Count("outputs", out.n)

			if !out.closed {
				r.Fail("stream", "the wait group is released but the stream isn't closed", p.s)
			}

			for _, s := range out.bad {
				r.Fail("output", s, p.s)
			}

			for path, n := range out.got {
				if p.m.begun[path] != n {
					r.Fail("output", fmt.Sprintf("%d outputs for %s, %d jobs", n, path, p.m.begun[path]), p.s)
				}
			}

			for path, n := range p.m.begun {
				if out.bang != nil && out.bang(path) {
					continue
				}

				if out.got[path] != n {
					r.Fail("output", fmt.Sprintf("%d outputs for %s, %d jobs", out.got[path], path, n), p.s)
				}
			}
		}
	}

	// the workers are ahead of the consumer by what the output channel can hold
	r.Cases("ahead", r.N(50, 200), func(seed int64) {
		g := gen.New(seed)
		p := prepare(g, gen.Feature{Shape: gen.Shape{Max: 150, MaxKids: gen.Pick(g, 3, 9, 150), Deep: 5}, FilesFirst: 3}, 0)

		asked := uint(gen.Pick(g, 0, 0, 1, 2, 3, 5, 10, 20, 40))
		size := asked

		if size == 0 {
			size = p.now
		}

		var (
			started, received, most atomic.Int64
			reached                 = make(chan struct{})
			timedOut                atomic.Bool
			allowed                 = int64(p.now + size)
			lower                   = min(int64(len(p.expected)), allowed)
			slack                   = int64(2)
			settle                  = time.Duration(gen.Pick(g, 0, 1, 5)) * time.Millisecond
			out                     = &outputs{got: map[string]int{}}
		)

		if lower == 0 {
			close(reached)
		}

		p.client = p.m.handler(p.pace, p.errs, func(int64, string) {
			k := started.Add(1)
			d := k - received.Load()

			for m := most.Load(); d > m && !most.CompareAndSwap(m, d); m = most.Load() {
			}

			if k == lower {
				close(reached)
			}
		})
		p.os = append(p.os, age.WithOutput(&pref.OutputOptions{
			Size: asked, CheckCloseInterval: time.Millisecond, TimeoutOnSend: time.Hour,
			On: func(outs core.OutputStream) {
				p.wg.Add(1)

				go func() {
					defer p.wg.Done()

					select {
					case <-reached:
					case <-time.After(patience()):
						timedOut.Store(true)
						impatient.Store(true)
					}

					time.Sleep(settle)
					received.Add(1) // the one it's waiting for

					for o := range outs {
						received.Add(1)
						out.take(o, p.m)
					}
				}()
			},
		}))
		p.run(context.Background())
		p.wg.Wait()
		p.complete(r)
		r.Count("outputs", out.n)
		r.Count(fmt.Sprintf("ahead by %02d more than the workers and the buffer", max(0, most.Load()-allowed)), 1)

		switch {
		case timedOut.Load():
			r.Fail("ahead", fmt.Sprintf("%d workers and an output channel of %d, but only %d of %d handlers are executed before an output is taken",
				p.now, size, started.Load(), len(p.expected)), p.s)
		case most.Load() > allowed+slack:
			r.Fail("ahead", fmt.Sprintf("%d workers and an output channel of %d, but %d handlers are executed that no output was taken of",
				p.now, size, most.Load()), p.s)
		case out.n != len(p.expected):
			r.Fail("ahead", fmt.Sprintf("%d outputs for %d jobs", out.n, len(p.expected)), p.s)
		}
	})

	r.Cases("outputs", r.N(80, 300), one(false))
	r.Cases("panics", r.N(15, 60), one(true))
}

// ------------------------------------------------------------------------ misc

var _ = rand.Int
