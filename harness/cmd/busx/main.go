// Command busx decides the property of the message bus.
package main

import (
	"context"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/services"
	"github.com/snivilised/agenor/internal/third/bus"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func main() {
	exec.Init()

	r := rig.New()
	p25(r)
	r.Done()
}

var (
	topicNames = []string{"begin", "end", "end.x", "toggle", "toggle.1", "x", "", "a/b", "Begin", "ünicode"}
	matchers   = []string{"", ".*", "^begin$", "^begin", "end", "toggle", "^toggle\\.[0-9]$", "x$", "^$", "(", "[a-e]", "(?i)begin", "a/b|x", "nothing"}
)

type counter struct{ n atomic.Int64 }

func (c *counter) Generate() string { return fmt.Sprintf("#%d", c.n.Add(1)) }

type registered struct {
	matcher string
	version int
}

type delivery struct {
	key string // "key/version"
	m   bus.Message
	ctx context.Context
}

type world struct {
	r        *rig.Rig
	g        *gen.G
	b        *bus.Broker
	mu       sync.Mutex
	topics   map[string]bool
	handlers map[string]registered
	got      []delivery
	version  int
	nested   int // what to emit within the next delivery
	log      []string
	ids      map[string]bool
}

func (w *world) matching(topic string) (out []string) {
	if !w.topics[topic] {
		return nil
	}

	for k, h := range w.handlers {
		if re, err := regexp.Compile(h.matcher); err == nil && re.MatchString(topic) {
			out = append(out, fmt.Sprintf("%s/%d", k, h.version))
		}
	}

	sort.Strings(out)

	return out
}

func keys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

func (w *world) same(kind string, want, got any) {
	w.r.Same(kind+" after "+strings.Join(w.log, ", "), want, got, w.log)
}

func (w *world) audit() {
	w.same("topics", keys(w.topics), rig.Sorted(w.b.Topics()))
	w.same("handler keys", keys(w.handlers), rig.Sorted(w.b.HandlerKeys()))

	for _, t := range topicNames {
		var want []string
		for _, k := range w.matching(t) {
			want = append(want, k[:strings.LastIndex(k, "/")])
		}

		w.same("handlers of topic "+t, rig.Sorted(want), rig.Sorted(w.b.TopicHandlerKeys(t)))
	}

	for _, k := range []string{"h0", "h1", "h2", "h3", "h4", "h5", "none"} {
		var want []string

		for t := range w.topics {
			if slices.ContainsFunc(w.matching(t), func(x string) bool { return strings.HasPrefix(x, k+"/") }) {
				want = append(want, t)
			}
		}

		w.same("subscriptions of "+k, rig.Sorted(want), rig.Sorted(w.b.HandlerTopicSubscriptions(k)))
	}
}

func (w *world) register() {
	k := fmt.Sprintf("h%d", w.g.Intn(6))
	m := gen.Pick(w.g, matchers...)
	w.version++
	name := fmt.Sprintf("%s/%d", k, w.version)
	w.handlers[k] = registered{m, w.version}
	w.log = append(w.log, fmt.Sprintf("register %s %q", name, m))
	w.b.RegisterHandler(k, bus.Handler{Matcher: m, Handle: func(ctx context.Context, msg bus.Message) {
		w.mu.Lock()
		w.got = append(w.got, delivery{name, msg, ctx})
		n := w.nested
		w.nested = 0
		w.mu.Unlock()

		for range n {
			w.emission(true)
		}
	}})
}

type token struct{}

// emission to a random topic, and what came of it.
func (w *world) emission(inner bool) {
	var (
		g     = w.g
		topic = gen.Pick(g, topicNames...)
		data  = g.Intn(1000000)
		ctx   = context.WithValue(context.Background(), token{}, data)
		src   = gen.Pick(g, "", "src", "other")
		tx    = gen.Pick(g, "", "tx1", "tx2")
		id    = ""
		at    time.Time
		err   error
	)

	w.mu.Lock()
	before := w.got
	w.got = nil
	w.mu.Unlock()

	if !inner && g.P(1, 4) {
		w.nested = 1 + g.Intn(2)
	}

	began := time.Now()
	plain := g.P(1, 2)

	if plain {
		if src != "" || g.P(1, 2) {
			ctx = context.WithValue(ctx, bus.CtxKeySource, src)
		}

		if tx != "" || g.P(1, 2) {
			ctx = context.WithValue(ctx, bus.CtxKeyTxID, tx)
		}

		w.log = append(w.log, fmt.Sprintf("emit %q", topic))
		err = w.b.Emit(ctx, topic, data)
	} else {
		var os []bus.MessageOption

		if src != "" {
			os = append(os, bus.WithSource(src))
		}

		if tx != "" {
			os = append(os, bus.WithTxID(tx))
		}

		if g.P(1, 2) {
			id = fmt.Sprintf("id%d", g.Intn(100))
			os = append(os, bus.WithID(id))
		}

		if g.P(1, 2) {
			at = time.Unix(int64(g.Intn(1e9)), 7)
			os = append(os, bus.WithOccurredAt(at))
		}

		g.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
		w.log = append(w.log, fmt.Sprintf("emit with options %q", topic))
		err = w.b.EmitWithOpts(ctx, topic, data, os...)
	}

	ended := time.Now()
	w.nested = 0

	var got []string

	fresh := map[string]bool{}

	for _, d := range w.got {
		if d.m.Data != data {
			continue // of an inner emission, which has been looked at
		}

		got = append(got, d.key)
		w.same("topic", topic, d.m.Topic)
		w.same("source", src, d.m.Source)
		w.same("context", data, d.ctx.Value(token{}))

		if tx != "" {
			w.same("transaction", tx, d.m.TxID)
		} else {
			w.same("a fresh transaction", true, d.m.TxID != "" && !w.ids[d.m.TxID])
			fresh[d.m.TxID] = true
		}

		if plain {
			w.same("transaction of the context", d.m.TxID, d.ctx.Value(bus.CtxKeyTxID))
		}

		if id != "" {
			w.same("id", id, d.m.ID)
		} else {
			w.same("a fresh id", true, d.m.ID != "" && !w.ids[d.m.ID] && d.m.ID != d.m.TxID)
			fresh[d.m.ID] = true
		}

		if !at.IsZero() {
			w.same("time", at, d.m.OccurredAt)
		} else {
			w.same("time", true, !d.m.OccurredAt.Before(began) && !d.m.OccurredAt.After(ended))
		}
	}

	for k := range fresh {
		w.ids[k] = true
	}

	limit := 0 // fresh ones are the same for all that receive it
	if tx == "" {
		limit++
	}

	if id == "" {
		limit++
	}

	w.same("fresh identities", true, len(fresh) <= limit)

	sort.Strings(got)
	want := w.matching(topic)
	w.same(fmt.Sprintf("deliveries of %q", topic), want, got)
	w.r.Count("deliveries", len(got))

	w.same("error of "+topic, !w.topics[topic], err != nil)

	if err != nil {
		w.r.Count("refused", 1)
		w.same("kind of error", true, core.IsBrokerTopicNotFoundError(err))
	}

	w.mu.Lock()
	w.got = append(before, w.got...)
	w.mu.Unlock()
	w.r.Observe(fmt.Sprint(topic, want, err), fmt.Sprint(keys(w.topics)), fmt.Sprint(len(w.handlers)))
}

func (w *world) step() {
	g := w.g

	switch g.Intn(9) {
	case 0, 1:
		var ts []string
		for range g.Intn(4) {
			ts = append(ts, gen.Pick(g, topicNames...))
		}

		w.log = append(w.log, fmt.Sprintf("topics %q", ts))
		w.b.RegisterTopics(ts...)

		for _, t := range ts {
			w.topics[t] = true
		}
	case 2:
		var ts []string
		for range g.Intn(3) {
			ts = append(ts, gen.Pick(g, topicNames...))
		}

		w.log = append(w.log, fmt.Sprintf("drop topics %q", ts))
		w.b.DeregisterTopics(ts...)

		for _, t := range ts {
			delete(w.topics, t)
		}
	case 3, 4, 5:
		w.register()
	case 6:
		k := fmt.Sprintf("h%d", g.Intn(6))
		w.log = append(w.log, "drop "+k)
		w.b.DeregisterHandler(k)
		delete(w.handlers, k)
	default:
		w.emission(false)
	}
}

func newWorld(r *rig.Rig, g *gen.G) *world {
	w := &world{r: r, g: g, topics: map[string]bool{}, handlers: map[string]registered{}, ids: map[string]bool{}}

	var (
		gn  bus.IDGenerator = &counter{}
		err error
	)

	switch g.Intn(3) {
	case 0:
		n := 0
		gn = bus.Next(func() string { n++; return fmt.Sprint("n", n) })
	case 1:
		gn = &bus.Sequential{Format: "seq%04d"}
	}

	if w.b, err = bus.New(gn); err != nil {
		r.Fail("new", err.Error(), nil)
	}

	return w
}

func p25(r *rig.Rig) {
	r.Cases("history", r.N(120, 1500), func(seed int64) {
		w := newWorld(r, gen.New(seed))

		for range 1 + w.g.Intn(40) {
			w.step()
			w.audit()
		}

		r.Count("operations", len(w.log))
	})

	r.Cases("parallel emissions", r.N(40, 400), func(seed int64) {
		g := gen.New(seed)
		w := newWorld(r, g)
		w.b, _ = bus.New(&counter{})

		for range 10 + g.Intn(20) {
			if k := g.Intn(2); k == 0 {
				w.register()
			} else {
				t := gen.Pick(g, topicNames...)
				w.b.RegisterTopics(t)
				w.topics[t] = true
			}
		}

		var wg sync.WaitGroup

		want := map[string]int{}
		bad := make(chan string, 1000)

		for range 2 + g.Intn(6) {
			var ts []string

			for range g.Intn(10) {
				t := gen.Pick(g, topicNames...)
				ts = append(ts, t)

				for _, h := range w.matching(t) {
					want[h+" "+t]++
				}
			}

			wg.Add(1)

			go func() {
				defer wg.Done()

				for _, t := range ts {
					if err := w.b.Emit(context.Background(), t, 1); (err == nil) != w.topics[t] {
						bad <- fmt.Sprint(t, err)
					}
				}
			}()
		}

		wg.Wait()
		close(bad)

		for b := range bad {
			r.Fail("error", b, w.log)
		}

		got := map[string]int{}
		ids := map[string]bool{}

		for _, d := range w.got {
			got[d.key+" "+d.m.Topic]++
			ids[d.m.ID] = true
		}

		r.Observe(fmt.Sprint(got))
		r.Same("deliveries", want, got, w.log)
	})

	r.Cases("shared", r.N(20, 200), func(seed int64) {
		g := gen.New(seed)
		shared(r, g)
	})

	r.Cases("no generator", 1, func(int64) {
		b, err := bus.New(nil)
		r.Same("without a generator", "true true", fmt.Sprint(b == nil, err != nil), nil)
		r.Observe("nil")
	})
}

var announced = []string{
	services.TopicInitPlugins, services.TopicInterceptNavigator, services.TopicNavigationComplete,
	services.TopicOptionsAnnounce, services.TopicOptionsBefore, services.TopicOptionsComplete,
}

// shared is about the broker that all sessions of the process have in common.
func shared(r *rig.Rig, g *gen.G) {
	// only the first case sees it as it was when the process started
	//
	b := services.Broker
	if len(b.HandlerKeys()) > 0 {
		b = services.Reset()
		r.Same("reset gives the shared broker", true, b == services.Broker, nil)
	}

	r.Same("topics", rig.Sorted(announced), rig.Sorted(b.Topics()), nil)
	r.Same("handlers", 0, len(b.HandlerKeys()), nil)

	var (
		wg       sync.WaitGroup
		mu       sync.Mutex
		want     = map[string]bool{}
		sessions = 1 + g.Intn(4)
		clients  = g.Intn(6)
		each     = 1 + g.Intn(5)
		got      = map[string]int{}
		txs      = map[string]bool{}
		ids      = map[string]bool{}
		expected = map[string]int{}
		log      = []string{fmt.Sprintf("%v sessions, %v clients with %v handlers", sessions, clients, each)}
	)

	specs := make([]*model.Spec, sessions)
	for i := range specs {
		specs[i] = g.Spec(gen.Feature{})
	}

	for _, spec := range specs {
		wg.Add(1)

		go func() {
			defer wg.Done()

			exec.Walk(spec)
		}()
	}

	matching := []string{"^topic:", "complete$", "", services.TopicOptionsBefore, "nothing"}

	for c := range clients {
		for h := range each {
			key, m := fmt.Sprintf("c%d-%d", c, h), gen.Pick(g, matching...)
			want[key] = true

			for _, t := range announced {
				if regexp.MustCompile(m).MatchString(t) {
					expected[key+" "+t]++
				}
			}

			wg.Add(1)

			go func() {
				defer wg.Done()

				services.RegisterHandler(key, bus.Handler{Matcher: m, Handle: func(_ context.Context, msg bus.Message) {
					mu.Lock()
					defer mu.Unlock()

					got[key+" "+msg.Topic]++
					txs[msg.TxID] = true
					ids[msg.ID] = true
				}})
			}()
		}
	}

	wg.Wait()
	r.Same("the same broker", true, b == services.Broker, log)

	keys := rig.Sorted(b.HandlerKeys())
	others := 0

	for _, k := range keys {
		if !want[k] {
			others++
		}
	}

	r.Same("registered", len(want), len(keys)-others, log)
	r.Same("at most one handler for all sessions", true, others <= 1, log)

	for _, t := range announced {
		if err := b.Emit(context.Background(), t, 1); err != nil {
			r.Fail("emit", err.Error(), log)
		}
	}

	r.Same("deliveries", expected, got, log)
	r.Same("transactions", true, len(txs) <= len(announced) && len(ids) <= len(announced), log)
	r.Count("shared handlers", len(keys))
	r.Observe("shared", fmt.Sprint(sessions, clients, each), fmt.Sprint(len(got)))

	services.Reset()
}
