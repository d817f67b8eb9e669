// Command units decides the properties of parts that are no traversals: the
// public collections, errors, and the form in which options are saved.
package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/rig"
)

func main() {
	exec.Init()

	r := rig.New()
	map[string]func(*rig.Rig){"P23": p23, "P29": p29, "P30": p30}[r.Prop](r)
	r.Done()
}

func p23(r *rig.Rig) {
	r.Cases("set of strings", r.N(400, 8000), func(seed int64) {
		g := gen.New(seed)
		sets(r, g, func() string { return strings.Repeat(gen.Pick(g, "a", "b", "ä", "", "z"), g.Intn(4)) })
	})
	r.Cases("set of bytes", r.N(400, 8000), func(seed int64) {
		g := gen.New(seed)
		sets(r, g, func() uint8 { return uint8(g.Intn(1 + g.Intn(256))) })
	})
	r.Cases("set of numbers", r.N(400, 8000), func(seed int64) {
		g := gen.New(seed)
		sets(r, g, func() int { return g.Intn(20) - 10 })
	})
	r.Cases("stack", r.N(600, 12000), func(seed int64) { stacks(r, gen.New(seed)) })
	r.Cases("iterators", r.N(800, 16000), func(seed int64) {
		g := gen.New(seed)
		iterators(r, g, -1, func() int { return g.Intn(100) })
	})
	r.Cases("iterators of pointers", r.N(300, 6000), func(seed int64) {
		g := gen.New(seed)
		xs := []*int{new(int), new(int), new(int), nil}
		iterators(r, g, nil, func() *int { return xs[g.Intn(len(xs))] })
	})
}

// history of operations and their results; expected ones come from the model.
type history struct {
	r         *rig.Rig
	want, got []string
}

func (h *history) add(op string, want, got any) {
	h.want = append(h.want, fmt.Sprintf("%s = %v", op, want))
	h.got = append(h.got, fmt.Sprintf("%s = %v", op, got))
}

func (h *history) done() {
	h.r.Observe(h.got...)
	h.r.Count("operations", len(h.got))
	h.r.Equal("history", h.want, h.got, h.want)
}

// --------------------------------------------------------------------- sets

func sets[T collections.Orderable](r *rig.Rig, g *gen.G, value func() T) {
	var order []T // with duplicates, and perhaps the anchor
	for range g.Intn(14) {
		order = append(order, value())
	}

	anchor := value()
	if len(order) > 0 && g.P(1, 2) {
		anchor = gen.Pick(g, order...)
	}

	pool := append(append([]T{anchor, value(), value()}, order...), order...)

	// the model
	var rank []T

	for _, x := range order {
		if x != anchor && !slices.Contains(rank, x) {
			rank = append(rank, x)
		}
	}

	rank = append(rank, anchor)

	in := map[T]bool{anchor: true}
	items := func() []T {
		out := []T{}

		for _, x := range rank {
			if in[x] {
				out = append(out, x)
			}
		}

		return out
	}
	insert := func(x T) bool {
		ok := slices.Contains(rank, x) && !in[x]
		if ok {
			in[x] = true
		}

		return ok
	}

	original := slices.Clone(order)
	s := collections.NewPositionalSet(order, anchor)
	h := &history{r: r}
	h.add("new", fmt.Sprintf("%v anchor %v", order, anchor), fmt.Sprintf("%v anchor %v", order, anchor))

	type lent struct{ was, is []T }

	var lists []lent

	for range 1 + g.Intn(40) {
		x := gen.Pick(g, pool...)

		switch g.Intn(11) {
		case 0, 1, 2:
			want := insert(x)
			h.add(fmt.Sprintf("insert %v", x), want, s.Insert(x))
		case 3:
			xs := []T{}
			for range g.Intn(5) {
				xs = append(xs, gen.Pick(g, pool...))
			}

			want := true

			for _, y := range xs {
				if !insert(y) {
					want = false
				}
			}

			h.add(fmt.Sprintf("all %v", xs), want, s.All(xs...))
		case 4, 5:
			if x != anchor {
				delete(in, x)
			}

			s.Delete(x)
			h.add(fmt.Sprintf("delete %v", x), "", "")
		case 6:
			h.add(fmt.Sprintf("contains %v", x), in[x], s.Contains(x))
		case 7:
			h.add("top", items()[0], s.Top())
		case 8:
			is := s.Items()
			h.add("items", items(), is)
			lists = append(lists, lent{slices.Clone(is), is})
		case 9:
			h.add("count", len(items()), s.Count())
		case 10:
			k := slices.Index(rank, x)
			pos, ok := s.Position(x)

			if !ok {
				pos = -1
			}

			h.add(fmt.Sprintf("position of %v", x), k, pos)
		}
	}

	h.add("items", items(), s.Items())
	h.add("top", items()[0], s.Top())
	h.add("count", len(items()), s.Count())

	for _, x := range pool {
		h.add(fmt.Sprintf("contains %v", x), in[x], s.Contains(x))
	}

	// what belongs to the client is left alone
	h.add("the order given", original, order)

	for _, l := range lists {
		h.add("items obtained earlier", l.was, l.is)
	}

	h.done()
}

// -------------------------------------------------------------------- stack

func stacks(r *rig.Rig, g *gen.G) {
	var (
		model []int
		s     *collections.Stack[int]
		h     = &history{r: r}
		n     = 0
	)

	switch g.Intn(3) {
	case 0:
		s = collections.NewStack[int]()
	case 1:
		for range g.Intn(6) {
			n++
			model = append(model, n)
		}

		s = collections.NewStackWith(slices.Clone(model))
	case 2:
		s = collections.NewStackWith[int](nil)
	}

	errText := func(err error) string {
		if err == nil {
			return ""
		}

		return fmt.Sprint(" ", errors.Is(err, collections.ErrStackIsEmpty))
	}

	up := 2 + g.Intn(5) // drift

	for range 1 + g.Intn(60) {
		switch k := g.Intn(12); {
		case k < up:
			n++
			model = append(model, n)
			s.Push(n)
			h.add(fmt.Sprintf("push %d", n), "", "")
		case k < 7:
			want := "0 true"
			if len(model) > 0 {
				want = fmt.Sprint(model[len(model)-1])
				model = model[:len(model)-1]
			}

			v, err := s.Pop()
			h.add("pop", want, fmt.Sprint(v)+errText(err))
		case k == 7:
			want := "panic true"
			if len(model) > 0 {
				want = fmt.Sprint(model[len(model)-1])
				model = model[:len(model)-1]
			}

			h.add("must pop", want, must(s))
		case k == 8:
			want := "0 true"
			if len(model) > 0 {
				want = fmt.Sprint(model[len(model)-1])
			}

			v, err := s.Current()
			h.add("current", want, fmt.Sprint(v)+errText(err))
		case k == 9:
			h.add("size", len(model), s.Size())
		case k == 10:
			h.add("empty", len(model) == 0, s.IsEmpty())
		case k == 11:
			h.add("content", fmt.Sprint(append([]int{}, model...)), fmt.Sprint(s.Content()))
		}
	}

	h.add("content", fmt.Sprint(append([]int{}, model...)), fmt.Sprint(s.Content()))

	for i := len(model) - 1; i >= 0; i-- {
		v, err := s.Pop()
		h.add("pop", model[i], fmt.Sprint(v)+errText(err))
	}

	h.add("empty", true, s.IsEmpty())
	h.done()
}

func must(s *collections.Stack[int]) (out string) {
	defer func() {
		if p := recover(); p != nil {
			err, ok := p.(error)
			out = fmt.Sprint("panic ", ok && errors.Is(err, collections.ErrStackIsEmpty))
		}
	}()

	return fmt.Sprint(s.MustPop())
}

// ---------------------------------------------------------------- iterators

func iterators[T comparable](r *rig.Rig, g *gen.G, zero T, value func() T) {
	list := func() []T {
		xs := []T{}
		for range g.Intn(1 + g.Intn(9)) {
			xs = append(xs, value())
		}

		if len(xs) == 0 && g.P(1, 2) {
			return nil
		}

		return xs
	}

	var (
		xs      = list()
		reverse = g.P(1, 2)
		run     collections.RunnableIterator[T, int]
		it      collections.Iterator[T]
		h       = &history{r: r}
	)

	switch runnable := g.P(1, 2); {
	case reverse && runnable:
		run = collections.ReverseRunIt[T, int](xs, zero)
	case runnable:
		run = collections.ForwardRunIt[T, int](xs, zero)
	case reverse:
		it = collections.ReverseIt(xs, zero)
	default:
		it = collections.ForwardIt(xs, zero)
	}

	if run != nil {
		it = run
	}

	// which of them it is, as pointers don't render alike
	id := func(x T) string {
		if x == zero {
			return "zero"
		}

		return fmt.Sprint(slices.Index(xs, x))
	}

	for range 1 + g.Intn(4) {
		ys := slices.Clone(xs)
		if reverse {
			slices.Reverse(ys)
		}

		was := slices.Clone(xs)
		h.add("with", fmt.Sprint(len(xs), reverse), fmt.Sprint(len(xs), reverse))
		h.add("valid before start", false, it.Valid())

		switch k := g.Intn(3); {
		case k < 2 && run == nil || k == 0:
			// by hand, perhaps not all of them, and perhaps once more
			for range 1 + g.Intn(2) {
				stop := g.Intn(len(ys) + 4)
				x := it.Start()

				for i := range stop {
					if i < len(ys) {
						h.add("element", id(ys[i]), id(x))
						h.add("valid", true, it.Valid())
					} else {
						h.add("past the end", "zero", id(x))
						h.add("valid", false, it.Valid())
					}

					if i+1 < stop {
						x = it.Next()
					}
				}

				// the usual loop
				n := 0
				for x := it.Start(); it.Valid(); x = it.Next() {
					if n >= len(ys) {
						h.add("loop goes on", "", "yes")
						break
					}

					h.add("loop", id(ys[n]), id(x))
					n++
				}

				h.add("looped", len(ys), n)
			}
		case run != nil:
			for range 1 + g.Intn(2) {
				limit := g.Intn(len(ys) + 3)
				n, results := 0, 0

				var want, got []string

				for i, y := range ys {
					want = append(want, id(y))
					if i == limit {
						break
					}
				}

				run.RunAll(func(x T) int {
					if n++; n > len(ys)+3 {
						panic("does not end")
					}

					got = append(got, id(x))

					return n
				}, func(x T, result int) bool {
					results++
					h.add("condition", fmt.Sprint(n, results, " ", got[len(got)-1]), fmt.Sprint(result, results, " ", id(x)))

					return n <= limit
				})

				h.add(fmt.Sprintf("run all until %d", limit), want, got)
				h.add("conditions", len(want), results)
			}
		}

		h.add("contents left alone", fmt.Sprint(was), fmt.Sprint(xs))

		if g.P(1, 2) {
			xs = list()
		}

		it.Reset(xs)
	}

	h.done()
}
