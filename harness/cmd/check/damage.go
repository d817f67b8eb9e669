package main

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"strings"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

func init() {
	checks["P28"] = p28
}

// slot is a place in a decoded JSON value.
type slot struct {
	path string
	get  func() any
	set  func(any)
	del  func()
}

func slots(at string, v any) (out []slot) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range keysOf(x) {
			p := at + "." + k
			out = append(out, slot{p, func() any { return x[k] }, func(n any) { x[k] = n }, func() { delete(x, k) }})
			out = append(out, slots(p, x[k])...)
		}
	case []any:
		for i := range x {
			out = append(out, slots(fmt.Sprintf("%s[%d]", at, i), x[i])...)
		}
	}

	return
}

func keysOf(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	return rig.Sorted(ks)
}

// ---------------------------------------------------------------------- P28

func p28(r *rig.Rig) {
	defer tidy()

	strategies := []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}

	state := func(g *gen.G) (*model.Spec, []byte) {
		for {
			s := g.Spec(gen.Feature{Shape: gen.Shape{Max: 12, MaxKids: 4, Deep: 3}, Node: 3, Child: 2, Sampling: 2, SampleFilter: 2, Hib: 2, Depth: 2})
			newR(g, s)

			if panicAt(g, s, "panic") {
				if data := saved(r, s, model.Run(s), exec.Walk(s), ""); data != nil {
					s.Ret = nil
					return s, data
				}
			}

			if len(r.Viol) > 0 {
				return nil, nil
			}
		}
	}

	resume := func(g *gen.G, s *model.Spec, from, what string) *exec.Run {
		s.Listeners = 1
		got := exec.Resume(s, from, gen.Pick(g, strategies...))

		if got.PanicEsc != "" {
			r.Fail("panic", what+": a panic escaped Navigate: "+got.PanicEsc, s)
		} else if got.Result == nil {
			r.Fail("result", what+": no result", s)
		}

		return got
	}

	refused := func(s *model.Spec, got *exec.Run, what string) {
		if got.PanicEsc != "" {
			return
		}

		if got.NavErr == nil {
			r.Fail("error", what+": is not reported", s)
		}

		for _, e := range got.Evs {
			if e.K == "invoke" || e.K == "descend" || e.K == "wake" {
				r.Fail("events", what+": "+e.K+" "+e.Path, s)
				break
			}
		}
	}

	r.Cases("truncated", r.N(20, 60), func(seed int64) {
		g := gen.New(seed)

		s, data := state(g)
		if s == nil {
			return
		}

		for range 20 {
			n := g.Intn(len(data) - 1)
			what := fmt.Sprintf("truncated to %d bytes", n)
			got := resume(g, s, keep(data[:n]), what)
			refused(s, got, what)
			r.Observe("truncated", fmt.Sprint(n, got.NavErr))
		}
	})

	r.Cases("not a state", r.N(20, 60), func(seed int64) {
		g := gen.New(seed)

		s, data := state(g)
		if s == nil {
			return
		}

		from := keep(data)
		what := gen.Pick(g, "directory", "below a file", "null", "{}", "[]", "0", "\"x\"", "{\"Active\":{}}", "{\"JO\":{}}", "text", "\x00", "true", "{\"Active\":null,\"JO\":null}", "two")

		switch what {
		case "directory":
			from = filepath.Dir(from)
		case "below a file":
			from += "/x"
		case "two":
			from = keep(append(append([]byte{}, data...), data...))
		default:
			from = keep([]byte(what))
		}

		got := resume(g, s, from, what)
		refused(s, got, what)
		r.Observe("not a state", what, fmt.Sprint(got.NavErr))
	})

	r.Cases("damaged", r.N(400, 2000), func(seed int64) {
		g := gen.New(seed)

		s, data := state(g)
		if s == nil {
			return
		}

		for range 4 {
			var v any
			if err := json.Unmarshal(data, &v); err != nil {
				panic(err)
			}

			what := ""

			for range 1 + g.Intn(2) {
				x := gen.Pick(g, slots("", v)...)
				switch g.Intn(4) {
				case 0:
					x.del()
					what += " deleted " + x.path
				default:
					n := gen.Pick[any](g, nil, nil, "", ".", "/", "..", "x/y", "/x", s.Tree+"/nope", 0, 1, -1, 7, 99, 1e9, 1.5, true, false, []any{}, map[string]any{}, []any{1})
					x.set(n)
					what += fmt.Sprintf(" %s=%v", x.path, n)
				}
			}

			b, err := json.Marshal(v)
			if err != nil {
				panic(err)
			}

			got := resume(g, s, keep(b), what)

			tree := s.Tree
			if a, ok := v.(map[string]any)["Active"].(map[string]any); ok {
				tree, _ = a["Tree"].(string)
			}

			for _, e := range got.Evs {
				if e.K == "invoke" && !within(tree, e.Path) {
					r.Fail("outside", fmt.Sprintf("%s: %s isn't in the tree %q", what, e.Path, tree), s)
					break
				}
			}

			r.Observe("damaged", what, fmt.Sprint(got.NavErr))
		}
	})
}

// within tells whether a path belongs to a tree.
func within(tree, at string) bool {
	tree = path.Clean(tree)

	return tree == "." || tree == "/" || at == tree || strings.HasPrefix(at, tree+"/")
}
