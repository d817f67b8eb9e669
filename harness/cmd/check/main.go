// Command check decides the properties of sequential traversals.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/snivilised/agenor/zzverif/exec"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/model"
	"github.com/snivilised/agenor/zzverif/rig"
)

var checks = map[string]func(r *rig.Rig){}

func main() {
	exec.Init()
	exec.Clock()

	gen.Huge = 6

	gen.ErrRead, gen.ErrInfo = exec.ErrRead, exec.ErrInfo

	r := rig.New()

	fn, ok := checks[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", r.Prop)
		os.Exit(3)
	}

	fn(r)
	r.Done()
}

// differ runs a specification for real and by the model, and compares what p
// selects. It returns both.
func differ(r *rig.Rig, s *model.Spec, p model.Proj) (want *model.Trace, got *exec.Run, ok bool) {
	want = model.Run(s)
	got = exec.Walk(s)
	ok = compare(r, "trace", s, p, want, got)

	return
}

func compare(r *rig.Rig, kind string, s *model.Spec, p model.Proj, want *model.Trace, got *exec.Run) bool {
	r.Count("events", len(got.Evs))

	if got.PanicEsc != "" {
		r.Fail(kind, "a panic escaped Navigate: "+got.PanicEsc, s)
		return false
	}

	if got.Result == nil {
		r.Fail(kind, "no result", s)
		return false
	}

	ws, gs := p.Render(expand(s, want.Evs)), p.Render(got.Evs)
	r.Observe(gs...)

	return r.Equal(kind, ws, gs, s)
}

// expand the life-cycle events of the model for several listeners.
func expand(s *model.Spec, evs []model.Ev) []model.Ev {
	var out []model.Ev

	for _, e := range evs {
		switch e.K {
		case "begin", "end", "descend", "ascend", "wake", "sleep":
			if s.Listeners == 1 {
				out = append(out, e)
			} else {
				for i := range s.Listeners {
					x := e
					x.Note = strings.TrimSpace(fmt.Sprintf("%s #%d", e.Note, i))
					out = append(out, x)
				}
			}
		case "fault":
			if s.Fault != "" {
				out = append(out, e)
			}
		default:
			out = append(out, e)
		}
	}

	return out
}
