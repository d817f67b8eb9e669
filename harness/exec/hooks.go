package exec

import (
	"fmt"
	"io/fs"

	age "github.com/snivilised/agenor"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/model"
)

// HookLog observes the calls of hooks: that each step follows its predecessor
// and is given what that returned.
type HookLog struct {
	Calls map[string]int
	Args  map[string]map[string]bool
	Bad   []string
	Tree  string            // being walked
	last  map[string]string // "step|arg|result" of the latest call by kind
	steps map[string][]int
}

type resized struct {
	fs.FileInfo
	size int64
}

func (r *resized) Size() int64 { return r.size }

func listing(es []fs.DirEntry, err error) string {
	return fmt.Sprintf("%q %v", Entries(es), err)
}

func status(i fs.FileInfo, err error) string {
	if err != nil {
		return err.Error()
	}

	return fmt.Sprint(i.Name(), i.Size())
}

func (l *HookLog) call(kind string, step int, arg, in string) {
	l.Calls[fmt.Sprintf("%s step %d", kind, step)]++

	if l.Args[kind] == nil {
		l.Args[kind] = map[string]bool{}
	}

	l.Args[kind][arg] = true

	prev := -1

	for _, s := range l.steps[kind] {
		if s == step {
			break
		}

		prev = s
	}

	if prev >= 0 {
		if want, got := fmt.Sprintf("%d|%s|%s", prev, arg, in), l.last[kind]; want != got {
			l.Bad = append(l.Bad, fmt.Sprintf("%s step %d: its predecessor is %s, was expected to be %s", kind, step, got, want))
		}
	}
}

func (l *HookLog) done(kind string, step int, arg, out string) {
	l.last[kind] = fmt.Sprintf("%d|%s|%s", step, arg, out)
}

// Hooks installs the hooks of the specification.
func Hooks(s *model.Spec) (*HookLog, []pref.Option) {
	l := &HookLog{Calls: map[string]int{}, Args: map[string]map[string]bool{}, last: map[string]string{}, steps: s.Hooks.Steps, Tree: s.Tree}

	var (
		os   []pref.Option
		deft *pref.Options // for the defaults
	)

	add := func(o pref.Option) { os = append(os, o) }
	raw := s.Hooks.Via%2 == 1

	add(func(o *pref.Options) error { deft = o; return nil })

	for _, step := range s.Hooks.Of("stat") {
		effect := func(i fs.FileInfo, err error, p string) (fs.FileInfo, error) {
			if err == nil {
				i = &resized{i, model.HookSize(step, i.Size())}
			}

			l.done("stat", step, p, status(i, err))

			return i, err
		}

		if step == 0 {
			add(age.WithHookQueryStatus(func(q fs.StatFS, p string) (fs.FileInfo, error) {
				l.call("stat", step, p, "")

				i, err := deft.Hooks.QueryStatus.Default()(q, p)
				if raw {
					i, err = q.Stat(p)
				}

				return effect(i, err, p)
			}))
		} else {
			add(func(o *pref.Options) error {
				o.Hooks.QueryStatus.Chain(func(i fs.FileInfo, err error, _ fs.StatFS, p string) (fs.FileInfo, error) {
					l.call("stat", step, p, status(i, err))
					return effect(i, err, p)
				})

				return nil
			})
		}
	}

	for _, step := range s.Hooks.Of("read") {
		effect := func(es []fs.DirEntry, err error, p string) ([]fs.DirEntry, error) {
			var out []fs.DirEntry

			if err != nil {
				if !s.Hooks.Partial() {
					es = nil
				}

				if model.HookRecovers(step) {
					err = nil
				}
			}

			for _, e := range es {
				if e.Name() != ".DS_Store" && model.HookKeep(step, e.Name()) {
					out = append(out, e)
				}
			}

			l.done("read", step, p, listing(out, err))

			return out, err
		}

		if step == 0 {
			add(age.WithHookReadDirectory(func(f fs.ReadDirFS, p string) ([]fs.DirEntry, error) {
				l.call("read", step, p, "")

				if raw || s.Hooks.Partial() {
					es, err := f.ReadDir(p)
					return effect(es, err, p)
				}

				es, err := deft.Hooks.ReadDirectory.Default()(f, p)

				return effect(es, err, p)
			}))
		} else {
			add(func(o *pref.Options) error {
				o.Hooks.ReadDirectory.Chain(func(es []fs.DirEntry, err error, f fs.ReadDirFS, p string) ([]fs.DirEntry, error) {
					l.call("read", step, p, listing(es, err))
					return effect(es, err, p)
				})

				return nil
			})
		}
	}

	for _, step := range s.Hooks.Of("sort") {
		effect := func(es []fs.DirEntry) {
			l.call("sort", step, "", listing(es, nil))
			model.HookSort(step, es, func(e fs.DirEntry) string { return e.Name() })
			l.done("sort", step, "", listing(es, nil))
		}

		if step == 0 {
			add(age.WithHookSort(func(es []fs.DirEntry, _ ...any) {
				if !raw {
					deft.Hooks.Sort.Default()(es)
				}
				effect(es)
			}))
		} else {
			add(func(o *pref.Options) error {
				o.Hooks.Sort.Chain(func(es []fs.DirEntry, _ ...any) { effect(es) })
				return nil
			})
		}
	}

	for _, kind := range []string{"dsub", "fsub"} {
		for _, step := range s.Hooks.Of(kind) {
			effect := func(prev string, i *core.SubPathInfo) string {
				l.call(kind, step, i.Node.Path, prev)

				if i.Tree != l.Tree || i.KeepTrailingSep == s.NoSep {
					l.Bad = append(l.Bad, fmt.Sprintf("%s step %d: tree=%s keep=%v", kind, step, i.Tree, i.KeepTrailingSep))
				}

				out := model.HookSub(step, prev, kind, i.Node.Path)
				l.done(kind, step, i.Node.Path, out)

				return out
			}

			tap := func(i *core.SubPathInfo) string { return effect("", i) }
			chain := core.ChainSubPathHook(effect)

			switch {
			case step == 0 && kind == "dsub":
				add(age.WithHookDirectorySubPath(tap))
			case step == 0:
				add(age.WithHookFileSubPath(tap))
			case kind == "dsub":
				add(func(o *pref.Options) error { o.Hooks.DirectorySubPath.Chain(chain); return nil })
			default:
				add(func(o *pref.Options) error { o.Hooks.FileSubPath.Chain(chain); return nil })
			}
		}
	}

	return l, os
}
