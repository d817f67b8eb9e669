package main

import (
	"errors"
	"fmt"
	"io/fs"
	"reflect"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/opts/json"
	"github.com/snivilised/agenor/internal/persist"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/rig"
	nef "github.com/snivilised/nefilim"
)

// the saved form has a place for this, but a sample filter can't be a poly
// filter, so it doesn't stand for anything.
const unused = ".Filter.Sample.Poly"

var texts = []string{
	"", "a", "*", "^a.*$", "a|b,c", "<&>", `"quoted"`, "back\\slash", "line\nbreak", "\t", "\u2028\u2029",
	"ünï", "日本", "🐙", "null", "{{.X}}", "%v", "\x00", "\x7f", "/", "é", " ",
}

// fill with arbitrary values; nothing is said about whether they make sense.
func fill(g *gen.G, v reflect.Value, at string, depth int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			fill(g, v.Field(i), at+"."+v.Type().Field(i).Name, depth)
		}
	case reflect.Pointer:
		if at == unused || depth > 2 || g.P(1, 3) {
			v.SetZero()
			return
		}

		v.Set(reflect.New(v.Type().Elem()))
		fill(g, v.Elem(), at, depth+1)
	default:
		v.Set(reflect.ValueOf(value(g, v.Kind())).Convert(v.Type()))
	}
}

func value(g *gen.G, k reflect.Kind) any {
	switch k {
	case reflect.Bool:
		return g.P(1, 2)
	case reflect.String:
		return gen.Pick(g, texts...) + gen.Pick(g, texts...)
	case reflect.Uint, reflect.Uint64:
		return gen.Pick[uint](g, 0, 1, 2, 3, 1<<8, 1<<16+1, 1<<32, 1<<53+1, 1<<63, 1<<64-1)
	case reflect.Int, reflect.Int64:
		return gen.Pick(g, 0, 1, 2, -1, 1<<32+1, 1<<53+1, 1<<63-1)
	default:
		return g.Intn(100)
	}
}

// leaves are the places of v: the values, and the pointers. There's one for
// which there is nothing in the options, as they're nil there.
type leaf struct {
	path string
	v    reflect.Value
}

func leaves(v reflect.Value, at string) (out []leaf) {
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			out = append(out, leaves(v.Field(i), at+"."+v.Type().Field(i).Name)...)
		}
	case reflect.Pointer:
		out = append(out, leaf{at, v})
		if !v.IsNil() {
			out = append(out, leaves(v.Elem(), at)...)
		}
	default:
		out = append(out, leaf{at, v})
	}

	return out
}

// render the settings of jo, and those of the same name in o.
func render(saved, v reflect.Value, at string) (out []string) {
	switch saved.Kind() {
	case reflect.Struct:
		for i := range saved.NumField() {
			name := saved.Type().Field(i).Name
			if f := v.FieldByName(name); f.IsValid() {
				out = append(out, render(saved.Field(i), f, at+"."+name)...)
			}
		}
	case reflect.Pointer:
		if at == unused {
			return nil
		}

		out = append(out, fmt.Sprint(at, " is nil: ", v.IsNil()))
		if !v.IsNil() && !saved.IsNil() {
			out = append(out, render(saved.Elem(), v.Elem(), at)...)
		}
	default:
		// not the String method of either
		//
		switch v.Kind() {
		case reflect.Bool:
			out = append(out, fmt.Sprintf("%s=%v", at, v.Bool()))
		case reflect.String:
			out = append(out, fmt.Sprintf("%s=%q", at, v.String()))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			out = append(out, fmt.Sprintf("%s=%d", at, v.Int()))
		default:
			out = append(out, fmt.Sprintf("%s=%d", at, v.Uint()))
		}
	}

	return out
}

func same(jo *json.Options, o *pref.Options) (want, got []string) {
	s, v := reflect.ValueOf(jo).Elem(), reflect.ValueOf(o).Elem()

	return render(s, s, ""), render(s, v, "")
}

func compare(o *pref.Options, jo *json.Options) error {
	return (&persist.Comparison{O: o, JO: jo}).Equals()
}

// place is a file system of a single file.
type place struct {
	nef.WriteFileFS // not called

	data []byte
	fail error
}

func (p *place) WriteFile(_ string, data []byte, _ fs.FileMode) error {
	if p.fail != nil {
		return p.fail
	}

	p.data = append([]byte{}, data...)

	return nil
}

func (p *place) Open(string) (fs.File, error) { return nil, fs.ErrNotExist }

func (p *place) ReadFile(string) ([]byte, error) { return p.data, p.fail }

func p30(r *rig.Rig) {
	r.Cases("conversion", r.N(300, 4000), func(seed int64) {
		g := gen.New(seed)
		saved := &json.Options{}
		fill(g, reflect.ValueOf(saved).Elem(), "", 0)

		// from the saved form, and back

		o := persist.FromJSON(saved)
		want, got := same(saved, o)
		r.Equal("converted from the saved form", want, got, want)

		back := persist.ToJSON(o)
		s := reflect.ValueOf(saved).Elem()
		r.Equal("converted to the saved form", want, render(s, reflect.ValueOf(back).Elem(), ""), want)

		if err := compare(o, back); err != nil {
			r.Fail("a difference of the same", err.Error(), want)
		}

		r.Observe(got...)
	})

	r.Cases("difference", r.N(60, 800), func(seed int64) {
		g := gen.New(seed)
		saved := &json.Options{}
		fill(g, reflect.ValueOf(saved).Elem(), "", 0)

		o := persist.FromJSON(saved)

		for _, l := range leaves(reflect.ValueOf(saved).Elem(), "") {
			if l.path == unused {
				continue
			}

			was := reflect.New(l.v.Type()).Elem()
			was.Set(l.v)

			switch {
			case l.v.Kind() != reflect.Pointer:
				for l.v.Equal(was) {
					l.v.Set(reflect.ValueOf(value(g, l.v.Kind())).Convert(l.v.Type()))
				}
			case l.v.IsNil():
				l.v.Set(reflect.New(l.v.Type().Elem()))
			default:
				l.v.SetZero()
			}

			err := compare(o, saved)
			if r.Same("difference in "+l.path+" is noticed", true, err != nil, l.path) {
				r.Same("kind of the difference in "+l.path, true, errors.Is(err, locale.ErrUnEqualConversion), fmt.Sprint(err))

				if l.v.Kind() != reflect.Pointer {
					name := l.path[strings.LastIndex(l.path, ".")+1:]
					for _, part := range []string{name, fmt.Sprint(was), fmt.Sprint(l.v)} {
						r.Same("the error of the difference in "+l.path+" says "+part, true, strings.Contains(err.Error(), part), err.Error())
					}
				}
			}

			r.Observe(fmt.Sprint(l.path, " ", err))
			r.Count("differences", 1)
			l.v.Set(was)

			if err := compare(o, saved); err != nil {
				r.Fail("a difference of the same", err.Error(), l.path)
			}
		}

		r.Same("no options", true, compare(nil, saved) != nil, nil)
		r.Same("no saved options", true, compare(o, nil) != nil, nil)
	})

	r.Cases("file", r.N(300, 4000), func(seed int64) {
		g := gen.New(seed)
		saved := &json.Options{}
		fill(g, reflect.ValueOf(saved).Elem(), "", 0)

		o := persist.FromJSON(saved)
		active := &core.ActiveState{Metrics: core.Metrics{}}

		for _, l := range leaves(reflect.ValueOf(active).Elem(), "") {
			if l.v.Kind() != reflect.Map {
				l.v.Set(reflect.ValueOf(value(g, l.v.Kind())).Convert(l.v.Type()))
			}
		}

		for _, m := range []enums.Metric{enums.MetricNoFilesInvoked, enums.MetricNoDirectoriesInvoked, enums.MetricNoChildFilesFound} {
			if g.P(2, 3) {
				active.Metrics[m] = &core.NavigationMetric{T: m, Counter: value(g, reflect.Uint).(uint)}
			}
		}

		text := func(a *core.ActiveState) []string {
			out := []string{fmt.Sprintf("%q %q %v %v %d %d %v %d", a.Tree, a.CurrentPath, a.TraverseDescription, a.ResumeDescription,
				a.Subscription, a.Hibernation, a.IsDir, a.Depth)}
			for m := range enums.Metric(20) {
				if x, ok := a.Metrics[m]; ok {
					out = append(out, fmt.Sprintf("%d: %d %d", m, x.T, x.Counter))
				}
			}

			return out
		}

		p := &place{}
		before := text(active)

		if _, err := persist.Marshal(&persist.MarshalRequest{Active: active, O: o, Path: "x", Perm: 0o600, FS: p}); err != nil {
			r.Fail("save", err.Error(), before)
			return
		}

		res, err := persist.Unmarshal(&persist.UnmarshalRequest{Restore: &enclave.RestoreState{Path: "x", FS: p}})
		if err != nil {
			r.Fail("load", err.Error(), before)
			return
		}

		r.Equal("state that was saved", before, text(active), before)
		r.Equal("state loaded", before, text(res.Active), before)

		want, got := same(saved, res.O)
		r.Equal("options loaded", want, got, want)
		r.Observe(append(before, got...)...)

		// and when it can't be written or read

		p.fail = errors.New("fail")
		_, err = persist.Marshal(&persist.MarshalRequest{Active: active, O: o, Path: "x", Perm: 0o600, FS: p})
		r.Same("failure to write", true, errors.Is(err, p.fail), fmt.Sprint(err))
		_, err = persist.Unmarshal(&persist.UnmarshalRequest{Restore: &enclave.RestoreState{Path: "x", FS: p}})
		r.Same("failure to read", true, errors.Is(err, p.fail), fmt.Sprint(err))
	})
}
