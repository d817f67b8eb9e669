package main

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"sync"

	pkg "github.com/pkg/errors"
	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/stock"
	"github.com/snivilised/agenor/zzverif/gen"
	"github.com/snivilised/agenor/zzverif/rig"
)

// kind of error: how it is made, and how it's recognised.
type kind struct {
	name string
	make func(a, b string) error
	is   func(error) bool // nil for those that have no predicate
	says int              // number of particulars its text contains
}

func constant(name string, err error) kind {
	return kind{name, func(_, _ string) error { return err }, func(e error) bool { return errors.Is(e, err) }, 0}
}

var kinds = []kind{
	constant("FilterIsNil", locale.ErrFilterIsNil),
	constant("FilterMissingType", locale.ErrFilterMissingType),
	constant("FilterCustomNotSupported", locale.ErrFilterCustomNotSupported),
	constant("FilterChildGlobExNotSupported", locale.ErrFilterChildGlobExNotSupported),
	constant("FilterUndefined", locale.ErrFilterUndefined),
	constant("InternalFailedToGetNavigatorDriver", locale.ErrInternalFailedToGetNavigatorDriver),
	constant("WorkerPoolCreationFailed", locale.ErrWorkerPoolCreationFailed),
	constant("InvalidFileSamplingSpecMissingFiles", locale.ErrInvalidFileSamplingSpecMissingFiles),
	constant("InvalidSamplingSpecMissingDirectories", locale.ErrInvalidSamplingSpecMissingDirectories),
	constant("MissingCustomFilterDefinition", locale.ErrMissingCustomFilterDefinition),
	constant("PolyFilterIsInvalid", locale.ErrPolyFilterIsInvalid),
	constant("UsageMissingTreePath", locale.ErrUsageMissingTreePath),
	constant("UsageMissingRestorePath", locale.ErrUsageMissingRestorePath),
	constant("UsageMissingSubscription", locale.ErrUsageMissingSubscription),
	constant("UsageMissingHandler", locale.ErrUsageMissingHandler),
	constant("IDGeneratorFuncCantBeNil", locale.ErrIDGeneratorFuncCantBeNil),
	constant("UnEqualConversion", locale.ErrUnEqualConversion),
	constant("GuardianCantDecorateItemSealed", core.ErrGuardianCantDecorateItemSealed),
	constant("DetectedSpawnStackOverflow", core.ErrDetectedSpawnStackOverflow),
	constant("WrongPrimaryFacade", core.ErrWrongPrimaryFacade),
	constant("WrongResumeFacade", core.ErrWrongResumeFacade),
	constant("NilForest", core.ErrNilForest),
	constant("StackIsEmpty", collections.ErrStackIsEmpty),
	{"InvalidIncaseFilterDef", func(a, _ string) error { return locale.NewInvalidIncaseFilterDefError(a) },
		locale.IsInvalidIncaseFilterDefError, 1},
	{"InvalidExtGlobFilterMissingSeparator", func(a, _ string) error { return locale.NewInvalidExtGlobFilterMissingSeparatorError(a) },
		locale.IsInvalidExtGlobFilterMissingSeparatorError, 1},
	{"TraverseFsMismatch", func(_, _ string) error { return locale.NewTraverseFsMismatchError() },
		as[*locale.TraverseFsMismatchError], 0},
	{"ResumeFsMismatch", func(_, _ string) error { return locale.NewResumeFsMismatchError() },
		as[*locale.ResumeFsMismatchError], 0},
	{"TraversalSaved", func(a, b string) error { return locale.NewTraversalSavedError(a, errors.New(b)) },
		as[*locale.TraversalSavedError], 1},
	{"TraversalNotSaved", func(a, b string) error { return locale.NewTraversalNotSavedError(errors.New(b), errors.New(a)) },
		as[*locale.TraversalNotSavedError], 1},
	{"InvalidNotificationMuteRequested", func(a, _ string) error { return core.NewInvalidNotificationMuteRequestedError(a) },
		core.IsInvalidNotificationMuteRequestedError, 1},
	{"InvalidResumeStateTransition", func(a, _ string) error { return core.NewInvalidResumeStateTransitionError(a) },
		core.IsInvalidResumeStateTransitionError, 1},
	{"NewItemAlreadyExtended", func(a, _ string) error { return core.NewItemAlreadyExtendedError(a) },
		core.IsNewItemAlreadyExtendedError, 1},
	{"MissingHibernationDetacherFunction", func(a, _ string) error { return core.NewMissingHibernationDetacherFunctionError(a) },
		core.IsMissingHibernationDetacherFunctionError, 1},
	{"InvalidPeriscopeRootPath", core.NewInvalidPeriscopeRootPathError, core.IsInvalidPeriscopeRootPathError, 2},
	{"ResumeControllerNotSet", func(a, _ string) error { return core.NewResumeControllerNotSetError(a) },
		core.IsResumeControllerNotSetError, 1},
	{"BrokerTopicNotFound", func(a, _ string) error { return core.NewBrokerTopicNotFoundError(a) },
		core.IsBrokerTopicNotFoundError, 1},
}

func as[E error](err error) bool {
	var e E

	return errors.As(err, &e)
}

// families have a predicate in common.
var families = []struct {
	name    string
	is      func(error) bool
	members string
}{
	{"a panic", locale.IsCorePanicOccurredError, "TraversalSaved TraversalNotSaved"},
	{"a mismatch", locale.IsCoreResumeFsMismatchError, "TraverseFsMismatch ResumeFsMismatch"},
}

func wrap(g *gen.G, err error) error {
	for range g.Intn(4) {
		switch g.Intn(5) {
		case 0:
			err = fmt.Errorf("wrapped: %w", err)
		case 1:
			err = errors.Join(errors.New("other"), err)
		case 2:
			err = pkg.Wrap(err, "message")
		case 3:
			err = &fs.PathError{Op: "op", Path: "path", Err: err}
		case 4:
			err = fmt.Errorf("%w and %w", err, fs.ErrClosed)
		}
	}

	return err
}

func word(g *gen.G) string {
	return gen.Pick(g, texts...) + fmt.Sprintf("<%d>", g.Intn(1e9)) + gen.Pick(g, texts...)
}

func p29(r *rig.Rig) {
	r.Cases("errors", r.N(300, 4000), func(seed int64) {
		g := gen.New(seed)
		chosen := map[string]bool{}

		var errs []error

		for range 1 + g.Intn(2) {
			k := gen.Pick(g, kinds...)
			chosen[k.name] = true
			errs = append(errs, wrap(g, k.make(word(g), word(g))))
		}

		benign := 0
		if g.P(1, 4) {
			benign++
			errs = append(errs, wrap(g, gen.Pick(g, fs.SkipAll, fs.SkipDir)))
		}

		if g.P(1, 4) {
			errs = append(errs, wrap(g, gen.Pick(g, fs.ErrExist, fs.ErrNotExist, errors.New("filter is nil"), errors.New("skip this directory"))))
		}

		g.Shuffle(len(errs), func(i, j int) { errs[i], errs[j] = errs[j], errs[i] })

		err := errs[0]
		for _, e := range errs[1:] {
			err = wrap(g, errors.Join(err, e))
		}

		for _, k := range kinds {
			r.Same("is "+k.name, chosen[k.name], k.is(err), err.Error())
		}

		for _, f := range families {
			want := false
			for _, m := range strings.Fields(f.members) {
				want = want || chosen[m]
			}

			r.Same("is "+f.name, want, f.is(err), err.Error())
		}

		r.Same("is benign", benign > 0, stock.IsBenignError(err), err.Error())
		r.Observe(err.Error())
	})

	r.Cases("texts", r.N(60, 800), func(seed int64) {
		g := gen.New(seed)
		texts := make([]string, len(kinds))
		a, b := word(g), word(g)

		var wg sync.WaitGroup

		for range 1 + g.Intn(3) { // several of them at the same time
			for i, k := range kinds {
				wg.Add(1)

				go func() {
					defer wg.Done()

					text := k.make(a, b).Error()
					if i%2 == 0 {
						text = fmt.Sprint(k.make(a, b))
					}

					if k.says >= 1 && !strings.Contains(text, a) || k.says >= 2 && !strings.Contains(text, b) ||
						text == "" || strings.Contains(text, "PANIC=") {
						r.Fail("text of "+k.name, text, []string{a, b})
					}
				}()
			}
		}

		wg.Wait()

		seen := map[string]string{}

		for i, k := range kinds {
			texts[i] = k.make("a", "b").Error()
			if other, ok := seen[texts[i]]; ok {
				r.Fail("the same text", k.name+" and "+other+": "+texts[i], nil)
			}

			seen[texts[i]] = k.name
			r.Count("texts", 1)
		}

		var (
			saved *locale.TraversalSavedError
			not   *locale.TraversalNotSavedError
		)

		r.Same("destination", true, errors.As(wrap(g, locale.NewTraversalSavedError(a, nil)), &saved) && saved.Destination == a, a)

		reason := errors.New(b)
		r.Same("reason", true, errors.As(wrap(g, locale.NewTraversalNotSavedError(nil, reason)), &not) && errors.Is(not.Reason, reason), b)
		r.Observe(a, b)
	})

	r.Cases("nothing", 1, func(int64) {
		for _, k := range kinds {
			r.Same("nil is "+k.name, false, k.is(nil), nil)
		}

		r.Same("nil is benign", true, stock.IsBenignError(nil), nil)
		r.Observe("nil")
	})
}
