From 6d034bf161a5a35f2cc9351a8d1378a11a2f41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/36] fix: unmute the wake notification along with all the
 others

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From 93d00dcdc52ac8b9b0950c668b6083d3edbfbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 02/36] fix: fs.SkipAll ends the traversal and fs.SkipDir skips
 only what it denotes

fs.SkipAll returned by the client (or by a hibernation that has retired) did
not stop the traversal, because the break only left the switch statement;
fs.SkipDir returned for a file aborted the whole traversal and was reported
as an error, or was without effect for the universal subscription.
---
 driver.go                              |  7 +++++++
 internal/feat/resume/strategy-spawn.go | 12 +++++++++++-
 internal/kernel/navigator-agent.go     |  8 +++++---
 internal/kernel/navigator-universal.go |  5 ++++-
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index d690cf3..1280944 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
 	"github.com/snivilised/agenor/internal/third/bus"
+	"github.com/snivilised/agenor/stock"
 )
 
 const (
@@ -33,5 +34,11 @@ func (d *driver) Navigate(ctx context.Context) (core.TraverseResult, error) {
 
 	d.s.finish(result)
 
+	if stock.IsBenignError(err) {
+		// the client (or hibernation) requested to skip; this is not a failure
+		//
+		return result, nil
+	}
+
 	return result, err
 }
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..95b2fc7 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,6 +2,7 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -105,7 +106,16 @@ func (s *spawnStrategy) seed(ctx context.Context,
 		top := s.calc.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
-		if err != nil {
+		switch {
+		case err == nil:
+		case errors.Is(err, fs.SkipDir) && entry.IsDir():
+			// only the contents of this directory are skipped
+			//
+		case errors.Is(err, fs.SkipDir):
+			// skip the remaining siblings
+			//
+			return result, nil
+		default:
 			return intermediate, err
 		}
 	}
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..8200191 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -178,7 +178,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					// processing of all of the parent node's remaining children.
 					// (see the ✨ below ...)
 					//
-					return skipTraversal, err
+					return continueTraversal, nil
 				}
 
 				return continueTraversal, err
@@ -190,9 +190,11 @@ func (n *navigatorAgent) travel(ctx context.Context,
 			switch {
 			case errors.Is(err, fs.SkipDir):
 				continue
-			case errors.Is(err, fs.SkipAll):
-				break
 			default:
+				// fs.SkipAll is propagated in the same way as any other error,
+				// so that the traversal ends here. Being benign, it is not
+				// reported to the user.
+				//
 				return continueTraversal, err
 			}
 		}
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..9513de6 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -36,7 +36,10 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	vapour, err := n.inspect(ns, servant)
 
 	if e := ns.mediator.Invoke(servant, vapour); e != nil {
-		return continueTraversal, e
+		// As per navigatorFiles, the skip denotes that fs.SkipDir for a file
+		// relates to its remaining siblings.
+		//
+		return current.IsDirectory(), e
 	}
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
-- 
2.43.0


From 3f566ecbbcfa29206f2bedac74b0930c82763429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 03/36] fix: honour the decision made by the skip handler

SkipAllTraversal without an error did not end the traversal and
SkipDirTraversal was ignored by the directories navigator.
---
 internal/kernel/navigator-agent.go       | 10 ++++++++++
 internal/kernel/navigator-directories.go |  4 +++-
 internal/kernel/navigator-files.go       |  4 +++-
 internal/kernel/navigator-universal.go   |  2 +-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 8200191..69d57da 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -203,6 +203,16 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	return continueTraversal, nil
 }
 
+// terminate is invoked when the skip handler has requested that the whole
+// traversal be skipped. The handler is not obliged to provide an error.
+func terminate(err error) (bool, error) {
+	if err == nil {
+		err = fs.SkipAll
+	}
+
+	return continueTraversal, err
+}
+
 func (n *navigatorAgent) Save(data pref.RescueData) (string, error) {
 	if v, ok := data.(vexation); ok {
 		return n.persister.write(v)
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..8b7c4c8 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -42,7 +42,9 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return terminate(e)
+	} else if skip == enums.SkipDirTraversal {
+		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..46a25b4 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -49,7 +49,9 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	); skip == enums.SkipAllTraversal {
+		return terminate(e)
+	} else if err != nil {
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return true, e
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 9513de6..0a06d01 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -45,7 +45,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return terminate(e)
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
 	}
-- 
2.43.0


From d239b01d7c1b7cfdff64882abcdea07030feef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 04/36] fix: compute the sub-path in bytes, not a mixture of
 bytes and runes

---
 pref/defaults.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..3903d3d 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -50,13 +50,11 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 
 // tail extracts the end part of a string, starting from the offset
 func tail(input string, offset int) string {
-	asRunes := []rune(input)
-
-	if offset >= len(asRunes) {
+	if offset >= len(input) {
 		return ""
 	}
 
-	return string(asRunes[offset:])
+	return input[offset:]
 }
 
 // difference returns the difference between a child path and a parent path
-- 
2.43.0


From 930f3a091c6be76099d80bc7a595a07e5ba82f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 05/36] fix: the contents presented for a file are empty,
 instead of nil

---
 internal/kernel/navigation-vapour.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..961b7b0 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -38,7 +38,9 @@ func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
 	} else {
-		newEmptyContents()
+		v.cargo = newEmptyContents()
+		v.cargo.behaviour = &v.ns.mediator.o.Behaviours.Sort
+		v.cargo.hook = v.ns.mediator.o.Hooks.Sort
 	}
 }
 
-- 
2.43.0


From d0d53ba2d6200c53fc3c613fe0cb53604d6721c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 06/36] fix: sampling does not hide the failure to read a
 directory

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From dd17af3d7127f312042cc00c23d09cee76c1005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 07/36] fix: the case sensitivity of the sort behaviour is
 applied to the traversal order

---
 pref/defaults.go | 14 ++++++++++++++
 pref/options.go  |  7 ++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 3903d3d..09b1ae5 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -48,6 +48,20 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	})
 }
 
+// defaultSortHook sorts with the case sensitivity that the behaviour denotes
+// at the time of the sort.
+func defaultSortHook(behaviour *SortBehaviour) core.SortHook {
+	return func(entries []fs.DirEntry, custom ...any) {
+		if behaviour.IsCaseSensitive {
+			CaseSensitiveSortHook(entries, custom...)
+
+			return
+		}
+
+		DefaultCaseInSensitiveSortHook(entries, custom...)
+	}
+}
+
 // tail extracts the end part of a string, starting from the offset
 func tail(input string, offset int) string {
 	if offset >= len(input) {
diff --git a/pref/options.go b/pref/options.go
index f58cb0b..1065bc2 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -120,7 +120,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -135,10 +134,12 @@ func DefaultOptions() *Options {
 		},
 	}
 
+	o.Hooks = newHooks(&o.Behaviours.Sort)
+
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(behaviour *SortBehaviour) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +176,7 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			defaultSortHook(behaviour),
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From c72ffd5ce5afa90266240751bf0fa1aa37e81dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 08/36] fix: validate the facade of a resume

---
 scaffold.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..3893309 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -63,6 +63,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
-- 
2.43.0


From c80cf83466ade3d5751772d12233769a8b09dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 09/36] fix: the result of a traversal that could not be
 started is fit for use

---
 builders.go                       | 2 +-
 internal/enclave/kernel-result.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/builders.go b/builders.go
index 27275c7..3872cc2 100644
--- a/builders.go
+++ b/builders.go
@@ -62,7 +62,7 @@ func (bs *Builders) buildAll(addons ...Addon) (*buildArtefacts, error) {
 	if artefacts.Error != nil {
 		return &buildArtefacts{
 			o:         o,
-			kc:        kernel.HadesNav(o, err),
+			kc:        kernel.HadesNav(o, artefacts.Error),
 			ext:       ext,
 			swappable: artefacts.Mediator,
 		}, artefacts.Error
diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index b6e2a98..28e9b10 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -23,7 +23,9 @@ func NewResult(session core.Session,
 }
 
 func NewFailed() *KernelResult {
-	return &KernelResult{}
+	return &KernelResult{
+		reporter: NewSupervisor(),
+	}
 }
 
 func (r *KernelResult) Merge(other core.Metrics) {
-- 
2.43.0


From e4148bf8bd22c1d01cb5a4dc66151a1f44891a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 10/36] fix: play the roles in the order defined by the
 manifest

fastward was always played last, so if the filter rejects the resume point,
then the traversal is never resumed.
---
 manifest.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index d96dd8a..40c445c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -14,8 +14,8 @@ type (
 
 var (
 	manifestOrder = []enums.Role{
-		enums.RoleFastward,
 		enums.RoleHibernate,
+		enums.RoleFastward,
 		enums.RoleNanny,
 		enums.RoleClientFilter,
 		enums.RoleSampler,
@@ -63,5 +63,12 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
-	return roles
+	// the order in which the plugins were activated is not the order in which
+	// their roles are to be played; in particular, fastward must come before
+	// the filter, otherwise a resume point that the filter rejects, is never
+	// reached.
+	//
+	return lo.Filter(all, func(role enums.Role, _ int) bool {
+		return slices.Contains(roles, role)
+	})
 }
-- 
2.43.0


From d1005077a2f53a1e8fc7bc2b269c533a927493d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 11/36] fix: fastward identifies the resume point by its path

The root node has no parent, so resuming a tree whose root bears the name of
the resume point was a nil dereference, and any node bearing the name of a
resume point residing at the top of a relative file system, was taken for it.
---
 internal/feat/resume/strategy-fastward.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..17c61f6 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -17,8 +17,8 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
 	name        string
+	nameOnly    bool // the source is just a name, not the path of a node
 }
 
 // Description describes filter
@@ -39,7 +39,7 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return node.Path == f.source || (f.nameOnly && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -81,6 +81,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
+	tree := load.State.Tree
 	parent := calc.Dir(load.State.CurrentPath)
 
 	s.filter, err = filtering.New(
@@ -94,8 +95,9 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				),
 				scope:  scope,
 				source: load.State.CurrentPath,
-				parent: parent,
 				name:   calc.Base(load.State.CurrentPath),
+				nameOnly: parent == "." && tree != "." &&
+					tree != load.State.CurrentPath,
 			},
 		},
 	)
-- 
2.43.0


From d6e5711237339a2a4eabb61c297a71bab88727f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 12/36] fix: fastward resumes from a directory that is not
 presented to the client

The resume point that is saved is a directory, which is never presented with
the files subscription, so such a traversal was never resumed.
---
 internal/feat/resume/strategy-fastward.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 17c61f6..3bcd4ff 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -3,6 +3,8 @@ package resume
 import (
 	"context"
 	"fmt"
+	"path/filepath"
+	"strings"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -19,6 +21,7 @@ type FastwardFilter struct {
 	scope       enums.FilterScope
 	name        string
 	nameOnly    bool // the source is just a name, not the path of a node
+	isTree      bool // the source is the tree itself
 }
 
 // Description describes filter
@@ -39,7 +42,13 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Path == f.source || (f.nameOnly && node.Extension.Name == f.name)
+	// When the resume point is a directory, then that directory might not be
+	// presented here (ie, files subscription), but the nodes within it are.
+	//
+	return node.Path == f.source ||
+		f.isTree ||
+		strings.HasPrefix(node.Path, f.source+string(filepath.Separator)) ||
+		(f.nameOnly && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -98,6 +107,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				name:   calc.Base(load.State.CurrentPath),
 				nameOnly: parent == "." && tree != "." &&
 					tree != load.State.CurrentPath,
+				isTree: tree == load.State.CurrentPath,
 			},
 		},
 	)
-- 
2.43.0


From cdfe31f7cdad0cd0c59b217848f240c8d7ef5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/36] fix: spawn resumes every node that remains, once

- the parent path of an absolute file system ends with a separator, so the
  tree was never recognised and the resume did not terminate
- the siblings that remain were identified by comparing names, which is not
  the order of traversal, so nodes were lost or traversed again; files were
  spawned for a directories subscription
- nothing was resumed when the resume point is the tree
- the depth was not adjusted for the ancestors of the resume point, and
  spawned nodes had no parent, no entry and a sub-path not relative to the tree
- a panic for a spawned node was not rescued
---
 internal/enclave/enclave-defs.go       |  7 +-
 internal/feat/resume/resume-defs.go    |  8 +--
 internal/feat/resume/strategy-spawn.go | 99 +++++++++-----------------
 internal/kernel/kernel-defs.go         | 12 ++++
 internal/kernel/mediator.go            | 15 ++--
 internal/kernel/navigation-vapour.go   |  5 ++
 internal/kernel/navigator-agent.go     | 29 ++++++++
 7 files changed, 98 insertions(+), 77 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..1de9d29 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -82,11 +82,16 @@ type (
 		KernelController
 		//
 		Read(path string) ([]fs.DirEntry, error)
-		Spawn(ctx context.Context, tree string) (*KernelResult, error)
+		Spawn(ctx context.Context, directory string, pick PickEntries) (*KernelResult, error)
+		Climb()
 		Bridge(active *core.ActiveState)
 		Supervisor() *Supervisor
 	}
 
+	// PickEntries selects, from the entries of a directory in order of traversal,
+	// those that are to be traversed.
+	PickEntries func(entries []fs.DirEntry) []fs.DirEntry
+
 	// Resources are dependencies required for navigation
 	Resources struct {
 		Forest     *core.Forest
diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..8839dd2 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +14,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -44,8 +42,4 @@ type (
 		current   string
 		inclusive bool
 	}
-
-	shard struct {
-		siblings *kernel.Contents
-	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 95b2fc7..32a2031 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,13 +2,11 @@ package resume
 
 import (
 	"context"
-	"errors"
 	"io/fs"
+	"slices"
 
 	"github.com/snivilised/agenor/core"
-	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/internal/third/lo"
 	nef "github.com/snivilised/nefilim"
@@ -34,6 +32,12 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	// between the previous navigation session and this resume session.
 	s.mediator.Bridge(s.active)
 
+	if s.active.CurrentPath == s.active.Tree {
+		s.complete = true
+
+		return s.mediator.Snooze(ctx, s.active)
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
@@ -55,8 +59,8 @@ func (s *spawnStrategy) ifResult() bool {
 // that directory, where the parent's children have not all been visited;
 // ie fractured ancestor and this fracturing occurs all the way up to the root
 // of the tree. For the current node, crown identifies the following
-// siblings and invokes seed for each one and this progresses on a recursive
-// basis via crown.
+// siblings and spawns them and this progresses on a recursive basis via
+// crown.
 func (s *spawnStrategy) crown(ctx context.Context,
 	conc *conclusion,
 ) (*enclave.KernelResult, error) {
@@ -71,19 +75,17 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
-	following, err := s.following(parent,
-		child,
-		conc.inclusive,
-	)
-	if err != nil {
-		return s.kc.Result(ctx), err
-	}
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
 
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
+	if parent == conc.current {
+		// the current path does not reside in the tree
+		//
+		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
+	}
 
-	result, err := s.seed(ctx, parent, following.siblings.All())
+	result, err := s.mediator.Spawn(ctx, parent,
+		following(child, conc.inclusive),
+	)
 
 	if err != nil {
 		return result, err
@@ -91,60 +93,27 @@ func (s *spawnStrategy) crown(ctx context.Context,
 
 	conc.current = parent
 	conc.inclusive = false
+	s.mediator.Climb()
 
 	return s.crown(ctx, conc)
 }
 
-// seed invokes a Spawn for each new siblings it is presented with by crown.
-func (s *spawnStrategy) seed(ctx context.Context,
-	parent string,
-	entries []fs.DirEntry,
-) (*enclave.KernelResult, error) {
-	result := s.kc.Result(ctx)
-
-	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
-		intermediate, err := s.mediator.Spawn(ctx, top)
-
-		switch {
-		case err == nil:
-		case errors.Is(err, fs.SkipDir) && entry.IsDir():
-			// only the contents of this directory are skipped
-			//
-		case errors.Is(err, fs.SkipDir):
-			// skip the remaining siblings
-			//
-			return result, nil
-		default:
-			return intermediate, err
-		}
-	}
-
-	return result, nil
-}
+// following picks the siblings that come after the anchor in the order
+// of traversal.
+func following(anchor string, inclusive bool) enclave.PickEntries {
+	return func(entries []fs.DirEntry) []fs.DirEntry {
+		at := slices.IndexFunc(entries, func(entry fs.DirEntry) bool {
+			return entry.Name() == anchor
+		})
 
-func (s *spawnStrategy) following(parent, anchor string,
-	inclusive bool,
-) (*shard, error) {
-	entries, err := s.mediator.Read(parent)
-
-	if err != nil {
-		return nil, err
-	}
-
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
+		if at >= 0 {
+			return entries[lo.Ternary(inclusive, at, at+1):]
 		}
 
-		return entry.Name() > anchor
-	})
-
-	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
-	}, nil
+		// the anchor is no longer there
+		//
+		return lo.Filter(entries, func(entry fs.DirEntry, _ int) bool {
+			return entry.Name() > anchor
+		})
+	}
 }
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index debba4e..2cd12f1 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -30,8 +30,19 @@ type (
 			servant core.Servant,
 		) (bool, error)
 
+		// Spawn
+		Spawn(ctx context.Context,
+			ns *navigationStatic,
+			directory string,
+			pick enclave.PickEntries,
+		) (*enclave.KernelResult, error)
+
 		// Result
 		Result(ctx context.Context) *enclave.KernelResult
+
+		inspect(ns *navigationStatic,
+			servant core.Servant,
+		) (inspection, error)
 	}
 
 	// NavigatorDriver
@@ -110,6 +121,7 @@ type (
 			forest *core.Forest,
 			depth int,
 			metrics core.Metrics) *core.ActiveState
+		retain(pick enclave.PickEntries)
 		clear()
 	}
 )
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..c0b62db 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -88,15 +88,22 @@ func (m *mediator) Read(path string) ([]fs.DirEntry, error) {
 }
 
 func (m *mediator) Spawn(ctx context.Context,
-	tree string,
+	directory string,
+	pick enclave.PickEntries,
 ) (*enclave.KernelResult, error) {
-	return m.impl.Top(ctx, &navigationStatic{
+	return m.impl.Spawn(ctx, &navigationStatic{
 		mediator:     m,
-		tree:         tree,
+		tree:         m.tree,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
-	})
+	}, directory, pick)
+}
+
+// Climb denotes that the directory next to be spawned is the parent of the
+// one before.
+func (m *mediator) Climb() {
+	m.periscope.Offset(-1)
 }
 
 // Bridge combines information gleaned from the previous traversal that was
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index 961b7b0..b33004f 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
+	"github.com/snivilised/agenor/internal/enclave"
 )
 
 type (
@@ -34,6 +35,10 @@ func (v *navigationVapour) Entries() []fs.DirEntry {
 	return v.ents
 }
 
+func (v *navigationVapour) retain(pick enclave.PickEntries) {
+	v.ents = pick(v.ents)
+}
+
 func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 69d57da..6fce991 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -73,6 +73,35 @@ func (n *navigatorAgent) top(ctx context.Context,
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// Spawn travels those entries of the directory that are picked, as though
+// the directory had just been invoked; the periscope is expected to be
+// at the level of the directory.
+func (n *navigatorAgent) Spawn(ctx context.Context,
+	ns *navigationStatic,
+	directory string,
+	pick enclave.PickEntries,
+) (result *enclave.KernelResult, err error) {
+	info, err := n.ao.hooks.QueryStatus.Invoke()(
+		ns.mediator.resources.Forest.T, directory,
+	)
+
+	if err == nil {
+		var vapour inspection
+
+		vapour, err = ns.mediator.impl.inspect(ns, servant{
+			node: core.Top(directory, info),
+		})
+
+		if err == nil {
+			vapour.retain(pick)
+
+			_, err = n.travel(ctx, ns, vapour)
+		}
+	}
+
+	return ns.mediator.impl.Result(ctx), err
+}
+
 // Result is the single point at which a Result is constructed. Due to
 // the spawn resume strategy, a Result may occur more than once during
 // a navigation session. The session knows when completion occurs. Any
-- 
2.43.0


From 24709ca5be4a87b79dbaafa9238d8744725b7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 14/36] fix: a concurrent traversal completes all jobs
 submitted to the pool

The worker pool was released as soon as navigation ended, losing the jobs
still queued. It is now released when all jobs are complete (or the context
is cancelled) and the wait group covers that period. Submitting a job to
the pool no longer blocks for ever after the context has been cancelled.
---
 synchronise.go | 74 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 11 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..b8ee21f 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,15 +48,34 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	backlog backlog
+}
+
+// backlog keeps track of the jobs that have been submitted to the pool
+// but are yet to complete. The navigation itself counts as being
+// outstanding, so the backlog can't be cleared until navigation has ended.
+type backlog struct {
+	outstanding atomic.Int64
+	cleared     chan struct{}
+}
+
+func (b *backlog) open() {
+	b.cleared = make(chan struct{})
+	b.outstanding.Store(1)
+}
+
+func (b *backlog) add() {
+	b.outstanding.Add(1)
+}
+
+func (b *backlog) done() {
+	if b.outstanding.Add(-1) == 0 {
+		close(b.cleared)
+	}
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
-	defer func() {
-		c.close()
-		if c.pool != nil {
-			c.pool.Release(ctx)
-		}
-	}()
+	defer c.close(ctx)
 
 	if c.err != nil {
 		return c.kc.Result(ctx), c.err
@@ -69,14 +89,23 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			c.backlog.add()
 
-			return nil
+			select {
+			case c.inputCh <- input: // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+				return nil
+			case <-ctx.Done():
+				c.backlog.done()
+
+				return ctx.Err()
+			}
 		})
 	}
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.backlog.done()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -109,13 +138,36 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 }
 
 func (c *concurrent) open(ctx context.Context) {
+	c.backlog.open()
 	c.inputCh = c.pool.Source(ctx, c.wg)
 }
 
-func (c *concurrent) close() {
-	if c.inputCh != nil {
-		close(c.inputCh)
+// close indicates to the pool that there are no more jobs to come. The
+// pool can't be released until all jobs submitted have been completed,
+// otherwise those that are still queued would be lost.
+func (c *concurrent) close(ctx context.Context) {
+	if c.inputCh == nil {
+		if c.pool != nil {
+			c.pool.Release(ctx)
+		}
+
+		return
 	}
+
+	c.wg.Add(1)
+	close(c.inputCh)
+	c.backlog.done()
+
+	go func() {
+		defer c.wg.Done()
+
+		select {
+		case <-c.backlog.cleared:
+		case <-ctx.Done():
+		}
+
+		c.pool.Release(ctx)
+	}()
 }
 
 type sequential struct {
-- 
2.43.0


From db5c48e41ead05fee663e5c9c70f60be34b6621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 15/36] fix: a custom node filter does not replace the filters
 defined for other purposes

---
 internal/filtering/builders.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..bb8db3b 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -126,9 +126,20 @@ func buildConstituent(definition *core.FilterDef,
 	return filter, err
 }
 
-func getCustomFilter(_ *core.FilterDef,
+// getCustomFilter the custom filter only stands in for a definition that asks
+// for it, eg a glob that denotes where to wake from hibernation is not to be
+// replaced by the client's custom node filter.
+func getCustomFilter(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
+	if definition.Type != enums.FilterTypeCustom {
+		return nil, nil
+	}
+
+	if fo.Custom == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	return fo.Custom, nil
 }
 
-- 
2.43.0


From 2fbce6f3737b234cb3aedd7c677d4f858d8e50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 16/36] fix: report a filter definition that can't be fulfilled
 instead of crashing

---
 internal/filtering/builders.go | 10 +++++++++-
 internal/filtering/child.go    | 16 +++++++++++-----
 internal/filtering/poly.go     |  5 ++++-
 internal/filtering/sample.go   | 17 ++++++++++-------
 4 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index bb8db3b..6155804 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -63,7 +63,11 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
 
 	// enforce the correct filter scopes
 	//
@@ -119,6 +123,10 @@ func buildConstituent(definition *core.FilterDef,
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	if err := filter.Validate(); err != nil {
 		return nil, err
 	}
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..67ebc9b 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -37,16 +37,22 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 	case enums.FilterTypeCustom:
 		return nil, locale.ErrFilterCustomNotSupported
 
+	case enums.FilterTypePoly:
+		// files are the only kind of child, so there is nothing for a
+		// poly filter to discriminate
+		//
+		return nil, locale.ErrPolyFilterIsInvalid
+
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterUndefined
+	}
 
-	case enums.FilterTypePoly:
+	if filter == nil {
+		return nil, locale.ErrFilterUndefined
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..b6496dd 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -63,9 +63,12 @@ func (f *Poly) Source() string {
 // IsMatch returns true if the current node is a file and both the current
 // file matches the poly file filter and the file's parent directory matches
 // the poly directory filter. Returns true of the current node is a directory.
+// A file that has no parent (ie it is the root of the tree being navigated), is
+// only subject to the poly file filter.
 func (f *Poly) IsMatch(node *core.Node) bool {
 	if !node.IsDirectory() {
-		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
+		return (node.Parent == nil || f.Directory.IsMatch(node.Parent)) &&
+			f.File.IsMatch(node)
 	}
 
 	return true
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..5da2b49 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -50,7 +50,6 @@ func NewSample(def *core.SampleFilterDef,
 	}
 
 	switch def.Type {
-	case enums.FilterTypeGlobEx:
 	case enums.FilterTypeRegex:
 		filter = &SampleRegex{
 			Sample: base,
@@ -65,15 +64,19 @@ func NewSample(def *core.SampleFilterDef,
 			return nil, locale.ErrFilterIsNil
 		}
 		filter = def.Custom
-	case enums.FilterTypePoly:
-	case enums.FilterTypeUndefined:
+
+	case enums.FilterTypeGlobEx, enums.FilterTypePoly, enums.FilterTypeUndefined:
+		// there is no sample filter available for these types
+		//
 		return nil, locale.ErrFilterMissingType
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if filter == nil {
+		return nil, locale.ErrFilterMissingType
+	}
+
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
-- 
2.43.0


From bda251f5159f147a08a7ef131d1cc380695019ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 17/36] fix: synchronise the registration of the session's
 message handler

Independent sessions navigating at the same time raced on the broker.
---
 driver.go                   |  2 +-
 internal/services/broker.go | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index 1280944..1eab8e7 100644
--- a/driver.go
+++ b/driver.go
@@ -18,7 +18,7 @@ type driver struct {
 }
 
 func (d *driver) init() {
-	services.Broker.RegisterHandler(badge, bus.Handler{
+	services.RegisterHandler(badge, bus.Handler{
 		Handle: func(_ context.Context, m bus.Message) {
 			_ = m.Data
 			// now invoke session.finish
diff --git a/internal/services/broker.go b/internal/services/broker.go
index dc3cef3..370e2ee 100644
--- a/internal/services/broker.go
+++ b/internal/services/broker.go
@@ -1,6 +1,8 @@
 package services
 
 import (
+	"sync"
+
 	"github.com/snivilised/agenor/internal/third/bus"
 )
 
@@ -19,6 +21,7 @@ const (
 )
 
 var (
+	mx     sync.Mutex
 	Broker *bus.Broker
 	topics = []string{
 		TopicInitPlugins,
@@ -51,12 +54,23 @@ func Reset() *bus.Broker {
 
 	b.RegisterTopics(topics...)
 
-	// Access to the broker is currently un-synchronised; that is because interaction
-	// with the broker is only expected to come from a single thread. However, if we
-	// really wanted to grant access to it to other threads, we can define a wrapper
-	// function/object around it that implements synchronisation using locks.
+	// Access to the broker itself is un-synchronised. Independent navigation
+	// sessions can be active at the same time, so registration should be performed
+	// via RegisterHandler which implements synchronisation using a lock.
 	//
+	mx.Lock()
+	defer mx.Unlock()
+
 	Broker = b
 
 	return b
 }
+
+// RegisterHandler re/register the handler with the broker, safe for use by
+// concurrent sessions.
+func RegisterHandler(key string, h bus.Handler) {
+	mx.Lock()
+	defer mx.Unlock()
+
+	Broker.RegisterHandler(key, h)
+}
-- 
2.43.0


From e3f755f5bbce0032fae71dd7b19f72afef46beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 18/36] fix: report the nil forest of a prime session instead
 of crashing

---
 scaffold.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 3893309..e78b019 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,10 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil && ext.trees == nil {
+		return primary.base.pacify(facade, settings...), core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
-- 
2.43.0


From e44c1128f986393b1b153f829470e43231e3905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 19/36] fix: a cancelled concurrent traversal leaves no workers
 behind

The interactions with the pool's workers were abandoned when the context is
cancelled, which left idle workers blocked for ever. The pool is now always
wound down in order; the jobs that are queued at the time are abandoned.
---
 synchronise.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index b8ee21f..538ef89 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -106,7 +106,12 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
 			defer c.backlog.done()
 
-			err := input.Handler(input.Servant)
+			// a job that is still queued when the context is cancelled is
+			// abandoned
+			err := ctx.Err()
+			if err == nil {
+				err = input.Handler(input.Servant)
+			}
 
 			return &core.TraverseOutput{
 				Servant: input.Servant,
@@ -139,13 +144,18 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 
 func (c *concurrent) open(ctx context.Context) {
 	c.backlog.open()
-	c.inputCh = c.pool.Source(ctx, c.wg)
+	// The pool's workers would be left behind if the pool was to abandon the
+	// interaction with them due to a cancellation, so they're always allowed
+	// to finish.
+	c.inputCh = c.pool.Source(context.WithoutCancel(ctx), c.wg)
 }
 
 // close indicates to the pool that there are no more jobs to come. The
 // pool can't be released until all jobs submitted have been completed,
 // otherwise those that are still queued would be lost.
 func (c *concurrent) close(ctx context.Context) {
+	ctx = context.WithoutCancel(ctx)
+
 	if c.inputCh == nil {
 		if c.pool != nil {
 			c.pool.Release(ctx)
@@ -161,11 +171,7 @@ func (c *concurrent) close(ctx context.Context) {
 	go func() {
 		defer c.wg.Done()
 
-		select {
-		case <-c.backlog.cleared:
-		case <-ctx.Done():
-		}
-
+		<-c.backlog.cleared
 		c.pool.Release(ctx)
 	}()
 }
-- 
2.43.0


From ecbd00c03cec29aac251fd41e0e97443460e7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 20/36] fix: building a filter does not modify the client's
 definition

---
 internal/filtering/builders.go |  9 +++++----
 internal/filtering/glob-ex.go  | 10 ++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 6155804..3d3f9e8 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -63,14 +63,15 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := definition.Poly
-
-	if polyDef == nil {
+	if definition.Poly == nil {
 		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
-	// enforce the correct filter scopes
+	// enforce the correct filter scopes, of a copy because the definition
+	// belongs to the client, who may be using it for other sessions.
 	//
+	enforced := *definition.Poly
+	polyDef := &enforced
 	polyDef.File.Scope.Set(enums.ScopeFile)
 	polyDef.File.Scope.Clear(enums.ScopeDirectory)
 
diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..2e9887a 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -28,17 +28,15 @@ func createGlobExFilter(def *core.FilterDef,
 		return nil, err
 	}
 
-	// we ignore the scope on the filter because use of this type
-	// of filter implies the correct scope, ie file scope.
-	def.Scope = enums.ScopeFile
-
 	directoryBase, directoryExclusion := splitGlob(segments[0])
 
 	gs, err = newSpec(directoryBase, directoryExclusion, patterns)
 	filter = &GlobEx{
 		Base: Base{
-			name:            def.Description,
-			scope:           def.Scope,
+			name: def.Description,
+			// we ignore the scope on the definition because use of this type
+			// of filter implies the correct scope, ie file scope.
+			scope:           enums.ScopeFile,
 			pattern:         def.Pattern,
 			negate:          def.Negate,
 			ifNotApplicable: ifNotApplicable,
-- 
2.43.0


From f0c6c6330b9068cdcd3752858afa863782be57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 21/36] fix: the sub-path is relative to a tree that is the
 root of the file system

---
 pref/defaults.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pref/defaults.go b/pref/defaults.go
index 09b1ae5..1769a1a 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -77,6 +77,17 @@ func tail(input string, offset int) string {
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
+	sep := string(filepath.Separator)
+
+	switch {
+	case parent == "." && child != ".":
+		// paths of nodes do not contain the root of a relative file system
+		//
+		return sep + child
+	case strings.HasSuffix(parent, sep):
+		return tail(child, len(parent)-len(sep))
+	}
+
 	return tail(child, len(parent))
 }
 
@@ -87,6 +98,10 @@ func RootItemSubPathHook(info *core.SubPathInfo) string {
 
 // DefaultSubPathHook
 func DefaultSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	if info.Node.Extension.Scope == enums.ScopeTop {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
-- 
2.43.0


From 8482120aa419b0d89ffb0cb68a0b0b7ede1624ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 22/36] fix: the path of the tree is cleaned, so that it
 relates to the paths of its nodes

---
 internal/kernel/builder.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/builder.go b/internal/kernel/builder.go
index daa3c0b..2c16188 100644
--- a/internal/kernel/builder.go
+++ b/internal/kernel/builder.go
@@ -1,6 +1,8 @@
 package kernel
 
 import (
+	"path/filepath"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -36,8 +38,18 @@ func (fn Builder) Build(inception *Inception) *Artefacts {
 
 func (i *Inception) NavigationTree() string {
 	if using, ok := i.Facade.(*pref.Using); ok {
-		return using.Tree
+		return cleaned(using.Tree)
 	}
 
 	return i.Harvest.Loaded().State.Tree
 }
+
+// cleaned ensures that the path of the tree is a prefix of the paths of all
+// the other nodes, which are clean.
+func cleaned(tree string) string {
+	if tree == "" {
+		return tree
+	}
+
+	return filepath.Clean(tree)
+}
-- 
2.43.0


From 44039587a0b3ff60a58a22812247388819f41fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:21 +0000
Subject: [PATCH 23/36] fix: a depth limit beyond the range of int is a limit
 like any other

---
 internal/level/periscope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/level/periscope.go b/internal/level/periscope.go
index 4f67545..2ec07f4 100644
--- a/internal/level/periscope.go
+++ b/internal/level/periscope.go
@@ -68,7 +68,7 @@ func (p *Periscope) Delta(tree, current string) (err error) {
 }
 
 func (p *Periscope) Descend(maximum uint) bool {
-	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
+	if maximum > 0 && p.depth > 0 && uint(p.depth) > maximum {
 		return false
 	}
 
-- 
2.43.0


From b35265ef1e61929dc459bdebbd8981228ed9865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 24/36] fix: a forest without its file systems is refused, that
 of the client isn't modified

---
 scaffold.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaffold.go b/scaffold.go
index e78b019..d9ebbf9 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,7 +44,7 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
-	if err == nil && ext.trees == nil {
+	if err == nil && (ext.trees == nil || ext.trees.T == nil) {
 		return primary.base.pacify(facade, settings...), core.ErrNilForest
 	}
 
@@ -205,15 +205,17 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 	// that matches the loaded active state from the previous session.
 	//
 
-	if forest.T.IsRelative() != active.TraverseDescription.IsRelative {
-		forest.T = nil
+	matching := *forest
+
+	if matching.T != nil && matching.T.IsRelative() != active.TraverseDescription.IsRelative {
+		matching.T = nil
 	}
 
-	if forest.R.IsRelative() != active.ResumeDescription.IsRelative {
-		forest.R = nil
+	if matching.R != nil && matching.R.IsRelative() != active.ResumeDescription.IsRelative {
+		matching.R = nil
 	}
 
-	return forest
+	return &matching
 }
 
 func (p *platform) extent() extent {
-- 
2.43.0


From 202d1190006117bb3e89606c47f78c1357d70096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 25/36] fix: a panic is contained when there's no file system
 to save the state with

---
 internal/kernel/author.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..cf043e0 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -20,6 +20,11 @@ func (a *author) write(vex vexation) (string, error) {
 	static := vapour.static()
 	forest := static.mediator.resources.Forest
 	fS := forest.R
+
+	if fS == nil {
+		return "", core.ErrNilForest
+	}
+
 	calc := fS.Calc()
 	directory, file := a.destination(vex, calc)
 
-- 
2.43.0


From 286f5dedf20905e34d4cb626d5514de3d75103c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 26/36] fix: a saved state that's incomplete is refused by a
 resume

---
 core/errors.go                | 6 ++++++
 internal/persist/marshaler.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/core/errors.go b/core/errors.go
index 6173bd2..accd611 100644
--- a/core/errors.go
+++ b/core/errors.go
@@ -222,3 +222,9 @@ var ErrWrongResumeFacade = errors.New(
 var ErrNilForest = errors.New(
 	"forest is nil",
 )
+
+// ❌ Incomplete Resume State error
+
+var ErrIncompleteResumeState = errors.New(
+	"resume state is incomplete",
+)
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..71eb0b8 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -92,6 +92,10 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, err
 	}
 
+	if mr.Active == nil || mr.JO == nil {
+		return nil, core.ErrIncompleteResumeState
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 2b6c784e6d5fdfe9cd7c910902259397b72fd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 27/36] fix: an unknown subscription, type of filter or
 strategy is refused

---
 internal/filtering/builders.go       | 3 +++
 internal/kernel/navigator-factory.go | 3 +++
 pref/facade.go                       | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3d3f9e8..23d3db7 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -31,6 +31,9 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 		return nil, nil
 
 	case enums.FilterTypeUndefined:
+		fallthrough
+
+	default:
 		return nil, locale.ErrFilterMissingType
 	}
 
diff --git a/internal/kernel/navigator-factory.go b/internal/kernel/navigator-factory.go
index 16d2c2a..496017b 100644
--- a/internal/kernel/navigator-factory.go
+++ b/internal/kernel/navigator-factory.go
@@ -63,6 +63,9 @@ func newImpl(o *pref.Options,
 		}
 
 	case enums.SubscribeUndefined:
+		fallthrough
+
+	default:
 		err = locale.ErrUsageMissingSubscription
 		impl = &navigatorUniversal{
 			navigatorAgent: agent,
diff --git a/pref/facade.go b/pref/facade.go
index b29aba2..0b483f5 100644
--- a/pref/facade.go
+++ b/pref/facade.go
@@ -141,7 +141,12 @@ func (f *Relic) Validate() error {
 		return locale.ErrUsageMissingRestorePath
 	}
 
-	if f.Strategy == enums.ResumeStrategyUndefined {
+	switch f.Strategy {
+	case enums.ResumeStrategySpawn, enums.ResumeStrategyFastward:
+	case enums.ResumeStrategyUndefined:
+		fallthrough
+
+	default:
 		return locale.ErrUsageMissingSubscription // TODO: THIS IS WRONG ERROR
 	}
 
-- 
2.43.0


From 9bf53902bd4c89f70b44d7f87d9f56b2691c66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 28/36] fix: a metric missing from the saved state counts for
 nothing

---
 core/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/metrics.go b/core/metrics.go
index 67a0052..c8fb26c 100644
--- a/core/metrics.go
+++ b/core/metrics.go
@@ -59,7 +59,7 @@ func (m *NavigationMetric) Times(increment uint) MetricValue {
 
 func (m Metrics) Merge(other Metrics) {
 	for mt := range maps.Keys(m) {
-		if om, foundOther := other[mt]; foundOther {
+		if om, foundOther := other[mt]; foundOther && om != nil {
 			if metric, found := m[mt]; found {
 				metric.Times(om.Counter)
 			} else {
-- 
2.43.0


From 3749848bedd8ce6c6749743c820eacf11448f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 29/36] fix: a spawn from a path outside of the tree is refused
 before it visits any node

---
 internal/feat/resume/strategy-spawn.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 32a2031..2bc4086 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -38,6 +38,10 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		return s.mediator.Snooze(ctx, s.active)
 	}
 
+	if !s.resides(s.active.CurrentPath) {
+		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
@@ -52,6 +56,20 @@ func (s *spawnStrategy) ifResult() bool {
 	return s.complete
 }
 
+// resides determines whether the path is that of a node within the tree; if
+// not, then climbing from there does not end at the tree.
+func (s *spawnStrategy) resides(path string) bool {
+	for parent := s.calc.Dir(path); parent != path; parent = s.calc.Dir(path) {
+		if parent == s.active.Tree {
+			return true
+		}
+
+		path = parent
+	}
+
+	return false
+}
+
 // crown finishes off the navigation of a directory's contents as the
 // Spawn resume has to deal with fractured ancestors; this is to say when a
 // navigation is halted and saved, the state of the tree is that it is only
-- 
2.43.0


From 05009ac5c9572cf229731afafb882cea37373033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 30/36] fix: the result of a traversal that could not be
 started has a session

---
 internal/enclave/kernel-result.go  |  3 ++-
 internal/kernel/navigator-hades.go | 10 ++++++----
 synchronise.go                     |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index 28e9b10..31d5c6c 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -22,8 +22,9 @@ func NewResult(session core.Session,
 	}
 }
 
-func NewFailed() *KernelResult {
+func NewFailed(session core.Session) *KernelResult {
 	return &KernelResult{
+		session:  session,
 		reporter: NewSupervisor(),
 	}
 }
diff --git a/internal/kernel/navigator-hades.go b/internal/kernel/navigator-hades.go
index 1687da7..fa52d8b 100644
--- a/internal/kernel/navigator-hades.go
+++ b/internal/kernel/navigator-hades.go
@@ -16,14 +16,16 @@ func HadesNav(o *pref.Options, err error) enclave.KernelController {
 }
 
 type navigatorHades struct {
-	o   *pref.Options
-	err error
+	o       *pref.Options
+	err     error
+	session core.Session
 }
 
 func (n *navigatorHades) Rank() {
 }
 
-func (n *navigatorHades) Ignite(*enclave.Ignition) {
+func (n *navigatorHades) Ignite(ignition *enclave.Ignition) {
+	n.session = ignition.Session
 }
 
 func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -31,7 +33,7 @@ func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, e
 }
 
 func (n *navigatorHades) Result(_ context.Context) *enclave.KernelResult {
-	return enclave.NewFailed()
+	return enclave.NewFailed(n.session)
 }
 
 func (n *navigatorHades) Snooze(context.Context,
diff --git a/synchronise.go b/synchronise.go
index 538ef89..162b207 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -31,7 +31,7 @@ func (t *trunk) extent() extent {
 }
 
 func (t *trunk) IsComplete() bool {
-	return t.ext.complete()
+	return t.err == nil && t.ext.complete()
 }
 
 func (t *trunk) Ignite(ignition *enclave.Ignition) {
-- 
2.43.0


From dce404c3f7ae55b101859e66892103f0e904a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 31/36] fix: sessions saved at the same time overwrite each
 other's state

---
 internal/kernel/author.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index cf043e0..15879c0 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
@@ -10,6 +11,9 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+// saving is held from the choice of the path until the file is written.
+var saving sync.Mutex
+
 type author struct {
 	o     *pref.Options
 	perms core.Permissions
@@ -32,7 +36,10 @@ func (a *author) write(vex vexation) (string, error) {
 		return "", err
 	}
 
-	path := calc.Join(directory, file)
+	saving.Lock()
+	defer saving.Unlock()
+
+	path := vacant(calc.Join(directory, file), fS)
 	active := vapour.active(vex.ancestor(), forest,
 		static.mediator.periscope.Depth(),
 		static.mediator.metrics,
@@ -51,6 +58,23 @@ func (a *author) write(vex vexation) (string, error) {
 	return path, err
 }
 
+// vacant denotes a path that is not occupied by the state of another session,
+// that was saved at the same time.
+func vacant(path string, fS nef.ExistsInFS) string {
+	const (
+		extension = ".json"
+		most      = 9999
+	)
+
+	stem := strings.TrimSuffix(path, extension)
+
+	for i := 1; i <= most && fS.FileExists(path); i++ {
+		path = fmt.Sprintf("%v.%v%v", stem, i, extension)
+	}
+
+	return path
+}
+
 func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file string) {
 	mag := v.magnitude()
 	cause := v.cause()
-- 
2.43.0


From 451a7939d51857a0744deb753bc811809e323ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 32/36] fix: order of names that differ in case only depended
 on the listing

---
 pref/defaults.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 1769a1a..5e7cfb2 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -44,7 +44,13 @@ func CaseSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 // directory of "a" will be visited before a sibling directory "B".
 func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	sort.Slice(entries, func(i, j int) bool {
-		return strings.ToLower(entries[i].Name()) < strings.ToLower(entries[j].Name())
+		a, b := entries[i].Name(), entries[j].Name()
+		lowerA, lowerB := strings.ToLower(a), strings.ToLower(b)
+
+		// names that only differ in case must not depend on the order in which
+		// they are listed
+		//
+		return lowerA < lowerB || (lowerA == lowerB && a < b)
 	})
 }
 
-- 
2.43.0


From 2b4c7b515ce0da36416783e35f5d4c299d45e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 33/36] fix: the text of the error of an invalid poly filter is
 another's

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..ceee2be 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From 9b81677e090c34c5301ca1348b21e82663e06c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 34/36] fix: the text of the error of a panic doesn't tell
 where the session was saved

---
 locale/messages-errors.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ceee2be..9062ec2 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,13 +722,14 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Destination string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-saved.age.dynamic-error",
 		Description: "traversal saved due to panic (dynamic error)",
-		Other:       "traversal saved: {{.Field}}",
+		Other:       "traversal saved: {{.Destination}}",
 	}
 }
 
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Destination: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -765,7 +768,7 @@ func (td TraversalNotSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-not-saved.age.dynamic-error",
 		Description: "panic induced traversal not saved (dynamic error)",
-		Other:       "field: {{.Reason}}",
+		Other:       "traversal not saved",
 	}
 }
 
-- 
2.43.0


From 64849c5d7c59d4d8f4e828dca3eef6c4e3440c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:52 +0000
Subject: [PATCH 35/36] fix: the comparison with the saved options overlooks a
 poly definition that's missing

---
 internal/persist/comparison.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/persist/comparison.go b/internal/persist/comparison.go
index d909fd2..57808e5 100644
--- a/internal/persist/comparison.go
+++ b/internal/persist/comparison.go
@@ -317,6 +317,16 @@ func equalFilterDef(filterName string,
 		)
 	}
 
+	if (def.Poly == nil) != (jdef.Poly == nil) {
+		return fmt.Errorf("%q filter-def %w", filterName,
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: def.Poly,
+				Other: jdef.Poly,
+			},
+		)
+	}
+
 	if def.Poly != nil && jdef.Poly != nil {
 		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
 			return err
-- 
2.43.0


From c9f313cfc2197f6a90b6a721d770677928b4bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 36/36] fix: the elapsed time of a session that's over keeps
 growing

---
 session.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index a77f608..62cad5d 100644
--- a/session.go
+++ b/session.go
@@ -11,6 +11,7 @@ type session struct {
 	sync     synchroniser
 	started  time.Time
 	duration time.Duration
+	finished bool
 	plugins  []enclave.Plugin
 }
 
@@ -22,8 +23,9 @@ func (s *session) start() {
 }
 
 func (s *session) finish(result *enclave.KernelResult) {
-	s.duration = time.Since(s.started)
 	s.sync.Bye(result)
+	s.duration = time.Since(s.started)
+	s.finished = true
 }
 
 func (s *session) IsComplete() bool {
@@ -35,6 +37,10 @@ func (s *session) StartedAt() time.Time {
 }
 
 func (s *session) Elapsed() time.Duration {
+	if s.finished {
+		return s.duration
+	}
+
 	return time.Since(s.started)
 }
 
-- 
2.43.0

