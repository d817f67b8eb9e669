#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": [observe]}})


K = "internal/kernel/"
p("P01", "A walk visits every node once, in the specified order",
  "A traversal without filters or limits invokes the callback exactly once for every node under the tree that the subscription asks for (files; directories; or everything), a directory always before its contents, which follow it contiguously. Siblings come directories first (files first with SortFilesFirst), each group in ascending order of name, ignoring case (but for names that differ in nothing else) unless case sensitivity is requested by behaviour or hook; nothing else, and never '.DS_Store', is presented. The outcome depends on the tree alone, not on the order in which the file system lists it or whether that is relative, absolute, in memory or the local disk, nor on how the path of the tree is spelt.",
  ["inputs", "configurations"], "every tree shape, naming, listing order, subscription and sort setting",
  "The tests navigate one fixed album tree whose listing order is already sorted; order bugs need mixed case, adversarial listing order, empty or deep directories.",
  [K + "navigator-agent.go", K + "navigator-universal.go", K + "navigator-files.go", K + "navigator-directories.go", K + "contents.go", K + "navigation-vapour.go", "pref/defaults.go"],
  [("travel", K + "navigator-agent.go"), ("Contents.All/Sort", K + "contents.go"), ("Pick", K + "navigation-vapour.go"), ("sort hooks", "pref/defaults.go")],
  "sequence of callback invocations")
p("P02", "The node presented describes the file system item truthfully",
  "For every invocation, Path, Extension.Name and Parent (from splitting the path), Extension.Depth (0 for the tree), IsLeaf (a directory without sub directories), Scope (tree, top, intermediate or leaf position together with file or directory), Entry and Info, the Parent node chain up to the tree, IsDirectory and Error agree with the item in the file system. Extension.SubPath is the part of the parent's path below the tree (empty for the tree itself, a lone separator for its direct children), without its trailing separator when KeepTrailingSep is false. This holds for names in any script, trees at any depth and the root of a file system as the tree.",
  ["inputs", "configurations"], "every node of every tree, under every subscription and sub path behaviour",
  "Tests check names and a few attributes for hand picked nodes of one tree with ASCII names.",
  [K + "extend.go", "internal/level/periscope.go", "core/node.go", "pref/defaults.go"],
  [("extend", K + "extend.go"), ("Periscope.Scope/Depth", "internal/level/periscope.go"), ("DefaultSubPathHook", "pref/defaults.go")],
  "node attributes inside callback and Ascend listeners")
p("P03", "Depth and NoRecurse bound the traversal exactly",
  "With WithDepth(n), n>0, precisely the nodes at most n levels below the tree are visited (with the same order and attributes as in an unlimited traversal) and nothing below is presented, announced by events or read; WithDepth(0) is unlimited. WithNoRecurse limits the traversal to the tree and its direct contents. The limit combines with every subscription, filter and with sampling.",
  ["inputs", "configurations"], "every tree, depth limit, subscription and filter",
  "Tests sample two depths on a fixed tree; the boundary has to be right for each branch that is left and re-entered.",
  ["internal/level/periscope.go", K + "mediator.go", "internal-traverse-defs.go"],
  [("Periscope.Descend/Ascend", "internal/level/periscope.go"), ("descend/ascend", K + "mediator.go")],
  "sequence of callback invocations and life-cycle events")
p("P04", "A node filter decides invocation, never navigation",
  "With a node filter (glob, extended glob, regex, poly or custom), the callback is invoked for exactly those nodes of the unfiltered traversal that match: for nodes in the filter's scope the pattern (inverted by Negate) decides on the name, for others IfNotApplicable does (default true), and an extended glob also subjects a file to its parent's name (with exclusion) and to its list of suffixes (with '!' exclusions). A poly filter subjects files to both its file filter and to its directory filter applied to the parent, and lets directories pass; a custom filter takes precedence over a defined one. Contents of rejected directories are still visited, in the same order.",
  ["inputs", "configurations"], "every tree, filter definition (type, pattern, scope, negate, if-not-applicable) and subscription",
  "Tests pair a dozen definitions with one tree; scope, negation and applicability interact per node.",
  ["internal/filtering/base.go", "internal/filtering/glob.go", "internal/filtering/glob-ex.go", "internal/filtering/regex.go", "internal/filtering/poly.go", "internal/filtering/builders.go", "internal/feat/filter/schemes.go", "internal/feat/filter/scheme-custom.go"],
  [("IsMatch/IsApplicable", "internal/filtering"), ("matchNext", "internal/feat/filter/scheme-custom.go"), ("unary", "internal/feat/filter/schemes.go")],
  "set and order of invocations compared to an unfiltered traversal")
p("P05", "Children of a directory are complete, sorted and child-filtered",
  "Under the directories-with-files subscription without any filter, every directory is presented with Children being all of its files in sort order. With a child filter (glob or regex, Negate) Children are exactly the directory's matching files in sort order, whatever the primary node filter, and without effect on which directories are visited; with a node filter but no child filter Children is empty.",
  ["inputs", "configurations"], "every tree, child filter and primary filter",
  "The tests count children of some directories of one tree.",
  ["internal/feat/nanny/nanny-plugin.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/filter/scheme-hybrid.go", "internal/filtering/child.go", K + "navigation-vapour.go"],
  [("nanny Next", "internal/feat/nanny/nanny-plugin.go"), ("nannyScheme/hybridScheme", "internal/feat/filter"), ("AssignChildren", K + "navigation-vapour.go")],
  "node.Children inside the callback")
p("P06", "Sampling takes the first or last n entries of each directory",
  "With sampling active, each directory contributes only the first (last with InReverse) NoOf.Files files and NoOf.Directories directories of its listing as read, zero meaning all; what was not selected is not visited, nor are its contents. A sample filter (glob, regex or custom; Negate) first reduces the entries of its scope (files or directories) to those that match and leaves the others alone, then the quantities apply; the tree itself is presented only if it matches. Order, attributes and (without sample filter) children are those of a tree that consists of the selected entries only.",
  ["inputs", "configurations"], "every tree, listing order, quantities, direction and sample filter",
  "Tests count invocations for a few quantities on one tree.",
  ["internal/feat/sampling/controller.go", "internal/feat/sampling/sampling-plugin.go", "internal/filtering/sample.go", "internal/filtering/glob.go", "internal/filtering/regex.go", "internal/feat/filter/scheme-sampler.go"],
  [("union/first/last", "internal/feat/sampling/controller.go"), ("Matching/fetch", "internal/filtering/sample.go"), ("ReadDirectory chain", "internal/feat/filter/scheme-sampler.go")],
  "sequence of invocations and the directories read")
p("P07", "Hibernation confines the invocations to the wake-sleep window",
  "With a wake condition nothing is invoked until the first node that matches it, which is itself invoked unless the wake is exclusive; from the first later node that matches the sleep condition on (itself invoked only if sleep is inclusive) nothing is invoked any more and the traversal ends early without error; with only a sleep condition the traversal starts awake. The nodes in between are invoked as without hibernation, subject to the active filters. Wake and Sleep listeners are notified at most once each, exactly when the condition first occurs, with the description of the condition.",
  ["inputs", "configurations", "histories"], "every tree, wake/sleep conditions, inclusiveness and filters",
  "A state machine over the node sequence; tests try a few waypoints.",
  ["internal/feat/hiber/hibernate-simple-profile.go", "internal/feat/hiber/hibernate-defs.go", "internal/feat/hiber/hibernate-plugin.go", "manifest.go"],
  [("simple.create states", "internal/feat/hiber/hibernate-simple-profile.go"), ("launch", "internal/feat/hiber/hibernate-defs.go")],
  "order of invocations and wake/sleep notifications")
p("P08", "Errors and skip requests of the callback end exactly what they denote",
  "fs.SkipDir returned for a directory skips its contents only; returned for a file, it skips the remaining siblings only; fs.SkipAll ends the traversal at once; neither is reported as an error. Any other error ends the traversal at once (no further invocation) and Navigate returns it, so that errors.Is finds it. In every case the result, its metrics and the ascend/end notifications for what was started are still delivered.",
  ["inputs", "histories"], "every tree and every assignment of callback results to nodes",
  "Which nodes remain after a skip depends on position in the tree; tests do it at one or two places.",
  [K + "navigator-agent.go", K + "navigator-universal.go", K + "navigator-files.go", K + "navigator-directories.go", "driver.go", "stock/error.go"],
  [("travel", K + "navigator-agent.go"), ("Traverse", K + "navigator-*.go"), ("Navigate", "driver.go")],
  "sequence of invocations after the error, Navigate's error")
p("P09", "Life-cycle events bracket and nest with the traversal",
  "Begin is notified exactly once, before anything else, with the tree, and End exactly once, after everything else, with the result that Navigate returns. Every permitted node, file or directory, invoked or not, gets one Descend before and one Ascend after its invocation and its contents, so that the events nest as the tree does, also when a traversal is cut short. Every listener registered for an event is notified each time, in order of registration, and the session of the result started before the first event, lasted until the last one at least, no longer than Navigate did, and is complete unless something went wrong.",
  ["inputs", "histories", "configurations"], "every tree, listeners and (early) ending",
  "Ordering over whole histories; the tests only register print-outs.",
  ["life/events.go", K + "mediator.go", "session.go", "driver.go", "pref/options-life.go"],
  [("descend/ascend/Ignite/Bye", K + "mediator.go"), ("NotificationCtrl.On/Dispatch", "life/events.go")],
  "merged log of notifications and invocations")
p("P10", "Metrics equal what happened",
  "When a sequential traversal ends, however it ends, the metrics of its result equal the number of files and of directories the callback was invoked for, of files and of directories the node filter rejected, and of child files presented and (with a child filter) rejected. In particular invoked plus filtered out equals the number of nodes considered. Metrics of a session start from zero, and from the saved values in a spawn resume.",
  ["inputs", "configurations", "histories"], "every tree, subscription, filter and ending",
  "Tests compare against constants for one tree.",
  [K + "guardian.go", "internal/enclave/supervisor.go", "core/metrics.go", "internal/feat/filter/scheme-custom.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/nanny/nanny-plugin.go"],
  [("anchor.Next", K + "guardian.go"), ("Supervisor", "internal/enclave/supervisor.go"), ("matchNext", "internal/feat/filter/scheme-custom.go")],
  "result.Metrics().Count against the observed log")
p("P11", "File system failures reach the handler and stay local",
  "If the tree can not be queried, nothing is invoked, the fault handler is called once with the error and the path, and its return value is Navigate's error. If a directory can't be read, that directory is still invoked and treated as empty, and the skip handler is asked with the node, its contents and the error; by default the traversal goes on with everything else; the handler may skip the contents of a directory or end the traversal, for any directory, and an error it returns with that is Navigate's error. An entry whose info can't be obtained is presented with that error in node.Error.",
  ["fault_sequences", "inputs"], "every tree and set of failing paths, every decision of the handlers",
  "Tests use a file system that doesn't fail.",
  [K + "navigator-agent.go", K + "navigation-fs.go", "pref/defects.go", "internal/feat/sampling/controller.go"],
  [("top", K + "navigator-agent.go"), ("read", K + "navigation-fs.go"), ("Skip.Ask", K + "navigator-universal.go")],
  "invocations and handler calls under injected failures")
p("P12", "A panic is contained and the saved state is accurate",
  "If the callback panics at any node other than the tree itself, Navigate returns (no panic escapes) an error that identifies that a panic occurred and where the session was saved, and a JSON state is written to a file of its own (also when other sessions are saved at the same time), named after the kind of session and the cause, under the admin path through the forest's resume file system, that records the tree, subscription, the directory being traversed at the time and its depth, the kind of file systems and the metrics so far (files and directories invoked, child files found). If the state can't be saved (or there is no file system to save it with) the error says so, with the reason; a custom panic handler is called instead of saving by default. Nothing is invoked after the panic, except for listeners.",
  ["crash_points", "fault_sequences", "inputs"], "every tree, subscription and node at which the panic strikes, and each way in which the save can fail",
  "Tests panic at a node or two.",
  [K + "navigator-agent.go", K + "author.go", K + "vex.go", K + "navigation-vapour.go", "internal/persist/marshaler.go"],
  [("travel recover", K + "navigator-agent.go"), ("author.write", K + "author.go"), ("active", K + "navigation-vapour.go")],
  "error of Navigate, bytes written")
p("P13", "A fastward resume continues with exactly the rest",
  "After a session was interrupted at any node by a panic, resuming from the saved file by fastward, with the same file system, invokes exactly the suffix of the uninterrupted traversal that starts with the saved current directory (or its first node that the subscription presents): each node once, in order, with the same attributes, filters and limits in force as in the original session (a custom filter, hooks and handlers, which can't be saved, have to be given again). Begin to Ascend notifications are suppressed up to the resume point (or, if that is later, until hibernation ends) and delivered from then on, and End is notified. A resumed session can itself be interrupted and resumed again with the same guarantee.",
  ["crash_points", "histories", "inputs", "configurations"], "every tree, subscription, options and interruption point, also repeated",
  "Tests resume from canned state at a few positions; the resume point's name can occur several times in a tree.",
  ["internal/feat/resume/strategy-fastward.go", "internal/feat/resume/controller.go", K + "guardian.go", "manifest.go", "internal/opts/load.go"],
  [("fastwardStrategy.Next", "internal/feat/resume/strategy-fastward.go"), ("Unwind", K + "guardian.go"), ("MuteAll/UnmuteAll", "life/events.go")],
  "invocations before and after the interruption")
p("P14", "A spawn resume covers the rest once, and adds up",
  "After an interruption at any node, resuming by spawn invokes exactly the nodes of the uninterrupted traversal from the saved current directory on, each once, in the same order and with the same attributes as in the uninterrupted traversal, but without visiting (reading contents of) subtrees already completed; and it terminates. The resulting metrics are those saved plus those of the resumed part. A resumed session can itself be interrupted and resumed again.",
  ["crash_points", "histories", "inputs", "configurations"], "every tree, subscription, options and interruption point, also repeated",
  "Tests resume at a few positions of one tree and count.",
  ["internal/feat/resume/strategy-spawn.go", "internal/feat/resume/controller.go", K + "mediator.go", K + "navigator-agent.go", "core/metrics.go"],
  [("crown", "internal/feat/resume/strategy-spawn.go"), ("Bridge/Spawn", K + "mediator.go"), ("Merge", "core/metrics.go")],
  "invocations, reads and metrics of the resumed session")
p("P15", "Options survive being saved and resumed",
  "Navigation behaviours, sampling (type, direction, quantities), node, child and sample filter definitions (including a poly filter), hibernation conditions and behaviour, and the number of workers that were in force when the state was saved are in force in the resumed session without being specified again (custom filters, hooks and handlers can't be saved), and can be overridden there by options. The saved file always can be loaded by Resume; a file that is missing or not valid JSON makes Navigate return an error.",
  ["configurations", "crash_points"], "every combination of persistable options",
  "Tests tamper with one field at a time of a canned file.",
  ["internal/persist/json-options.go", "internal/persist/marshaler.go", "internal/persist/comparison.go", "internal/opts/load.go", "internal/opts/json/filter-options.go"],
  [("ToJSON/FromJSON", "internal/persist/json-options.go"), ("Marshal/Unmarshal", "internal/persist/marshaler.go"), ("Bind", "internal/opts/load.go")],
  "options observed by an option function in the resumed session, saved JSON, behaviour of the resumed session")
p("P16", "A concurrent run executes every job exactly once",
  "With Run, by the time the caller's wait group is released, the handler has been executed to completion exactly once for every node that Walk would have invoked it for with the same facade and options (filters, sampling, limits, resume included), with the same node attributes. This holds for every number of workers (by default that of the processors), every speed of handlers relative to the traversal and regardless of individual handlers that return an error or panic.",
  ["schedules", "inputs", "configurations"], "every tree, number of workers, handler timing and interleaving",
  "Tests run one schedule and only look at the result's counts.",
  ["synchronise.go", K + "guardian.go", "factories.go"],
  [("concurrent.Navigate", "synchronise.go"), ("Swap", K + "guardian.go")],
  "handler executions recorded at the release of the wait group")
p("P17", "A concurrent run is bounded by its workers and free of data races",
  "At no time are more handlers in execution than the number of workers requested, and with at least as many pending jobs as workers, that many do execute in parallel; the navigator is ahead of them by as many nodes as the input channel's size (by default the number of workers), no less, and no more but for the few that are in passage. Agenor's own accesses to shared state (nodes, metrics, options, pool) are free of data races as long as the handlers only read their node.",
  ["schedules", "configurations"], "every number of workers, tree and interleaving",
  "Concurrency level and races are not observable by the tests, that run without detector or barrier.",
  ["synchronise.go", "pref/options-concurrency.go", K + "guardian.go"],
  [("NewManifoldFuncPool WithSize", "synchronise.go"), ("NoW", "pref/options-concurrency.go")],
  "high-water mark of concurrent handlers, rendezvous of NoW handlers, race detector")
p("P18", "A concurrent run's outputs correspond one to one to its jobs",
  "With WithOutput, and the client consuming the stream, exactly one output is delivered for each job, carrying that job's node and the error its handler returned (a handler that panics has no output), after which the stream is closed and the wait group released. The workers are ahead of the consumer by as many outputs as the output channel's size (by default the number of workers), after which they wait. This holds for any output buffer size, number of workers and timing of the consumer.",
  ["schedules", "inputs", "configurations"], "every number of workers, buffer size, error assignment and consumer timing",
  "Tests print the outputs.",
  ["synchronise.go", "pref/options-concurrency.go", "core/async.go"],
  [("concurrent.Navigate", "synchronise.go"), ("OutputOptions", "pref/options-concurrency.go")],
  "outputs received against handler executions")
p("P19", "A concurrent run ends when its context is cancelled",
  "When the context is cancelled at any point of a Run, Navigate returns and the wait group is released without further ado once the handlers in execution return, no handler is executed twice, a job that no worker had taken is abandoned, no goroutine of the session remains and the output stream is closed and never yields an output other than for a submitted job, once (a job that was abandoned has the context's error). If the cancellation keeps Navigate from submitting a job, Navigate returns the context's error.",
  ["schedules", "fault_sequences"], "every tree, number of workers and moment of cancellation",
  "Tests don't cancel.",
  ["synchronise.go"],
  [("concurrent.Navigate/close", "synchronise.go")],
  "termination, executions and goroutines after cancellation")
p("P20", "Misuse is reported as an error, before anything is invoked",
  "A missing tree path, handler or resume path, a missing or unknown subscription or strategy, the wrong facade for the extent, a forest that is nil, incomplete or does not fit the saved state, an option that fails, an invalid filter (undefined, unknown or unsupported type, bad regex, malformed extended glob, incomplete poly definition, missing custom filter) or an insufficient sampling specification makes Navigate return an error that identifies the problem. No callback is invoked, there is no panic, and the result can be asked for its metrics and its session. The same misuse is reported with Walk and Run.",
  ["configurations"], "every misuse, extent, scheduling mode and otherwise valid configuration",
  "Combinations: each check sits on a different path for prime, resume, walk, run.",
  ["pref/facade.go", "scaffold.go", "builders.go", "internal/filtering/builders.go", "internal/filtering/child.go", "internal/filtering/sample.go", K + "navigator-hades.go"],
  [("Validate", "pref/facade.go"), ("buildAll", "builders.go"), ("HadesNav", K + "navigator-hades.go")],
  "Navigate's error and callback log")
p("P21", "Hooks replace or extend the default operation, everywhere",
  "A hook that is tapped is used instead of the default for every operation of its kind in the session (querying the tree, reading each directory, sorting each group of entries, computing each file's or each directory's sub path); hooks that are chained run after it, in order, each receiving its predecessor's result and the operation's arguments, and the last one's result counts. Tapping one kind of hook never affects another kind, and Default always refers to the original default.",
  ["configurations", "inputs"], "every combination of tapped and chained hooks, on every tree",
  "Tests invoke single hook controllers in isolation.",
  ["tapable/hooks.go", "tapable/broadcasters.go", "pref/options-hooks.go", K + "extend.go", K + "navigation-fs.go"],
  [("HookCtrl.Tap/Chain/Invoke", "tapable/hooks.go"), ("attachers/broadcasters", "tapable/broadcasters.go")],
  "log of hook calls, arguments and effects during traversals")
p("P22", "Composites behave as the navigator they stand for",
  "Hydra, Hare, Tortoise and Goldfish, with the flags that select walk or run and prime or resume, perform exactly the traversal that the explicit combination of Walk/Run and Prime/Resume would for the same facade and options: same invocations (in order when walking), metrics and error. A facade that doesn't fit the selected extent is refused with an error.",
  ["configurations", "inputs"], "every flag combination, facade kind and tree",
  "Tests check that a navigation is started for each.",
  ["composites.go", "director.go", "factories.go"],
  [("Hydra/Hare/Tortoise/Goldfish", "composites.go")],
  "traces of composite versus explicit navigator")
p("P23", "The collections obey their abstract data types",
  "A PositionalSet contains its anchor and whatever valid items were inserted and not deleted; Items lists them in the defined order with the anchor last, Top is the first of those, Count is their number, Position tells an item's place in the defined order; items that aren't in the order, are already present, or are the anchor are refused, and the anchor can't be deleted. A Stack is last in, first out, and reports emptiness with an error. Iterators, forward and reverse, yield every element once in the direction asked for, after which Valid is false; RunAll visits them in that order up to and including the first for which the condition fails; Reset starts over with other elements.",
  ["histories", "inputs"], "every sequence of operations and contents",
  "Tests try single operations.",
  ["collections/positional-set.go", "collections/stack.go", "collections/iterators.go"],
  [("PositionalSet", "collections/positional-set.go"), ("Stack", "collections/stack.go"), ("iterators", "collections/iterators.go")],
  "results of operations against a model")
p("P24", "Sessions are independent of each other",
  "Any number of traversals, sequential or concurrent in the same process, over the same or different trees and file systems, each yield the result they would on their own: invocations, order, metrics, events and errors of one never depend on another, before or at the same time, and there's no data race between them. Reusing one Options instance (Using.O) for successive traversals applies the same behaviours, filters and hooks each time.",
  ["schedules", "histories"], "every set of overlapping or successive sessions",
  "Tests run one session at a time, with a reset of global state before each.",
  ["driver.go", "internal/services/broker.go", "internal/opts/get-push.go", "pref/options.go"],
  [("driver.init", "driver.go"), ("DefaultOptions", "pref/options.go"), ("Push", "internal/opts/get-push.go")],
  "traces of overlapping sessions against reference traces, race detector")
p("P25", "The message bus delivers to precisely the matching handlers",
  "After any sequence of (de)registrations of topics and handlers, a message emitted to a registered topic is delivered exactly once to every registered handler whose matcher matches the topic, and to no other, carrying the topic, data, source and transaction identity given (or a fresh one); emitting to an unregistered topic is an error and delivers nothing. Topics, HandlerKeys, TopicHandlerKeys and HandlerTopicSubscriptions always agree with the registrations. The broker that all sessions share has, when the process starts and after a reset, the six announced topics and no handler, and of registrations by concurrent sessions (and their own) none is lost.",
  ["histories", "schedules"], "every sequence of operations",
  "Tests perform fixed short sequences.",
  ["internal/third/bus/broker.go", "internal/services/broker.go", "driver.go"],
  [("registerHandler/deregisterHandler", "internal/third/bus/broker.go"), ("Emit", "internal/third/bus/broker.go")],
  "deliveries against a model")

p("P26", "Options add up: the last one given for a matter is in force",
  "The options given to a session, and no others, are in force: of those that concern the same matter the one given last (a structure given as a whole replaces all that it consists of), listeners accumulating; NoRecurse stands for a depth of 1. A nil option, or one that IfOption, IfOptionF or IfElseOptionF rule out, has no effect, and of the functions given to the latter precisely the one selected is called, once. Whatever the client passes remains as it was, and handlers (skip, fault, panic) that were replaced are never called.",
  ["configurations", "histories", "inputs"], "every sequence of options, repeated and conditional, on every tree",
  "The tests apply each option once, on its own, in the same order.",
  ["pref/options.go", "pref/options-navigation-behaviours.go", "pref/options-filter.go", "pref/options-hibernate.go", "pref/options-sampling.go", "pref/options-concurrency.go", "internal/opts/get-push.go"],
  [("IfOption/IfElseOptionF", "pref/options.go"), ("With*", "pref"), ("apply", "internal/opts/get-push.go")],
  "options in force, calls of handlers and listeners, and the traversal that results")
p("P27", "The sink is given the filters that are in force",
  "A client that provides a filter sink receives the node filter (unless it is a custom one) and the child filter that are in force, each once and before the traversal begins, and isn't called when there is none. What it receives decides exactly as the session does: its IsMatch agrees with the invocation of each node of the traversal, its Matching with each directory's Children, and its description, source and scope are those of the definition.",
  ["inputs", "configurations"], "every filter definition, subscription and tree",
  "The tests obtain the filter from the sink to phrase their own expectations, they don't examine it.",
  ["internal/feat/filter/scheme-native.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/filter/scheme-hybrid.go", "pref/options-filter.go"],
  [("Sink", "internal/feat/filter/scheme-native.go"), ("Sink", "internal/feat/filter/scheme-nanny.go"), ("FilterReply", "pref/options-filter.go")],
  "calls of the sink, and what the filters received answer about the nodes presented")
p("P28", "A state that is damaged is refused, or resumed within its tree",
  "Resuming from a file that isn't there, cut short, not a state at all or incomplete makes Navigate return an error, without any callback. A state in which any values are missing, null or replaced by others (also of another type or unknown) never makes the resume panic or run for ever: it returns an error and a result, or resumes and then invokes the callback for nodes within the tree the state names only. This holds for either strategy.",
  ["inputs", "fault_sequences"], "every saved state, every point at which it is cut, and every value in it that is removed or replaced",
  "Tests resume from well formed files only.",
  ["internal/persist/marshaler.go", "internal/feat/resume/resume-plugin.go", "internal/feat/resume/strategy-spawn.go", "internal/feat/resume/strategy-fastward.go", "extent.go", "scaffold.go"],
  [("Unmarshal", "internal/persist/marshaler.go"), ("Load", "internal/feat/resume/resume-plugin.go"), ("crown/resides", "internal/feat/resume/strategy-spawn.go")],
  "error of Navigate, panics, and the paths of the nodes presented")
p("P29", "Errors are told apart, and say what they are about",
  "Each kind of error that agenor defines is recognised, by errors.Is or errors.As or by the predicate provided for it, as itself and as no other kind, however it's wrapped or joined with other errors; IsBenignError recognises precisely those that contain fs.SkipDir or fs.SkipAll, and nil. The text of an error isn't that of another kind, and contains the particulars it was created with (pattern, path, topic, state, destination of a saved session, reason for not having saved it), whatever characters they consist of, also when texts are asked for at the same time.",
  ["inputs", "schedules"], "every kind of error, every particular, every way to wrap and combine them",
  "The tests look at some predicates with the error itself and at one text.",
  ["locale/messages-errors.go", "core/errors.go", "stock/error.go", "collections/errors.go"],
  [("Is… predicates and Unwrap", "locale/messages-errors.go"), ("errors", "core/errors.go"), ("IsBenignError", "stock/error.go")],
  "answers of the predicates, texts")
p("P30", "The saved form of options is faithful, and differences are noticed",
  "Converting options to the form that is saved, and back, keeps every setting that form has a place for, whatever its value; what is written to a file and read from it are the same options and the same state of the session. The comparison that guards both saving and loading reports an error (ErrUnEqualConversion) exactly if any one of these settings differs, including definitions that only one of the two has; of a value, the error names the setting and says both values. A failure to write or read the file is reported as it is.",
  ["inputs", "configurations"], "every combination of values, every single difference between the options and their saved form",
  "Tests alter one field at a time of default options.",
  ["internal/persist/json-options.go", "internal/persist/comparison.go", "internal/persist/marshaler.go", "internal/opts/json"],
  [("ToJSON/FromJSON", "internal/persist/json-options.go"), ("Equals", "internal/persist/comparison.go"), ("Marshal/Unmarshal", "internal/persist/marshaler.go")],
  "settings by path in both forms, results of the comparison")
p("P31", "A traversal that fails is logged, once",
  "The logger given by the client (the last one given) receives exactly one record for a prime session whose traversal fails for whatever reason (the callback, the file system, a handler's decision, a panic), at error level and with the text of the error that Navigate returns; it receives none for a session that succeeds, is cut short by a skip request or goes to sleep. A resumed session that fails is logged at most once. The traversal is the same with a logger as without, and with Run as with Walk.",
  ["inputs", "configurations", "fault_sequences"], "every traversal, every failure at every node",
  "No test looks at what is logged.",
  ["internal/kernel/mediator.go", "pref/options-log.go", "stock/error.go"],
  [("Navigate", "internal/kernel/mediator.go"), ("WithLogger", "pref/options-log.go")],
  "records received by the client's log handler, result of Navigate")

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
