#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))
PR="modelchecker/processor.go"; TH="modelchecker/thread.go"; IN="modelchecker/invariants.go"
p("C01","Exploration is exactly the interleaving semantics of the spec",
  "For every specification the explored yield-point graph contains all and only the behaviours the language semantics allows: atomic bodies run without interruption, serial bodies may be interrupted between statements, oneof takes exactly one alternative, parallel runs every statement once in any order, if/for/while/break/continue/return/require behave as documented, and concurrently running actions interleave at every yield point. No reachable state is missing, no unreachable state is reported, and a transition that is disabled (false require, empty choice, nothing executed) leaves no trace.",
  ["programs","schedules"],"every program built from the statement forms and flows, every interleaving of its actions up to the configured concurrency",
  "The existing tests run a few dozen fixed specs and compare state counts; they cannot quantify over programs, nor over which states are in the graph rather than how many.",
  [PR,TH,"modelchecker/protopath.go"],[("statement execution and program counters",TH),("yield/fork scheduling",PR),("next program counter lookup","modelchecker/protopath.go")],
  [("Process.Threads","live threads with frames, scopes, program counters",TH)],["nodes and links returned by Processor.Start","graph dump"])
p("C02","Safety verdict is exact",
  "A run that explores the whole bounded state space reports an always assertion as failed if and only if some reachable yield state falsifies it, and otherwise reports success. When it reports failure it names a falsified assertion.",
  ["programs","schedules","inputs"],"every program and every assertion over its state variables, including stateful ones evaluated after nondeterministic choices and crashes",
  "Tests use assertions with one known outcome; soundness of 'PASSED' needs every reachable state to be checked for every spec.",
  [PR,IN,"main.go"],[("invariant evaluation at yield points",IN),("processNode short circuits on duplicates",PR),("verdict printing","main.go")],(),["exit output PASSED/FAILED","failed node invariants"])
p("C03","Transition assertions see every step exactly once with true before/after",
  "A transition assertion fails if and only if some step of an action, of a running action's continuation or of a message's handler leads from a state to a successor that violates it, where before and after are the true values of the state variables around that step. Steps leading to an already known state are checked too.",
  ["programs","schedules"],"every program, every pair of consecutive states of every schedule",
  "Tests sample a couple of monotonicity specs; duplicates, self loops and mid-action steps are what matters and needs all of them.",
  [IN,PR],[("CheckTransitionInvariants before dedup",PR),("before/after snapshot",IN)],(),["verdict","link failed invariants"])
p("C04","Exists assertions are decided by reachability",
  "An exists assertion (and nested exists) is reported as never reached if and only if no reachable yield state satisfies it.",
  ["programs","schedules"],"every program and predicate",
  "A handful of examples have a witness; absence and late or duplicate witnesses need the whole space.",
  [IN,"main.go"],[("witness recording and final check",IN),("expected-states report","main.go")],(),["verdict"])
p("C05","Deadlock verdict is exact",
  "With deadlock detection on, a deadlock is reported if and only if some reachable state has no enabled transition (a step of an action, of a running action or of a message; crashes do not count) within the configured limits, where reaching the bound on the total number of actions does not count as having none; with detection off none is reported. All exploration modes agree.",
  ["programs","schedules","configurations"],"every program, limit setting and exploration mode",
  "Tests contain a few deadlocking specs, none enumerates programs where the only successor is a self loop, a thread, a message or a crash.",
  ["modelchecker/graph.go",PR,"main.go"],[("deadlock scan in graph traversal","modelchecker/graph.go"),("early deadlock in processed-queue mode",PR)],(),["verdict"])
p("C06","Liveness verdict respects fairness",
  "With the strict (default) liveness check, an 'eventually always' or 'always eventually' assertion is reported as violated if and only if there is an infinite behaviour of the specification (including stopping forever when nothing fair forbids it; crashes happen only finitely often; an action that started and can go on does go on) that violates the assertion and satisfies every declared weak and strong fairness assumption of actions and choices. The counterexample reported is such a behaviour: a path of the state graph that ends in a fair cycle, on which the assertion fails.",
  ["programs","schedules","histories"],"every finite state graph, fairness labelling and predicate",
  "Tests cover a few named algorithms; the quantifier is over all infinite paths of all graphs.",
  [IN,"modelchecker/graph.go","main.go"],[("strict and fast liveness search",IN)],(),["verdict"])
p("C07","Distinct states are never merged",
  "Two states are treated as the same only if they agree on every observable that can influence the future: values and types of state variables and role fields, local variables and arguments of running actions, the position of each running action, pending messages, and consumed limits. Merging therefore never hides a behaviour.",
  ["programs","inputs"],"every pair of reachable states of every program, over all value types",
  "A hash collision of two different states silently removes behaviours; no test enumerates pairs of states.",
  [PR,TH,"lib/jsonmarshaller.go","lib/starlark_role.go","modelchecker/channel_message.go"],[("process/thread/frame/heap hash",PR),("value rendering used by the hash","lib/jsonmarshaller.go")],(),["reachable states","verdict"])
p("C08","Alternative branches are isolated from each other",
  "Executing one alternative (another action, another choice, a crash, an assertion, a lookahead) never changes the values seen by any other alternative or by the state it branched from, while references shared inside one state stay shared in each successor exactly as in Python.",
  ["programs","schedules"],"every mutable value type reachable from state variables, locals, loop ranges, arguments, messages and role fields, every pair of sibling branches",
  "Leaks of shared mutable values only show under particular sibling orders; tests use mostly scalar states.",
  ["modelchecker/clone.go",TH,PR,"lib/starlark_role.go"],[("deep clone with reference map","modelchecker/clone.go"),("Process.Fork",PR)],(),["reachable states"])
p("C09","Symmetry reduction preserves verdicts and states up to renaming",
  "For interchangeable values and roles, exploration with symmetry reduction loses no behaviour and adds none up to renaming (states, steps, returned values), never explores two states that differ only in the names, and gives the verdicts of the unreduced state space for assertions, exists assertions, deadlocks and liveness.",
  ["programs","schedules","configurations"],"every program using symmetric roles/values in variables, collections, locals, messages",
  "Requires comparing with the unreduced space on every program; tests check a few counts.",
  [PR,"modelchecker/symmetry_check.go","modelchecker/state_visitor.go","lib/symmetry.go"],[("permutation enumeration and canonical hash",PR),("symmetric value visitor","modelchecker/state_visitor.go")],(),["reachable states","verdict"])
p("C10","Crashes are explored at every yield point with durable state kept",
  "With crash-on-yield enabled, at each yield point an action reaches the branch where that action stops forever is explored with all state kept. For roles with a durability declaration, from every yield point (those after other crashes included) the branch is explored where one instance's ephemeral fields return to the values they had when its Init ended, its durable fields keep theirs, the actions running in that instance vanish, and nothing else changes - every time, whatever happened to the fields since; only an instance waiting for a call it made to another role does not crash meanwhile. With crash-on-yield disabled no such branch exists; disabled for one action, that action is not stopped by a crash of its own.",
  ["programs","crash_points","fault_sequences"],"every yield point of every action, repeated crashes of several instances, every split of fields into durable and ephemeral",
  "Tests check a few crash counts; repeated crashes, several instances and mutable ephemeral values need enumeration.",
  [PR,"modelchecker/durability.go",TH],[("crashThread/crashRole/ResetEphemeralVariables",PR),("durability spec","modelchecker/durability.go")],(),["reachable states","crash links"])
p("C11","Functions and roles follow call, scoping and return rules",
  "A call binds positional, named and default arguments, runs the callee with its own locals and the receiver as self, returns its value only to the assigned variable, and leaves the caller's other variables untouched; each role instance has its own fields and identity; assignments inside functions, loops and branches reach state variables, fields or locals as the language's scoping defines. This holds also when several calls run concurrently and interleave.",
  ["programs","schedules"],"every call shape (nesting, recursion depth, argument style, receiver) and every interleaving at yield points in callees",
  "The tests have few role programs with fixed shapes.",
  [TH,PR,"lib/starlark_role.go"],[("call/return statements",TH),("variable update rules",PR)],(),["reachable states","returns"])
p("C12","Messages are delivered exactly once, in every order the channel allows",
  "A call through a channel stub leaves the caller running and puts exactly one message in flight; each in-flight message can be delivered at any later yield point, is delivered exactly once with the arguments of the send, to the addressed instance, and undelivered messages are part of the state.",
  ["programs","schedules"],"every number of in-flight messages, every delivery order, several channels and receivers",
  "Existing channel examples have one or two messages; exactly-once over all delivery orders needs enumeration.",
  [PR,"modelchecker/channel_message.go","lib/starlark_channels.go",TH],[("scheduleChannelMessages/addChannelMessage",PR),("message clone and hash","modelchecker/channel_message.go")],(),["reachable states"])
p("C13","Configured bounds are honoured exactly",
  "Exploration covers every behaviour within max_actions, max_concurrent_actions and the per-action, per-role and per-instance action and concurrency limits, and every state and step it covers belongs to a behaviour within those limits: nothing exceeds a bound and nothing within the bounds is dropped. Options in the front matter override those in fizz.yaml, which override the defaults; every option set in either place takes effect.",
  ["programs","configurations"],"every combination of limits on every small program",
  "Limits interact with merging of states that consumed different amounts; tests only check counts of some specs.",
  [PR,"modelchecker/options.go","main.go"],[("ExceedsActionCountLimits/YieldNode/YieldFork",PR),("applyDefaultStateOptions","main.go")],(),["reachable states"])
p("C14","All exhaustive exploration modes agree",
  "Breadth-first, depth-first, random order, processed-queue and no-graph exploration visit the same set of states and give the same verdict (safety, transition, exists, deadlock) for the same specification and bounds, whatever the seed.",
  ["programs","configurations","schedules"],"every program x every mode x seeds",
  "Tests run nearly everything in BFS.",
  [PR,"lib/queue.go","lib/stack.go","lib/randomqueue.go","main.go"],[("Start/startProcessedQueue",PR),("queues","lib/randomqueue.go")],(),["reachable states","verdict"])
p("C15","Counterexamples are real executions and replay",
  "Every reported counterexample trace starts in the initial state, each consecutive pair is a legal step of the specification, and its last state (or step, cycle, or stuck state) really violates the reported property; when it contains no crash, feeding the names of its steps back as a guided trace (continuations of running actions are implied), under the same limits, reaches that same state and violation, and shows nothing but executions; extended by one step it shows every action enabled there. The trace printed, the exported error path and error graph are that counterexample.",
  ["programs","schedules","histories"],"every failing program and every failure kind",
  "Tests compare verdict strings only.",
  [PR,"modelchecker/trace.go","modelchecker/graph.go","main.go"],[("failure path extraction","main.go"),("ShouldScheduleNode guided trace","modelchecker/trace.go")],(),["error graph/trace files","guided trace run"])
p("C16","Simulation only shows real behaviours, can show all of them, and is reproducible",
  "Every simulated run is a behaviour that exhaustive exploration of the same specification has (threads may crash, role instances are not crashed). A run fails with an always or transition assertion or a deadlock if and only if the path it took violates the assertion or ends where no action, thread or message has a step, and a liveness violation it reports is real. For every behaviour some sequence of random choices leads to it. The seed determines the run completely: in process, through the library, and through the binary, which prints the seed that reproduces a failure; runs of one session do not influence each other.",
  ["programs","schedules","configurations"],"every program x every sequence of random choices of a run, runs up to a length",
  "Tests run one seed of one spec.",
  [PR,"pkg/modelchecker/simulation.go","lib/randomqueue.go","main.go"],[("StartSimulation",PR)],(),["simulated path","verdict","seed"])
p("C17","next_states() is exactly the one-step successor relation",
  "Inside an always assertion, next_states() lists exactly one entry per enabled transition of the checked state, with correct name, kind, role and successor state at its first yield point, ignoring exploration bounds and excluding crashes; calling it changes neither the explored states nor any other verdict.",
  ["programs","schedules","configurations"],"every reachable state of every program in every exploration mode",
  "Reference examples check four specs.",
  [PR,IN],[("probeNextStates/makeProber",PR)],(),["assertion verdicts","reachable states"])
p("C18","The exported graph equals the explored graph",
  "The node and link files, graph.dot and communication.dot describe exactly the explored states and steps: the same states, the same steps with source, target, name, type, labels, messages, returned values and thread renaming, the initial state first, links of a state with equal weights that sum up to 1, an \"end\" self-loop exactly at states without steps; graph.dot marks exactly the violating states and steps and shows the fairness of the others; the communication diagram shows exactly the role actions and the calls that happen.",
  ["programs"],"every explored graph",
  "No test reads the exported files back.",
  ["modelchecker/graph.go","modelchecker/visualization.go","main.go"],[("GenerateProtoOfJson","modelchecker/graph.go")],(),["nodes_*.pb, adjacency/links files, graph.dot, communication.dot"])
p("C19","Composition/refinement accepts exactly the joint behaviours",
  "When specifications are composed, their combined steps are the combinations of component steps (standing still included) that change the interface in the same way; a violation of an assertion by an initial combined state or a combined step that can be reached is reported, and one that no combination of component steps violates is not, and the step shown violates it. A refinement is rejected if some step of the refining spec has no step (or standing still) with the same interface values in every refined spec, and accepted if all steps have one and start at a common initial value.",
  ["programs","schedules"],"every pair of small specs and shared actions/mappings",
  "At most a couple of examples exist.",
  [IN,PR,"modelchecker/composition_types.go","main.go"],[("CheckRefinement and JoinHashes",IN)],(),["verdict"])
p("C20","Probabilistic and performance results are numerically right",
  "Steady-state probabilities, termination, expected counters and latency percentiles computed from a graph and a performance model equal the exact values of the corresponding Markov chain, independent of node numbering.",
  ["inputs","configurations"],"every small transition graph and probability/cost assignment",
  "The unit tests contain three chains.",
  ["modelchecker/markovchain.go","modelchecker/perf_checker.go"],[("steady state iteration","modelchecker/markovchain.go")],(),["computed distribution"])
p("C21","Set, bag and map types behave like their mathematical models",
  "genericset, genericmap, bag and their operators, methods, comparison, membership, iteration and copies agree with mathematical sets, multisets and maps for every sequence of operations and every element type, including unhashable elements, and copies never share mutable structure they should not.",
  ["inputs","histories"],"every operation sequence up to a length over a small element universe",
  "lib has unit tests for the JSON marshaller only.",
  ["lib/starlark_types.go"],[("GenericSet/Bag/GenericMap","lib/starlark_types.go")],(),["results visible to specs"])
p("C22","Built-in helpers compute what they document",
  "record, enum, math and itertools-style helpers (product, permutations, combinations, chain, ...), queues and stacks return exactly the results of their Python counterparts for all argument shapes.",
  ["inputs","histories"],"every argument tuple over small universes, every operation sequence on queues/stacks",
  "permutations is sampled by one test; the others have none.",
  ["lib/starlark_itertools.go","lib/permutations.go","lib/starlarkstruct.go","lib/queue.go","lib/stack.go","lib/starlark_types.go"],[("itertools","lib/starlark_itertools.go")],(),["results visible to specs"])
p("C23","Symmetry domains allocate and compare as documented",
  "fresh(), values(), choose/min/max/next-style operations and the limits, divergence, segments and reflection options of nominal, ordinal, interval and rotational domains return the documented identifiers for every combination of values currently in use, a transition needing an unavailable value is disabled, and states are merged exactly when they are equal up to the domain's own symmetry group.",
  ["programs","histories","configurations"],"every allocation/release history over small domains of each kind",
  "Examples fix one kind with one option each.",
  ["lib/symmetry.go","modelchecker/symmetry_check.go","modelchecker/state_visitor.go",PR],[("symmetry domains","lib/symmetry.go"),("orbit enumeration",PR)],(),["reachable states"])
p("C24","The model-based-testing client runs and reports exactly the requested actions",
  "For every request the Go test plugin executes exactly the listed actions on the addressed role instances with the given arguments, in order within a sequence, reports for each its own status and return value, never reports success for an action that did not run or failed, and converts values both ways without loss.",
  ["inputs","fault_sequences","schedules"],"every small action sequence, every failure position, every value shape",
  "The plugin has no tests.",
  ["mbt/lib/go/plugin_service.go","mbt/lib/go/plugin.go"],[("ExecuteActionSequences","mbt/lib/go/plugin_service.go")],(),["gRPC responses"])
p("C25","The same run gives the same answer every time",
  "Running the checker twice on the same specification and options gives the same states, steps, names, messages, counts, verdict, counterexample and output files, independent of the iteration order of maps, of timing and of earlier runs in the same process (up to the numbering of started actions and to times and paths that are printed).",
  ["programs","configurations","schedules"],"every program, repeated runs in fresh and reused processes",
  "Flaky order effects need repeated comparison over many programs.",
  [PR,"modelchecker/graph.go",IN,"lib/starlark_role.go"],[("sorted traversal and hashing",PR)],(),["verdict, graph, trace"])
p("C26","Constants are fixed, hooks override them, state variables are isolated from them",
  "Top-level constants are evaluated once before Init, can be replaced (only) by the pre-init hook, are visible in Init, actions, functions, roles and assertions, cannot be modified by any step, and are not part of the state; local names shadow them only locally.",
  ["programs","configurations"],"every constant type, hook and shadowing position",
  "One example per feature.",
  [PR,"main.go"],[("processPreInit",PR)],(),["reachable states"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
