package checks

import (
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"time"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
)

// realPath: the path starts in the initial state and every link exists.
func realPath(root *mc.Node, path []*mc.Link) string {
	if len(path) == 0 || path[0].Node != root {
		return "does not start in the initial state"
	}
	for i := 1; i < len(path); i++ {
		ok := path[i].Name == "stutter" && path[i].Node == path[i-1].Node && i == len(path)-1
		for _, l := range path[i-1].Node.Outbound {
			ok = ok || l.Node == path[i].Node && l.Name == path[i].Name
		}
		if !ok {
			return fmt.Sprintf("has a step %q that does not exist", path[i].Name)
		}
	}
	return ""
}

// execution: the path is an execution of the reference; returns the reference
// states after each of its steps.
func execution(rg *ref.Graph, path []*mc.Link) (*impl.Graph, [][]int, string) {
	if n := len(path); n > 1 && path[n-1].Name == "stutter" {
		path = path[:n-1]
	}
	ch, whole := impl.Chain(path)
	if !whole {
		return nil, nil, "ends in the middle of a step"
	}
	sets, msg := lts.Accept(rg.LTS, ch.LTS)
	if msg != "" {
		return nil, nil, "is not an execution: " + msg
	}
	return ch, sets, ""
}

func pathNames(path []*mc.Link) []string {
	var out []string
	for _, l := range path {
		out = append(out, l.Name)
	}
	return out
}

// guide is the trace to feed back: everything after Init, the continuations
// of running actions are implied.
func guide(path []*mc.Link) []string {
	var out []string
	for _, l := range path[1:] {
		if !strings.HasPrefix(l.Name, "thread-") && l.Name != "stutter" {
			out = append(out, l.Name)
		}
	}
	return out
}

// long traces leave open how running actions interleave: a guided run tries
// all ways, without recognising states.
func long(names []string, opt *ast.StateSpaceOptions) bool {
	return opt.Options.MaxConcurrentActions > 1 && len(names) > 5
}

// violated tells whether the reference confirms the violation at the end of
// an execution.
func (j *judged) violated(ch *impl.Graph, sets [][]int, k int) bool {
	end := sets[len(sets)-1]
	inv := j.invs[k]
	if inv.Block != nil && inv.TemporalOperators[0] == "transition" {
		prev := sets[len(sets)-2]
		for _, a := range prev {
			for i, st := range j.rg.Steps[a] {
				if slices.Contains(end, j.rg.Tos[a][i]) && !transTruth(j.rg.Cfgs[a], st.To, inv) {
					return true
				}
			}
		}
		return false
	}
	n := ch.Nodes[len(ch.Nodes)-1]
	return j.badObs(k)[j.obsRet(n.Process)]
}

type invKind struct {
	name string
	rank int
}

func kindOf(inv *ast.Invariant) invKind {
	switch {
	case inv.Block == nil:
		return invKind{"invariant", 0}
	case inv.TemporalOperators[0] == "transition":
		return invKind{"transition", 1}
	case len(inv.TemporalOperators) > 1:
		return invKind{"liveness", 2}
	}
	return invKind{"invariant", 0}
}

// step of the trace the binary prints.
type printed struct{ name, state string }

var rePrinted = regexp.MustCompile(`(?m)^------\n(.*)\n--\nstate: (.*)$`)

func printedTrace(t string) []printed {
	var out []printed
	for _, m := range rePrinted.FindAllStringSubmatch(t, -1) {
		out = append(out, printed{m[1], m[2]})
	}
	return out
}

func jsonEq(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// sameNode compares exported nodes, but for the numbers of threads.
func sameNode(a, b string) bool {
	var x, y map[string]any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	for _, m := range []map[string]any{x, y} {
		ts, _ := m["threads"].([]any)
		for _, t := range ts {
			if t, ok := t.(map[string]any); ok {
				delete(t, "id")
			}
		}
	}
	return reflect.DeepEqual(x, y)
}

// reportOf runs the binary and compares the counterexample it prints and
// writes with the given path.
func reportOf(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, path []*mc.Link, verdict string) bool {
	var nodes ast.Nodes
	var links ast.Links
	var eg []map[string]any
	var dot string
	o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, func(dir, out string) {
		read := func(n string, m proto.Message) {
			if b, err := os.ReadFile(filepath.Join(out, n)); err == nil {
				_ = proto.Unmarshal(b, m)
			}
		}
		read("nodes_errors.pb", &nodes)
		read("adjacency_lists_errors.pb", &links)
		if b, err := os.ReadFile(filepath.Join(out, "error-graph.json")); err == nil {
			_ = json.Unmarshal(b, &eg)
		}
		b, _ := os.ReadFile(filepath.Join(out, "error-graph.dot"))
		dot = string(b)
	})
	c.Count("cli_runs", 1)
	if o.Verdict != verdict {
		c.Fail("cli-verdict", "the run reports %v, expected %s\n%s\n%s", o, verdict, tail(o.Text), specText(f))
		return false
	}
	bad := func(format string, a ...any) bool {
		c.Fail("cli-trace", "%s\npath %v\n%s\n%s", fmt.Sprintf(format, a...), pathNames(path), o.Text, specText(f))
		return false
	}
	ps := printedTrace(o.Text)
	if len(ps) != len(path) {
		return bad("the printed trace has %d steps, the counterexample %d", len(ps), len(path))
	}
	for i, l := range path {
		if ps[i].name != l.Name || !jsonEq(ps[i].state, l.Node.Heap.ToJson()) {
			return bad("printed step %d is %v, expected %s %s", i, ps[i], l.Name, l.Node.Heap.ToJson())
		}
		if want := fmt.Sprintf("%d: %s\"", i, strings.ReplaceAll(l.Name, "\"", "\\\"")); i > 0 && !strings.Contains(dot, want) {
			return bad("error-graph.dot has no step %s", want)
		}
	}
	if len(eg) != len(path) {
		return bad("error-graph.json has %d steps, the counterexample %d", len(eg), len(path))
	}
	for i, l := range path {
		if eg[i]["Name"] != l.Name {
			return bad("step %d of error-graph.json is %v", i, eg[i]["Name"])
		}
	}
	if len(nodes.Json) != len(path) || len(links.Links) != len(path)-1 || int(links.TotalNodes) != len(path) && len(path) > 1 {
		return bad("the exported error path has %d nodes and %d links (total %d)", len(nodes.Json), len(links.Links), links.TotalNodes)
	}
	for i, l := range path {
		if !sameNode(nodes.Json[i], l.Node.GetJsonString()) {
			return bad("node %d of the exported error path is %s", i, nodes.Json[i])
		}
		if i > 0 {
			if x := links.Links[i-1]; x.Name != l.Name || int(x.Src) != i-1 || int(x.Dest) != i {
				return bad("link %d of the exported error path is %v", i-1, x)
			}
		}
	}
	return true
}

// counter: every counterexample of an assertion is an execution of the
// reference that ends in the violation; the binary prints that execution and
// guiding a run along it violates the same assertion.
func counter(invs func() []*ast.Invariant, crash bool, cliEvery int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		no := false
		opt.DeadlockDetection = &no
		ivs := invs()
		slices.SortStableFunc(ivs, func(a, b *ast.Invariant) int { return kindOf(a).rank - kindOf(b).rank })
		n := 0
		for n < len(ivs) && kindOf(ivs[n]).rank == 0 {
			n++
		}
		j := judge(c, withQ(f), opt, ivs[:n])
		if j == nil {
			return
		}
		j.invs = ivs
		for k, inv := range j.invs {
			kind := kindOf(inv).name
			fk := j.with(k)
			for mi, m := range []impl.Mode{{}, {Processed: true}, {Strategy: "dfs"}, {Strategy: "random", Seed: 9}} {
				if kind == "liveness" && mi > 0 {
					continue
				}
				r, err := impl.Run(fk, opt, m)
				if err != nil || r.Err != nil {
					c.Fail("crash", "%v\n%s", err, specText(fk))
					return
				}
				var path []*mc.Link
				if kind == "liveness" {
					if r.Failed != nil {
						continue
					}
					nodes, _, _, _ := mc.GetAllNodes(r.Root, opt.Options.MaxActions)
					path, _ = mc.CheckStrictLiveness(r.Root, nodes)
					if path == nil {
						continue
					}
				} else {
					if r.Failed == nil {
						continue
					}
					path = mc.ExtractFailurePath(r.Failed, r.Root)
				}
				c.Count("counterexamples", 1)
				c.Count("traces", 1)
				if msg := realPath(r.Root, path); msg != "" {
					c.Fail("path", "mode %+v: the counterexample of %s %s: %v\n%s", m, inv.Name, msg, pathNames(path), specText(fk))
					return
				}
				ch, sets, msg := execution(j.rg, path)
				if msg != "" {
					c.Fail("path", "mode %+v: the counterexample of %s %s: %v\n%s", m, inv.Name, msg, pathNames(path), specText(fk))
					return
				}
				if kind == "liveness" {
					if msg := lasso(r.Root, path, isAE(inv)); msg != "" {
						c.Fail("path", "the counterexample of %s %s: %v\n%s", inv.Name, msg, pathNames(path), specText(fk))
						return
					}
				} else if !j.violated(ch, sets, k) {
					c.Fail("end", "mode %+v: the counterexample of %s ends in %s, which does not violate it: %v\n%s", m, inv.Name, j.obsRet(ch.Nodes[len(ch.Nodes)-1].Process), pathNames(path), specText(fk))
					return
				}
				useCLI := mi == 0 && cliEvery > 0 && (hash(c.Case)+k)%cliEvery == 0
				if useCLI && !reportOf(c, fk, opt, path, kind) {
					return
				}
				if kind == "liveness" {
					continue
				}
				names := guide(path)
				if len(names) == 0 || long(names, opt) {
					continue
				}
				gt, err := mc.ParseTraceString(strings.Join(names, "\n"))
				if err != nil {
					panic(err)
				}
				r2, err := impl.Run(fk, opt, impl.Mode{Trace: gt})
				c.Count("replays", 1)
				if err != nil || r2.Err != nil {
					c.Fail("crash", "%v\n%s", err, specText(fk))
					return
				}
				if r2.Failed == nil {
					c.Fail("replay", "mode %+v: guided by the counterexample %v of %s, the run does not fail\n%s", m, names, inv.Name, specText(fk))
					return
				}
				if useCLI && !crash && opt.Options.MaxConcurrentActions == 1 {
					o := cli.Run([]cli.Spec{cli.Named("spec", fk)}, nil, nil, "--trace", strings.Join(names, "\n"))
					c.Count("cli_runs", 1)
					if o.Verdict != kind || o.Names[0] != inv.Name {
						c.Fail("cli-replay", "--trace %q reports %v, expected %s %s\n%s\n%s", names, o, kind, inv.Name, o.Text, specText(fk))
						return
					}
					o = cli.Run([]cli.Spec{cli.Named("spec", fk)}, opt, nil, "--experimental_no_graph")
					c.Count("cli_runs", 1)
					_, again, ok := strings.Cut(o.Text, "=== Replaying trace")
					v, ns := cli.Parse(again)
					if !ok || v != kind || ns[0] != inv.Name {
						c.Fail("cli-nograph", "the replay after a failure without a graph reports %v %v, expected %s %s\n%s\n%s", v, ns, kind, inv.Name, o.Text, specText(fk))
						return
					}
				}
			}
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(j.rg.Cfgs), "assertions": len(j.invs)})
	}
}

// stuck: the counterexample of a deadlock is an execution into a state
// without successors.
func stuck(crash bool, useCLI bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		yes := true
		opt.DeadlockDetection = &yes
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		c.Count("programs", 1)
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		dead := map[int]bool{}
		obs := deadStates(rg)
		for i := 1; i < len(rg.Cfgs); i++ {
			live := false
			for _, st := range rg.Steps[i] {
				live = live || st.Kind != "crash" && st.Kind != "rolecrash"
			}
			dead[i] = !live
		}
		if len(obs) == 0 {
			return
		}
		for mi, m := range []impl.Mode{{}, {Processed: true}, {Strategy: "dfs"}, {Processed: true, Strategy: "random", Seed: 3}} {
			r, err := impl.Run(f, opt, m)
			if err != nil || r.Err != nil {
				c.Fail("crash", "%v\n%s", err, specText(f))
				return
			}
			n := r.P.GetEarlyDeadlock()
			if n == nil {
				_, _, n, _ = mc.GetAllNodes(r.Root, opt.Options.MaxActions)
			}
			if n == nil {
				continue
			}
			path := mc.ExtractFailurePath(n, r.Root)
			c.Count("counterexamples", 1)
			c.Count("traces", 1)
			if msg := realPath(r.Root, path); msg != "" {
				c.Fail("path", "mode %+v: the path to the deadlock %s: %v\n%s", m, msg, pathNames(path), specText(f))
				return
			}
			_, sets, msg := execution(rg, path)
			if msg != "" {
				c.Fail("path", "mode %+v: the path to the deadlock %s: %v\n%s", m, msg, pathNames(path), specText(f))
				return
			}
			end := sets[len(sets)-1]
			if !slices.ContainsFunc(end, func(i int) bool { return dead[i] }) {
				c.Fail("end", "mode %+v: the path to the deadlock ends where steps are possible: %v\n%s", m, pathNames(path), specText(f))
				return
			}
			if mi == 0 && useCLI && !reportOf(c, f, opt, path, "deadlock") {
				return
			}
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "deadlocks": keys(obs)})
	}
}

func where(p *mc.Process) string { return impl.Obs(p) + fmt.Sprint(impl.ThreadRoots(p)) }

// replayAll: a run guided along the path to any state reaches that state,
// shows only executions, and, extended by one step, every action enabled there.
func replayAll(crash bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		no := false
		opt.DeadlockDetection = &no
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		c.Count("programs", 1)
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		r, err := impl.Run(f, opt, impl.Mode{})
		if err != nil || r.Err != nil || r.Root == nil {
			c.Fail("crash", "%v\n%s", err, specText(f))
			return
		}
		ig := impl.Extract(r.Root)
		for i := 1; i < len(ig.Nodes); i++ {
			n := ig.Nodes[i]
			path := mc.ExtractFailurePath(n, r.Root)
			if msg := realPath(r.Root, path); msg != "" {
				c.Fail("path", "the path to %s %s: %v\n%s", where(n.Process), msg, pathNames(path), specText(f))
				return
			}
			if _, _, msg := execution(rg, path); msg != "" {
				c.Fail("path", "the path to %s %s: %v\n%s", where(n.Process), msg, pathNames(path), specText(f))
				return
			}
			names := guide(path)
			c.Count("traces", 1)
			if len(names) == 0 || long(names, opt) {
				continue
			}
			for _, ext := range []int{0, 1} {
				gt, err := mc.ParseTraceString(strings.Join(names, "\n"))
				if err != nil {
					panic(err)
				}
				gt.ExtendDepth = ext
				r2, err := impl.Run(f, opt, impl.Mode{Trace: gt})
				c.Count("replays", 1)
				if err != nil || r2.Err != nil {
					c.Fail("crash", "guided by %v: %v\n%s", names, err, specText(f))
					return
				}
				if !gt.IsExhausted() {
					c.Fail("incomplete", "guided by %v, the run says it did not finish the trace\n%s", names, specText(f))
					return
				}
				g2 := impl.Extract(r2.Root)
				d, _, err := lts.Compare(rg.LTS, g2.LTS, 2, 100000)
				if err != nil {
					panic(err)
				}
				if d != nil {
					c.Fail("spurious", "guided by %v (extended by %d): %v\n%s", names, ext, d, specText(f))
					return
				}
				var at []int
				for k := 1; k < len(g2.Nodes); k++ {
					if where(g2.Nodes[k].Process) == where(n.Process) {
						at = append(at, k)
					}
				}
				if len(at) == 0 {
					c.Fail("replay", "guided by %v (extended by %d), the run does not reach %s\n%s", names, ext, where(n.Process), specText(f))
					return
				}
				if ext == 0 {
					continue
				}
				for x, e := range ig.LTS.Out[i] {
					if len(ig.Paths[i][x]) == 0 || ig.Paths[i][x][0].Type != "action" {
						continue
					}
					found := false
					for _, k := range at {
						for _, e2 := range g2.LTS.Out[k] {
							found = found || e2.Label == e.Label && where(g2.Nodes[e2.To].Process) == where(ig.Nodes[e.To].Process)
						}
					}
					if !found {
						c.Fail("extend", "guided by %v and extended by one step, %s to %s is missing\n%s", names, e.Label, ig.LTS.Obs[e.To], specText(f))
						return
					}
				}
			}
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "nodes": len(ig.Nodes) - 1})
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C15",
		Technique: "exhaustive enumeration of programs, assertions and exploration modes; every counterexample is run in the reference state graph, compared with what the binary prints and writes, and fed back as a guided trace; every path of every explored graph is fed back too",
		Rule:      "one or two actions of the catalogue (alone and concurrent, with crashes), role, channel, deadlocking and mid-step families; always, transition and liveness assertions that fail, deadlocks, and every reachable state as the goal of a guided trace",
		Cases: func(tier string) []fw.Case {
			every := 7
			if tier == "thorough" {
				every = 1
			}
			mix := func() []*ast.Invariant {
				return append(append(pairInvs(), pairTrans()...), liveInvs()...)
			}
			out := cat(
				genCases("ce/", pairs(1, 2), counter(mix, false, every)),
				genCases("ce/crash/", pairs(1), counter(mix, true, 0)),
				genCases("dead/", deadSpecs(1, 2), stuck(false, true)),
				genCases("dead/crash/", deadSpecs(2), stuck(true, false)),
				genCases("goto/", pairs(1, 2), replayAll(false)),
				genCases("goto/crash/", pairs(1), replayAll(true)),
				genCases("goto/", midSpecs(1), replayAll(false)),
				genCases("goto/", only(roleSpecs(), "role/c1"), replayAll(false)),
				genCases("goto/", chanSpecs(), replayAll(false)),
			)
			if tier == "thorough" {
				out = cat(out,
					genCases("goto/", not(only(roleSpecs(), "role/c2"), "call"), replayAll(false)),
					genCases("goto/", midSpecs(2), replayAll(false)),
					genCases("goto/", callSpecs(), replayAll(false)),
					genCases("ce/crash/", pairs(2), counter(mix, true, 0)),
				)
			}
			for i := range out {
				out[i].Timeout = 90 * time.Second
			}
			return out
		}})
}
