package checks

import (
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
)

// labelled gives every simple statement a label of its own and some actions a fairness.
func labelled(gs []gen) []gen {
	var out []gen
	for _, g := range gs {
		out = append(out, gen{g.name, func() *ast.File {
			f := g.file()
			n := 0
			var block func(b *ast.Block)
			stmt := func(s *ast.Statement) {
				if s.PyStmt != nil || s.CallStmt != nil || s.ReturnStmt != nil {
					s.Label = fmt.Sprintf("L%d", n)
					n++
				}
				block(s.Block)
				block(s.GetForStmt().GetBlock())
				block(s.GetWhileStmt().GetBlock())
				block(s.GetAnyStmt().GetBlock())
				for _, b := range s.GetIfStmt().GetBranches() {
					block(b.Block)
				}
			}
			block = func(b *ast.Block) {
				for _, s := range b.GetStmts() {
					stmt(s)
				}
			}
			action := func(i int, a *ast.Action) {
				if a.Name != "Init" {
					a.Fairness = &ast.Fairness{Level: []ast.FairnessLevel{ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR, WEAK, STRONG}[i%3]}
					block(a.Block)
				}
			}
			for i, a := range f.Actions {
				action(i, a)
			}
			for _, fn := range f.Functions {
				block(fn.Block)
			}
			for _, r := range f.Roles {
				for i, a := range r.Actions {
					action(i, a)
				}
				for _, fn := range r.Functions {
					block(fn.Block)
				}
			}
			return f
		}, g.opt})
	}
	return out
}

// exportedGraph is what the files of a run describe.
type exportedGraph struct {
	nodes []string
	links ast.Links
	dot   string
	comm  string
	files int
}

func export(f *ast.File, opt *ast.StateSpaceOptions, flags ...string) (*exportedGraph, *cli.Out) {
	e := &exportedGraph{}
	o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, func(dir, out string) {
		fs, _ := filepath.Glob(filepath.Join(out, "nodes_0*.pb"))
		sort.Strings(fs)
		for _, n := range fs {
			var m ast.Nodes
			if b, err := os.ReadFile(n); err == nil && proto.Unmarshal(b, &m) == nil {
				e.nodes = append(e.nodes, m.Json...)
				e.files++
			}
		}
		fs, _ = filepath.Glob(filepath.Join(out, "adjacency_lists_0*.pb"))
		sort.Strings(fs)
		for _, n := range fs {
			var m ast.Links
			if b, err := os.ReadFile(n); err == nil && proto.Unmarshal(b, &m) == nil {
				e.links.Links = append(e.links.Links, m.Links...)
				e.links.TotalNodes = m.TotalNodes
				e.files++
			}
		}
		b, _ := os.ReadFile(filepath.Join(out, "graph.dot"))
		e.dot = string(b)
		b, _ = os.ReadFile(filepath.Join(out, "communication.dot"))
		e.comm = string(b)
	}, flags...)
	return e, o
}

func messageText(m *ast.Message) string {
	if m.IsReturn {
		v := ""
		for _, x := range m.Values {
			v = x.Value
		}
		return fmt.Sprintf("%s>%s %s(return %s)", m.Sender, strings.Join(m.Receivers, ","), m.Name, v)
	}
	var vs []string
	for _, v := range m.Values {
		vs = append(vs, v.Name+"="+v.Value)
	}
	sort.Strings(vs)
	l := ""
	if m.Lossy {
		l = " lossy"
	}
	return fmt.Sprintf("%s>%s %s(%s%s)", m.Sender, strings.Join(m.Receivers, ","), m.Name, strings.Join(vs, ";"), l)
}

// annotated adds the labels and messages of every step to its name.
func annotated(rg *ref.Graph, ig *impl.Graph) (*lts.LTS, *lts.LTS) {
	mark := func(l string, labels, calls []string) string {
		if len(labels)+len(calls) == 0 {
			return l
		}
		return fmt.Sprintf("%s labels %v messages %v", l, labels, calls)
	}
	a, b := &lts.LTS{Obs: rg.LTS.Obs}, &lts.LTS{Obs: ig.LTS.Obs}
	for i, es := range rg.LTS.Out {
		var out []lts.Edge
		for k, e := range es {
			st := rg.Steps[i][k]
			e.Label = mark(e.Label, st.Labels, st.Calls)
			e.Tau = e.Tau && len(st.Labels)+len(st.Calls) == 0
			out = append(out, e)
		}
		a.Out = append(a.Out, out)
	}
	for i, es := range ig.LTS.Out {
		var out []lts.Edge
		for k, e := range es {
			var labels, calls []string
			for _, l := range ig.Paths[i][k] {
				if l.IsCrashLink() {
					continue
				}
				labels = append(labels, l.Labels...)
				for _, m := range l.Messages {
					if m.IsReturn && m.Name == "Init" {
						continue // the end of the creation of a role
					}
					calls = append(calls, messageText(m))
				}
			}
			e.Label = mark(e.Label, labels, calls)
			e.Tau = e.Tau && len(labels)+len(calls) == 0
			out = append(out, e)
		}
		b.Out = append(b.Out, out)
	}
	return a, b
}

// exports: the files a successful run writes describe its graph, which is the graph of
// the reference.
func exports(crash, useCLI bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		no := false
		opt.DeadlockDetection = &no
		opt.Liveness = "false"
		if crash {
			withCrash(opt)
		}
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		r, err := impl.Run(f, opt, impl.Mode{})
		if err != nil || r.Err != nil {
			c.Fail("crash", "%v\n%s", err, specText(f))
			return
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		ig := impl.Extract(r.Root)
		if !compareGraphs(c, rg.LTS, ig.LTS, 0, f) {
			return
		}
		a, b := annotated(rg, ig)
		if !compareGraphs(c, a, b, 0, f) {
			return
		}
		if !useCLI {
			return
		}
		e, o := export(f, opt)
		c.Count("cli_runs", 1)
		bad := func(sig, format string, x ...any) {
			c.Fail(sig, "%s\n%s", fmt.Sprintf(format, x...), specText(f))
		}
		if o.Verdict != "pass" || e.files != 2 {
			bad("cli", "the run reports %v and writes %d files\n%s", o, e.files, tail(o.Text))
			return
		}
		// the exported graph and the explored one, walked together
		at := map[int]*mc.Node{0: r.Root}
		index := map[*mc.Node]int{r.Root: 0}
		next := []int{0}
		if int(e.links.TotalNodes) != len(e.nodes) {
			bad("files", "%d nodes are exported, the links are about %d", len(e.nodes), e.links.TotalNodes)
			return
		}
		from := map[int][]*ast.Link{}
		for _, l := range e.links.Links {
			if l.Src < 0 || int(l.Src) >= len(e.nodes) || l.Dest < 0 || int(l.Dest) >= len(e.nodes) {
				bad("files", "link %v between %d nodes", l, len(e.nodes))
				return
			}
			from[int(l.Src)] = append(from[int(l.Src)], l)
		}
		for len(next) > 0 {
			i := next[0]
			next = next[1:]
			n := at[i]
			if !sameNode(e.nodes[i], n.GetJsonString()) {
				bad("node", "node %d is exported as %s, explored was %s", i, e.nodes[i], n.GetJsonString())
				return
			}
			var state struct {
				State map[string]any
				Name  string
			}
			if json.Unmarshal([]byte(e.nodes[i]), &state) != nil || !jsonEq(mustJSON(state.State), n.Heap.ToJson()) {
				bad("node", "node %d is exported as %s, explored was the state %s", i, e.nodes[i], n.Heap.ToJson())
				return
			}
			var outs []*mc.Link
			for _, l := range n.Outbound {
				if l.Node.Enabled {
					outs = append(outs, l)
				}
			}
			ls := from[i]
			if len(outs) == 0 {
				if len(ls) != 1 || int(ls[0].Dest) != i || ls[0].Name != "end" || ls[0].Weight != 1 {
					bad("end", "node %d without steps has the links %v", i, ls)
					return
				}
				continue
			}
			if len(ls) != len(outs) {
				bad("links", "node %d has %d links, %d are exported", i, len(outs), len(ls))
				return
			}
			sum := 0.0
			for k, l := range ls {
				w := outs[k]
				sum += l.Weight
				if l.Weight != ls[0].Weight {
					bad("weight", "the links of node %d have different weights %v", i, ls)
					return
				}
				var ms, wm []string
				for _, m := range l.Messages {
					ms = append(ms, messageText(m))
				}
				for _, m := range w.Messages {
					wm = append(wm, messageText(m))
				}
				rets := map[string]string{}
				for _, x := range l.Returns {
					rets[x.Name] = x.Value
				}
				wr := map[string]string{}
				for n, v := range w.Returns {
					wr[n] = v.String()
				}
				if l.Name != w.Name || l.Type != w.Type || int(l.ReqId) != w.ReqId || !slices.Equal(l.Labels, w.Labels) || !slices.Equal(ms, wm) || fmt.Sprint(rets) != fmt.Sprint(wr) {
					bad("link", "the link %s %s %v %v %v of node %d is exported as %v", w.Type, w.Name, w.Labels, wm, wr, i, l)
					return
				}
				tm := map[int]int{}
				for x, y := range l.NewToOldThreads {
					tm[int(x)] = int(y)
				}
				if fmt.Sprint(tm) != fmt.Sprint(threadsMap(w)) {
					bad("link", "the link %s of node %d maps the threads %v, exported are %v", w.Name, i, w.ThreadsMap, tm)
					return
				}
				d := int(l.Dest)
				if m, ok := index[w.Node]; ok != (at[d] != nil) || ok && m != d {
					bad("link", "the link %s of node %d leads to node %d, exported is %d", w.Name, i, m, d)
					return
				} else if !ok {
					at[d], index[w.Node] = w.Node, d
					next = append(next, d)
				}
			}
			if sum < 1-1e-9 || sum > 1+1e-9 {
				bad("weight", "the weights of the links of node %d sum up to %v", i, sum)
				return
			}
		}
		if len(at) != len(e.nodes) {
			bad("files", "%d nodes are exported, %d are reached", len(e.nodes), len(at))
			return
		}
		c.Count("nodes", len(at))
		if e.dot == "" && r.P.GetVisitedNodesCount() >= 250 {
			c.Count("no_dot", 1)
		} else if msg := sameDot(e.dot, r.Root); msg != "" {
			bad("dot", "graph.dot %s", msg)
			return
		}
		if msg := sameComm(e.comm, f, rg); msg != "" {
			bad("comm", "communication.dot %s\n%s", msg, e.comm)
		}
	}
}

func threadsMap(l *mc.Link) map[int]int {
	m := map[int]int{}
	for k, v := range l.ThreadsMap {
		m[k] = v
	}
	return m
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var (
	reDotNode = regexp.MustCompile(`(?s)^  "(0x[0-9a-f]+)" \[label="((?:[^"\\]|\\.)*)", color="(\w+)" penwidth="(\d+)" \];\n`)
	reDotEdge = regexp.MustCompile(`(?s)^  "(0x[0-9a-f]+)" -> "(0x[0-9a-f]+)" \[label="((?:[^"\\]|\\.)*)", color="(\w+)" penwidth="(\d+)" \];\n`)
)

// sameDot compares graph.dot with the explored graph.
func sameDot(dot string, root *mc.Node) string {
	type edge struct{ to, label, color, width string }
	type node struct {
		label, color string
		out          []edge
	}
	nodes := map[string]*node{}
	first := ""
	dot, ok := strings.CutPrefix(dot, "digraph G {\n")
	if !ok {
		return "is not a graph: " + tail(dot)
	}
	for dot != "}\n" {
		if m := reDotEdge.FindStringSubmatch(dot); m != nil {
			if nodes[m[1]] == nil {
				return "has a step of an unknown state"
			}
			nodes[m[1]].out = append(nodes[m[1]].out, edge{m[2], m[3], m[4], m[5]})
			dot = dot[len(m[0]):]
		} else if m := reDotNode.FindStringSubmatch(dot); m != nil {
			if nodes[m[1]] != nil {
				return "shows a state twice"
			}
			nodes[m[1]] = &node{label: m[2], color: m[3]}
			if first == "" {
				first = m[1]
			}
			dot = dot[len(m[0]):]
		} else {
			return "has an unreadable line: " + strings.SplitN(dot, "\n", 2)[0]
		}
	}
	quote := func(s string) string { return strings.ReplaceAll(s, "\"", "\\\"") }
	at := map[string]*mc.Node{first: root}
	ids := map[*mc.Node]string{root: first}
	todo := []string{first}
	slash := regexp.MustCompile(`\\+`)
	for len(todo) > 0 {
		id := todo[0]
		todo = todo[1:]
		d, n := nodes[id], at[id]
		if d == nil {
			return "lacks the state " + n.Heap.ToJson()
		}
		if want := slash.ReplaceAllString("State: "+quote(n.Heap.String()), `\`); len(impl.HeapMap(n.Heap)) > 0 && !strings.Contains(d.label, want) {
			return fmt.Sprintf("shows %q for the state %q", d.label, want)
		}
		for _, r := range n.Roles {
			if want := slash.ReplaceAllString(r.RefStringShort()+": "+quote(r.Fields.String()), `\`); !strings.Contains(d.label, want) {
				return fmt.Sprintf("shows %q, but role %q", d.label, want)
			}
		}
		if (d.color == "red") != n.Process.HasFailedInvariants() {
			return fmt.Sprintf("shows the state %s in %s, violations %v", n.Heap.ToJson(), d.color, n.FailedInvariants)
		}
		var outs []*mc.Link
		for _, l := range n.Outbound {
			if l.Node.Process == nil || l.Node.Enabled {
				outs = append(outs, l)
			}
		}
		if len(outs) != len(d.out) {
			return fmt.Sprintf("shows %d steps of the state %s, there are %d", len(d.out), n.Heap.ToJson(), len(outs))
		}
		for k, l := range outs {
			e := d.out[k]
			want := quote(l.Name)
			if len(l.Labels) > 0 {
				want += "[" + strings.Join(l.Labels, ", ") + "]"
			}
			if e.label != want && !strings.HasPrefix(e.label, want+"\n") {
				return fmt.Sprintf("shows the step %q, which is %q", e.label, want)
			}
			if strings.Contains(e.label, "\n returns: ") != (len(l.Returns) > 0) {
				return fmt.Sprintf("shows the step %q, which returns %v", e.label, l.Returns)
			}
			fair := l.Fairness == WEAK || l.Fairness == STRONG
			color := "black"
			if fair {
				color = "forestgreen"
			}
			if l.HasFailedInvariants() {
				color = "red"
			}
			if e.color != color || (e.width == "3") != (l.Fairness == STRONG) {
				return fmt.Sprintf("shows the step %s in %s with the width %s, its fairness is %v", l.Name, e.color, e.width, l.Fairness)
			}
			if l.Node.Process == nil {
				continue
			}
			if old, ok := ids[l.Node]; ok != (at[e.to] != nil) || ok && old != e.to {
				return fmt.Sprintf("leads the step %s from %s to another state", l.Name, n.Heap.ToJson())
			} else if !ok {
				ids[l.Node], at[e.to] = e.to, l.Node
				todo = append(todo, e.to)
			}
		}
	}
	if len(at) != len(nodes) {
		return fmt.Sprintf("has %d states, %d are connected", len(nodes), len(at))
	}
	return ""
}

var (
	reComm = regexp.MustCompile(`(?m)^  "(\w+)"(?::p\d)? -> "(\w+)"(?::p\d)? \[label="([^"]*)"\];$`)
	reFair = regexp.MustCompile(`(?m)^  "FairAction(\w+)":(\w+) -> "(\w+)" \[label="([^"]*)"\];$`)
	reCall = regexp.MustCompile(`^(\w+)#\d+>(\w+)#\d+ (\w+)\((.*)\)$`)
)

// sameComm compares the communication diagram with the calls of the reference.
func sameComm(dot string, f *ast.File, rg *ref.Graph) string {
	// what only happens in steps that change nothing need not be shown
	calls, mustCall, may, must := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for i := range rg.Steps {
		for k, st := range rg.Steps[i] {
			changes := rg.LTS.Obs[i] != rg.LTS.Obs[rg.Tos[i][k]]
			if st.Kind == "action" {
				if role, act, ok := strings.Cut(st.Label, "."); ok {
					s := role[:strings.Index(role, "#")] + " " + act
					may[s] = true
					if changes {
						must[s] = true
					}
				}
			}
			for _, x := range st.Calls {
				if m := reCall.FindStringSubmatch(x); m != nil && !strings.HasPrefix(m[4], "return ") {
					calls[m[1]+" "+m[2]+" "+m[3]] = true
					if changes {
						mustCall[m[1]+" "+m[2]+" "+m[3]] = true
					}
				} else if m == nil && strings.HasPrefix(x, ">") && !strings.HasPrefix(x, "> ") && !strings.Contains(x, "(return ") {
					role, rest, _ := strings.Cut(x[1:], " ")
					s := role[:strings.Index(role, "#")] + " " + rest[:strings.Index(rest, "(")]
					may[s] = true
					if changes {
						must[s] = true
					}
				}
			}
		}
	}
	got, acts := map[string]bool{}, map[string]bool{}
	roles := map[string]bool{}
	for _, r := range f.Roles {
		roles[r.Name] = true
	}
	for _, m := range reComm.FindAllStringSubmatch(dot, -1) {
		if roles[m[1]] {
			for _, n := range strings.Split(m[3], ", ") {
				got[m[1]+" "+m[2]+" "+n] = true
			}
		} else if m[1] != "action"+m[2]+m[3] {
			return "has the step " + m[0]
		} else {
			acts[m[2]+" "+m[3]] = true
		}
	}
	for _, m := range reFair.FindAllStringSubmatch(dot, -1) {
		if m[1] != m[3] || m[2] != m[4] {
			return "has the action " + m[0]
		}
		acts[m[3]+" "+m[4]] = true
		for _, r := range f.Roles {
			for _, a := range r.Actions {
				if r.Name == m[3] && a.Name == m[4] && a.GetFairness().GetLevel() != WEAK && a.GetFairness().GetLevel() != STRONG {
					return "shows the unfair action " + m[3] + "." + m[4] + " as fair"
				}
			}
		}
	}
	for s := range mustCall {
		if !got[s] {
			return "lacks the call " + s
		}
	}
	for s := range got {
		if !calls[s] {
			return "shows the call " + s + ", which never happens"
		}
	}
	for s := range must {
		if !acts[s] {
			return "lacks the action " + s
		}
	}
	for s := range acts {
		if !may[s] {
			return "shows the action " + s + ", which never happens"
		}
	}
	return ""
}

// failedDot: graph.dot of a failed run marks exactly the violating states and steps.
func failedDot(trans bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		no := false
		opt.DeadlockDetection = &no
		invs := simInvs()[:2]
		if trans {
			invs = simTrans()
		}
		for _, inv := range invs {
			f2 := proto.Clone(f).(*ast.File)
			f2.Invariants = []*ast.Invariant{inv}
			r, err := impl.Run(f2, opt, impl.Mode{})
			if err != nil || r.Err != nil {
				c.Fail("crash", "%v\n%s", err, specText(f2))
				return
			}
			if r.Failed == nil {
				continue
			}
			e, _ := export(f2, opt)
			c.Count("cli_runs", 1)
			c.Count("programs", 1)
			if msg := sameDot(e.dot, r.Root); msg != "" {
				c.Fail("dot", "graph.dot %s\n%s", msg, specText(f2))
				return
			}
			if !strings.Contains(e.dot, `color="red"`) {
				c.Fail("dot", "graph.dot shows no violation\n%s", specText(f2))
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C18",
		Technique: "exhaustive enumeration of bounded programs; the explored graph with the names, labels, messages and returned values of its steps compared with the reference graph by subset construction over all traces; the exported files read back and walked together with the explored graph",
		Rule:      "explored graph = reference graph including labels and messages; exported nodes and links, graph.dot and communication.dot are isomorphic to it; the weights of a node sum up to 1",
		Cases: func(tier string) []fw.Case {
			all := slices.Concat(pairs(1), without(pairs(2), "par"))
			return cat(
				genCases("", labelled(all), exports(false, true)),
				genCases("", labelled(roleSpecs()), exports(false, true)),
				genCases("", labelled(chanSpecs()), exports(false, true)),
				genCases("call/", labelled(callSpecs()), exports(false, tier == "thorough")),
				genCases("crash/", labelled(all), exports(true, true)),
				genCases("crash/", labelled(without(roleSpecs(), "c2/FLOW_ATOMIC/FLOW_SERIAL/call.loc")), exports(true, true)),
				genCases("failed/", labelled(all), failedDot(false)),
				genCases("failedstep/", labelled(all), failedDot(true)),
			)
		}})
}
