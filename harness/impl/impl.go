// Package impl runs the checker under test in-process and extracts what it
// explored.
package impl

import (
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"google.golang.org/protobuf/proto"

	"verif/canon"
	"verif/lts"
)

type Mode struct {
	Strategy  string // "", bfs, dfs, random
	Seed      int64
	Processed bool
	NoGraph   bool
	NoReturns bool
	NoSym     bool
	Simulate  bool
	Trace     *mc.GuidedTrace
	Hook      string
	Before    func(*mc.Processor) // called before the start
}

type Result struct {
	P      *mc.Processor
	Root   *mc.Node
	Failed *mc.Node
	Err    error
	File   *ast.File
	Opt    *ast.StateSpaceOptions
}

// Crash is a panic of the checker.
type Crash struct {
	Val   any
	Stack string
}

func (c *Crash) Error() string {
	return fmt.Sprintf("the checker crashed: %v\n%s", c.Val, where(c.Stack))
}

// Run executes the checker. A panic is returned as *Crash.
func Run(f *ast.File, opt *ast.StateSpaceOptions, m Mode) (r *Result, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = &Crash{x, string(debug.Stack())}
		}
	}()
	f = proto.Clone(f).(*ast.File)
	seed := m.Seed
	if seed == 0 {
		seed = 1
	}
	lib.ClearChannelRefs()
	p := mc.NewProcessor([]*ast.File{f}, opt, m.Simulate, seed, "", m.Strategy, true, nil, m.Trace, m.Hook)
	p.SetExperimentalProcessedQueue(m.Processed || m.NoGraph)
	p.SetExperimentalNoGraph(m.NoGraph)
	p.SetExperimentalNoStateReturns(m.NoReturns)
	p.SetDisableSymmetryReduction(m.NoSym)
	if m.Before != nil {
		m.Before(p)
	}
	root, failed, e := p.Start()
	return &Result{P: p, Root: root, Failed: failed, Err: e, File: f, Opt: opt}, nil
}

// HeapMap returns the state variables of a node.
func HeapMap(h *mc.Heap) map[string]starlark.Value {
	var raw map[string]json.RawMessage
	if err := json.Unmarshal([]byte(h.ToJson()), &raw); err != nil {
		panic(err)
	}
	m := map[string]starlark.Value{}
	for k := range raw {
		m[k] = h.GetValue(k)
	}
	return m
}

func structMap(s *lib.Struct) map[string]starlark.Value {
	m := map[string]starlark.Value{}
	for _, n := range s.AttrNames() {
		v, err := s.Attr(n)
		if err == nil {
			m[n] = v
		}
	}
	return m
}

func Obs(p *mc.Process) string { return obs(p, &canon.R{}) }

// SymObs renders a state up to the symmetries of doms.
func SymObs(p *mc.Process, doms Doms) string {
	if len(doms) == 0 {
		return Obs(p)
	}
	return canon.Min(doms, false, func(r *canon.R) string { return obs(p, r) })
}

// SymState renders everything a state without running actions consists of.
func SymState(p *mc.Process, doms Doms) string {
	return canon.Min(doms, true, func(r *canon.R) string {
		m := map[string]starlark.Value{}
		for k, v := range p.Returns {
			m[r.Name(k)] = v
		}
		return obs(p, r) + "|returns " + r.Dict(m)
	})
}

// RetState renders the values just returned together with the state.
func RetState(p *mc.Process, doms Doms) string { return retState(p, p.Returns, doms) }

func retState(p *mc.Process, rets map[string]starlark.Value, doms Doms) string {
	return canon.Min(doms, false, func(r *canon.R) string {
		m := map[string]starlark.Value{}
		for k, v := range rets {
			m[r.Name(k)] = v
		}
		return r.Dict(m) + obs(p, r)
	})
}

func obs(p *mc.Process, r *canon.R) string {
	var b strings.Builder
	b.WriteString(r.Dict(HeapMap(p.Heap)))
	var rs []string
	for _, ro := range p.Roles {
		rs = append(rs, fmt.Sprintf("|%s(%s){%s}", r.Name(ro.RefStringShort()), r.Dict(structMap(ro.Params)), r.Dict(structMap(ro.Fields))))
	}
	if r.Ren != nil || r.Used != nil {
		sort.Strings(rs)
	}
	b.WriteString(strings.Join(rs, ""))
	var ms []string
	for _, l := range p.ChannelMessages {
		for _, m := range l {
			ms = append(ms, fmt.Sprintf("%s.%s(%s)", r.Name(m.Receiver()), m.Function(), r.Dict(m.Params())))
		}
	}
	sort.Strings(ms)
	if len(ms) > 0 {
		b.WriteString("|msgs:" + strings.Join(ms, ";"))
	}
	return b.String()
}

// RootName of a running thread: Act or Role.Act.
func RootName(t *mc.Thread) string {
	if t == nil || t.Stack.Len() == 0 {
		return ""
	}
	return t.Stack.RawArray()[0].Name
}

// ThreadRoots lists the running actions of a process.
func ThreadRoots(p *mc.Process) []string {
	var out []string
	for _, t := range p.Threads {
		if t != nil {
			out = append(out, RootName(t))
		}
	}
	sort.Strings(out)
	return out
}

// Graph is the explored yield-point graph.
type Graph struct {
	LTS   *lts.LTS
	Nodes []*mc.Node // nil for 0
	Index map[*mc.Node]int
	// Paths[i][k]: the links of the k-th edge of node i.
	Paths [][][]*mc.Link
	Inner int // non-yield nodes
	Doms  Doms
}

// Doms are the symmetry domains and roles of a specification.
type Doms = map[string]*canon.Dom

// Extract collapses the explored graph to its yield points, with states
// rendered up to the symmetries of doms.
func Extract(root *mc.Node, doms ...Doms) *Graph {
	g := &Graph{LTS: &lts.LTS{}, Index: map[*mc.Node]int{}}
	for _, d := range doms {
		g.Doms = d
	}
	g.LTS.Add("")
	g.Nodes = append(g.Nodes, nil)
	g.Paths = append(g.Paths, nil)
	get := func(n *mc.Node) int {
		if i, ok := g.Index[n]; ok {
			return i
		}
		i := g.LTS.Add(SymObs(n.Process, g.Doms))
		g.Index[n] = i
		g.Nodes = append(g.Nodes, n)
		g.Paths = append(g.Paths, nil)
		return i
	}
	inner := map[*mc.Node]bool{}
	var walk func(from int, n *mc.Node, label, kind string, path []*mc.Link, on map[*mc.Node]bool)
	walk = func(from int, n *mc.Node, label, kind string, path []*mc.Link, on map[*mc.Node]bool) {
		if IsYield(n) {
			to := get(n)
			l, tau := g.edge(from, to, label, kind, path)
			g.LTS.Out[from] = append(g.LTS.Out[from], lts.Edge{Label: l, To: to, Tau: tau})
			g.Paths[from] = append(g.Paths[from], append([]*mc.Link(nil), path...))
			return
		}
		inner[n] = true
		if on[n] {
			return
		}
		on[n] = true
		for _, l := range n.Outbound {
			walk(from, l.Node, label, kind, append(path[:len(path):len(path)], l), on)
		}
		delete(on, n)
	}
	walk(0, root, "Init", "init", nil, map[*mc.Node]bool{})
	for i := 1; i < len(g.Nodes); i++ {
		n := g.Nodes[i]
		for _, l := range n.Outbound {
			label, kind := classify(n, l)
			walk(i, l.Node, label, kind, []*mc.Link{l}, map[*mc.Node]bool{})
		}
	}
	g.Inner = len(inner)
	return g
}

// edge is the label of the step from a yield point to the next, and whether
// it can be observed.
func (g *Graph) edge(from, to int, label, kind string, path []*mc.Link) (string, bool) {
	n := g.Nodes[to]
	rets := map[string]starlark.Value{}
	for _, l := range path {
		for k, v := range l.Returns {
			rets[k] = v
		}
	}
	l := canon.Erase(label, g.Doms)
	if from == 0 && len(path) == 0 {
		rets = n.Process.Returns
	}
	r := (&canon.R{}).Dict(rets)
	if len(g.Doms) > 0 && r != "" {
		r = retState(n.Process, rets, g.Doms)
	}
	if r != "" {
		l += " returns " + r
	}
	tau := r == "" && (kind == "thread" || kind == "crash") && from > 0 && g.LTS.Obs[from] == g.LTS.Obs[to]
	if kind == "rolecrash" && g.LTS.Obs[from] == g.LTS.Obs[to] && fmt.Sprint(ThreadRoots(g.Nodes[from].Process)) == fmt.Sprint(ThreadRoots(n.Process)) {
		tau = true // nothing happened
	}
	return l, tau
}

// Chain collapses one path (as reported for a failure) to its yield points,
// one state per yield point visited. It says whether the path ends in one.
func Chain(path []*mc.Link) (*Graph, bool) {
	g := &Graph{LTS: &lts.LTS{}}
	g.LTS.Add("")
	g.Nodes = append(g.Nodes, nil)
	label, kind := "Init", "init"
	var part []*mc.Link
	from := 0
	for i, l := range path {
		if i > 0 {
			if len(part) == 0 && IsYield(path[i-1].Node) {
				label, kind = classify(path[i-1].Node, l)
			}
			part = append(part, l)
		}
		if IsYield(l.Node) {
			to := g.LTS.Add(Obs(l.Node.Process))
			g.Nodes = append(g.Nodes, l.Node)
			lb, tau := g.edge(from, to, label, kind, part)
			g.LTS.Out[from] = append(g.LTS.Out[from], lts.Edge{Label: lb, To: to, Tau: tau})
			g.Paths = append(g.Paths, [][]*mc.Link{part})
			from, part = to, nil
		}
	}
	return g, len(part) == 0 && from > 0
}

// IsYield tells whether a node is a yield point: the end of a step or the
// state after a crash. (Unfinished steps can carry the names "yield" and
// "crash" too, so the name alone does not tell.)
func IsYield(n *mc.Node) bool {
	if n.Process == nil {
		return false
	}
	if n.Process.IsYield || n.Process.HasFailedInvariants() {
		return true
	}
	if len(n.Inbound) > 0 {
		l := n.Inbound[0]
		return l.IsCrashLink() || (len(l.FailedInvariants[0]) > 0 && n.Name == "yield")
	}
	return false
}

func classify(n *mc.Node, l *mc.Link) (string, string) {
	switch {
	case l.Type == "action":
		return l.Name, "action"
	case strings.HasPrefix(l.Name, "thread-"):
		i, err := strconv.Atoi(strings.TrimPrefix(l.Name, "thread-"))
		if err == nil && i < len(n.Threads) {
			return "thread:" + RootName(n.Threads[i]), "thread"
		}
		return l.Name, "thread"
	case strings.HasPrefix(l.Name, "channel-"):
		return "message", "message"
	case l.Name == "crash":
		return "crash", "crash"
	case strings.HasPrefix(l.Name, "crash-"):
		return strings.Replace(l.Name, "crash-role ", "rolecrash:", 1), "rolecrash"
	}
	return l.Name, "other"
}

// where keeps the innermost functions of the checker from a stack.
func where(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") || strings.HasPrefix(l, "github.com/fizzbee-io") {
			out = append(out, l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}
