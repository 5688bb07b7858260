package checks

import (
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"

	"verif/canon"
	"verif/cli"
	"verif/fw"
	"verif/ref"
	. "verif/sb"
)

// A component is a specification with a function that gives its interface:
// the value that is compared with the other components'.
type component struct {
	n     string
	file  func() *ast.File
	iface string // name of the interface function
	body  []S
}

func (cp component) build() *ast.File {
	f := cp.file()
	flow := SERIAL
	if cp.iface == "AIface" {
		flow = ATOMIC
	}
	f.Functions = append(f.Functions, Func(flow, cp.iface, nil, cp.body...))
	return f
}

// compActs are actions over x (seen through most interfaces) and p (private).
func compActs() []na {
	a := func(n string, flow ast.Flow, ss ...S) na {
		return na{n, func(name string) *ast.Action { return Act(flow, name, ss...) }}
	}
	return []na{
		a("tick", ATOMIC, Require("x < 2"), Py("x = x + 1")),
		a("stick", SERIAL, Require("x < 2"), Py("p = 1"), Py("x = x + 1"), Py("p = 0")),
		a("priv", ATOMIC, Py("p = (p + 1) % 3")),
		a("pick", ATOMIC, Any("v", "[0, 1]", Py("x = v")), Py("p = 1")),
		a("late", ATOMIC, Py("x = 2"), Oneof(Py("p = 0"), Py("p = 1")), Py("x = 1 - p")),
		a("jump", ATOMIC, Require("x == 0"), Py("x = 2")),
		a("reset", ATOMIC, Require("x > 0"), Py("x = 0")),
		a("par", PARALLEL, Py("x = 1"), Py("p = 1")),
		a("call", ATOMIC, Require("x == 0"), Call("", "", "SetX", "2"), Py("p = x")),
		a("twice", ATOMIC, Require("x == 0"), Py("x = 1"), Py("x = 2"), Py("p = 2")),
	}
}

func compInit(n string) *ast.Action {
	switch n {
	case "zero":
		return Init(Py("x = 0"), Py("p = 0"))
	case "one":
		return Init(Py("x = 1"), Py("p = 0"))
	}
	return Init(Py("p = 0"), Py("x = 1"), Any("v", "[0, 2]", Py("x = v")))
}

type iface struct {
	n    string
	name string
	body []S
}

func ifaces() []iface {
	return []iface{
		{"x", "Iface", []S{Return("x")}},
		{"pos", "Iface", []S{Return("x > 0")}},
		{"both", "AIface", []S{Py("t = [x, p]"), Return("t")}},
		{"str", "Iface", []S{If("x == 2", Return("'2'")), Return("x")}},
		{"set", "Iface", []S{If("p > 0", Return("set([2, x])")), Return("set([x, 2])")}},
		{"dict", "AIface", []S{If("p > 0", Return("{'a': 1, 'b': x}")), Return("{'b': x, 'a': 1}")}},
	}
}

func mkComponent(init string, as []na, i iface) component {
	var ns []string
	for _, a := range as {
		ns = append(ns, a.n)
	}
	return component{init + "," + strings.Join(ns, "+") + "," + i.n, func() *ast.File {
		acts := []*ast.Action{compInit(init)}
		for k, a := range as {
			acts = append(acts, a.mk(fmt.Sprintf("Act%d", k)))
		}
		f := File(acts...)
		f.Functions = append(f.Functions, Func(ATOMIC, "SetX", []string{"v"}, Py("x = v")))
		return f
	}, i.name, i.body}
}

// roleComponent keeps its interface in a role.
func roleComponent() component {
	return component{"role", func() *ast.File {
		r := RoleDef("Node", false, []*ast.Action{
			Act(ATOMIC, "Init", Py("self.x = 0")),
			Act(SERIAL, "Up", Require("self.x < 2"), Py("p = 1"), Py("self.x = self.x + 1"), Py("p = 0")),
		}, nil)
		f := File(Init(Py("x = 0"), Py("p = 0"), Py("n = Node()")))
		f.Roles = []*ast.Role{r}
		return f
	}, "Iface", []S{Return("n.x")}}
}

// projected is the reference graph of a component with the interface of each state.
type projected struct {
	rg *ref.Graph
	v  []string
}

func project(cp component, opt *ast.StateSpaceOptions) (*projected, error) {
	f := cp.build()
	rg, err := build(f, opt, false)
	if err != nil {
		return nil, err
	}
	inv := Assertion("Iface", []string{"always"}, cp.body...)
	p := &projected{rg: rg, v: []string{""}}
	for i := 1; i < len(rg.Cfgs); i++ {
		p.v = append(p.v, canon.Val(rg.Cfgs[i].CheckAssertion(inv, nil)))
	}
	return p, nil
}

// pstep is a step between two reference states, or none.
type pstep struct{ from, to int }

func (p *projected) key(s pstep) string { return p.v[s.from] + " -> " + p.v[s.to] }

// steps are the steps of a state, standing still included.
func (p *projected) steps(i int) []pstep {
	out := []pstep{{i, i}}
	for _, t := range p.rg.Tos[i] {
		if !slices.Contains(out, pstep{i, t}) {
			out = append(out, pstep{i, t})
		}
	}
	return out
}

func (p *projected) moved(s pstep) bool {
	return canonState(p.rg.Cfgs[s.from]) != canonState(p.rg.Cfgs[s.to])
}

func canonState(c *ref.Cfg) string { return c.Obs() }

// jsteps are the combined steps of the components: all, whether or not their
// start can be reached together, and the ones that can.
type joint struct {
	ps    []*projected
	names []string
	all   [][]pstep
	reach [][]pstep
	inits [][]int
}

func combine(names []string, ps []*projected, limit int) *joint {
	j := &joint{ps: ps, names: names}
	byKey := make([]map[string][]pstep, len(ps))
	for k, p := range ps {
		byKey[k] = map[string][]pstep{}
		for i := 1; i < len(p.rg.Cfgs); i++ {
			for _, s := range p.steps(i) {
				byKey[k][p.key(s)] = append(byKey[k][p.key(s)], s)
			}
		}
	}
	var keys []string
	for key := range byKey[0] {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	var product func(key string, k int, acc []pstep)
	product = func(key string, k int, acc []pstep) {
		if k == len(ps) {
			if j.moves(acc) {
				j.all = append(j.all, slices.Clone(acc))
			}
			return
		}
		for _, s := range byKey[k][key] {
			product(key, k+1, append(acc, s))
		}
	}
	for _, key := range keys {
		product(key, 0, nil)
		if len(j.all) > limit {
			return nil
		}
	}
	// States that can be reached together.
	seen := map[string]bool{}
	var queue [][]int
	push := func(st []int) {
		if k := fmt.Sprint(st); !seen[k] {
			seen[k] = true
			queue = append(queue, slices.Clone(st))
		}
	}
	var start func(k int, acc []int)
	start = func(k int, acc []int) {
		if k == len(ps) {
			j.inits = append(j.inits, slices.Clone(acc))
			push(acc)
			return
		}
		for _, i := range ps[k].rg.Tos[0] {
			if k == 0 || ps[k].v[i] == ps[0].v[acc[0]] {
				start(k+1, append(acc, i))
			}
		}
	}
	start(0, nil)
	from := map[string][][]pstep{}
	for _, s := range j.all {
		var f []int
		for _, x := range s {
			f = append(f, x.from)
		}
		from[fmt.Sprint(f)] = append(from[fmt.Sprint(f)], s)
	}
	for len(queue) > 0 {
		st := queue[0]
		queue = queue[1:]
		for _, s := range from[fmt.Sprint(st)] {
			j.reach = append(j.reach, s)
			var t []int
			for _, x := range s {
				t = append(t, x.to)
			}
			push(t)
		}
	}
	return j
}

func (j *joint) moves(s []pstep) bool {
	for k, x := range s {
		if j.ps[k].moved(x) {
			return true
		}
	}
	return false
}

// at is the composed state: a struct for each component.
func (j *joint) at(sp *ref.Spec, s []pstep, to bool) *ref.Cfg {
	m := map[string]starlark.Value{}
	for k, x := range s {
		i := x.from
		if to {
			i = x.to
		}
		m[j.names[k]] = stateStruct(j.names[k], j.ps[k].rg.Cfgs[i])
	}
	return ref.NewCfg(sp, m, nil, nil)
}

// violated tells whether the assertion is false in the step (or its target).
func (j *joint) violated(sp *ref.Spec, s []pstep, inv *ast.Invariant) bool {
	to := j.at(sp, s, true)
	if !slices.Contains(inv.TemporalOperators, "transition") {
		return !bool(to.CheckAssertion(inv, nil).Truth())
	}
	from := j.at(sp, s, false)
	args := map[string]starlark.Value{}
	for n, c := range map[string]*ref.Cfg{"before": from, "after": to} {
		d := starlark.StringDict{}
		for k, v := range c.State {
			d[k] = v
		}
		args[n] = starlarkstruct.FromStringDict(starlark.String(n), d)
	}
	return !bool(to.CheckAssertion(inv, args).Truth())
}

func composedFile(names []string, cps []component, invs []*ast.Invariant) *ast.File {
	f := File()
	f.Composition = &ast.Composition{}
	for k, n := range names {
		e := n + "." + cps[k].iface
		f.Composition.Specs = append(f.Composition.Specs, &ast.SpecEntry{Name: n, Expr: &ast.Expr{PyExpr: e}})
	}
	f.Invariants = invs
	return f
}

var reComposed = regexp.MustCompile(`(?m)^Composed (state|transition) failed invariants: map\[0:\[([0-9 ]+)\]\]$`)

// composed runs the composition of components and compares the verdict for each
// assertion with the combined steps of the reference graphs: a violation that
// can be reached must be reported, and one without any such step must not.
func composed(c *fw.Ctx, cps []component, opt *ast.StateSpaceOptions, width int, flags ...string) {
	names := []string{"A", "B", "C"}[:len(cps)]
	var ps []*projected
	for _, cp := range cps {
		p, err := project(cp, opt)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		ps = append(ps, p)
		c.Count("states", len(p.rg.Cfgs))
		c.Count("transitions", p.rg.LTS.Edges())
	}
	j := combine(names, ps, 400000)
	if j == nil {
		c.Count("too_large", 1)
		return
	}
	c.Count("combined_steps", len(j.all))
	c.Count("programs", 1)
	sp := ref.NewSpec(File(Init(Py("z = 0"))), opt)
	for _, invs := range j.assertions(width) {
		f := composedFile(names, cps, invs)
		must, may := make([]bool, len(invs)), make([]bool, len(invs))
		for k, inv := range invs {
			for _, s := range j.all {
				may[k] = may[k] || j.violated(sp, s, inv)
			}
			for _, s := range j.reach {
				must[k] = must[k] || j.violated(sp, s, inv)
			}
			if !slices.Contains(inv.TemporalOperators, "transition") {
				for _, in := range j.inits {
					var s []pstep
					for _, i := range in {
						s = append(s, pstep{i, i})
					}
					if j.violated(sp, s, inv) {
						must[k], may[k] = true, true
					}
				}
			}
		}
		specs := []cli.Spec{cli.Named("spec", f)}
		for k, cp := range cps {
			specs = append(specs, cli.Named(names[k], cp.build()))
		}
		dot := ""
		o := cli.Run(specs, opt, func(_, out string) {
			b, _ := os.ReadFile(filepath.Join(out, "error-graph.dot"))
			dot = string(b)
		}, flags...)
		c.Count("verdicts", 1)
		text := func() string {
			t := specText(f)
			for k, cp := range cps {
				t += "\n--- " + names[k] + " (" + cp.n + ")\n" + specText(cp.build())
			}
			return t
		}
		if o.Err != nil || o.Code != 0 || strings.Contains(o.Text, "panic") {
			c.Fail("crash", "the composition ends with %v (%v)\n%s\n%s", o.Code, o.Err, tail(o.Text), text())
			return
		}
		if n := strings.Count(o.Text, "PASSED: Model checker completed successfully"); n != len(cps) {
			c.Fail("components", "%d of %d components pass\n%s\n%s", n, len(cps), tail(o.Text), text())
			return
		}
		failed := strings.Contains(o.Text, "Error composing transitions: failed to compose")
		other := !failed && (strings.Contains(o.Text, "Error") || strings.Contains(o.Text, "Failed") || strings.Contains(o.Text, "failed invariants"))
		switch {
		case other:
			c.Fail("unclear", "no clear verdict\n%s\n%s", tail(o.Text), text())
			return
		case !failed && slices.Contains(must, true):
			c.Fail("missed", "the components can reach a violation of %v but no failure is reported\n%s\n%s", invNames(invs), tail(o.Text), text())
			return
		case failed:
			m := reComposed.FindStringSubmatch(o.Text)
			if m == nil {
				c.Fail("unclear", "a failure without assertion\n%s\n%s", tail(o.Text), text())
				return
			}
			for _, w := range strings.Fields(m[2]) {
				var k int
				fmt.Sscan(w, &k)
				if k >= len(invs) || !may[k] {
					c.Fail("false", "assertion %s is reported violated, but no combined step violates it\n%s\n%s", w, tail(o.Text), text())
					return
				}
				if m[1] == "state" != !slices.Contains(invs[k].TemporalOperators, "transition") {
					c.Fail("kind", "assertion %s is reported as one about a %s\n%s\n%s", w, m[1], tail(o.Text), text())
					return
				}
				if from, to := shownStep(o.Text, dot, names); !j.has(sp, invs[k], from, to) {
					c.Fail("witness", "the shown step %v -> %v does not violate assertion %s\n%s\n%s\n%s", from, to, w, dot, tail(o.Text), text())
					return
				}
			}
		}
		if c.SampleV == nil {
			c.Sample(map[string]any{"composition": text(), "combined_steps": len(j.all), "reachable_steps": len(j.reach), "assertions": invNames(invs), "verdict": failed})
		}
	}
}

var (
	reShown = regexp.MustCompile(`State: (\{.*\})`)
	reStep  = regexp.MustCompile(`\((\{[^>]*\}) -> (\{[^>]*\})\)`)
)

func xp(j string) string {
	var v struct{ X, P any }
	if err := json.Unmarshal([]byte(j), &v); err != nil {
		return err.Error()
	}
	return fmt.Sprint(v.X, v.P)
}

// shownStep reads the failing step of each component: its target in the graph,
// and its start when it is printed.
func shownStep(text, dot string, names []string) (from, to []string) {
	for _, n := range names {
		_, part, _ := strings.Cut(dot, "subgraph cluster_"+n+" {")
		part, _, _ = strings.Cut(part, "\n  }\n")
		last := "none"
		for _, m := range reShown.FindAllStringSubmatch(part, -1) {
			last = xp(strings.ReplaceAll(m[1], "\\\"", "\""))
		}
		to = append(to, last)
	}
	_, line, found := strings.Cut(text, "\nComposed transition: ")
	if found {
		line, _, _ = strings.Cut(line, "\n")
		for _, m := range reStep.FindAllStringSubmatch(line, -1) {
			from = append(from, xp(m[1]))
		}
	}
	return
}

// has tells whether a combined step (or initial state) between states that look
// like these violates the assertion.
func (j *joint) has(sp *ref.Spec, inv *ast.Invariant, from, to []string) bool {
	look := func(k, i int) string {
		st := j.ps[k].rg.Cfgs[i].State
		return fmt.Sprint(st["x"], st["p"])
	}
	try := func(s []pstep) bool {
		for k, x := range s {
			if to[k] != look(k, x.to) || from != nil && (k >= len(from) || from[k] != look(k, x.from)) {
				return false
			}
		}
		return j.violated(sp, s, inv)
	}
	for _, s := range j.all {
		if try(s) {
			return true
		}
	}
	for _, in := range j.inits {
		var s []pstep
		for _, i := range in {
			s = append(s, pstep{i, i})
		}
		if !slices.Contains(inv.TemporalOperators, "transition") && try(s) {
			return true
		}
	}
	return false
}

func invNames(invs []*ast.Invariant) []string {
	var ns []string
	for _, i := range invs {
		ns = append(ns, i.Name)
	}
	return ns
}

// assertions forbid, one after the other, each of the first width combined
// states and steps over the private parts, and at last one that none has.
func (j *joint) assertions(width int) [][]*ast.Invariant {
	field := func(k, i int, f string) string {
		v := stateStruct("s", j.ps[k].rg.Cfgs[i]).(*starlarkstruct.Struct)
		w, err := v.Attr(f)
		if err != nil || w == nil {
			return "?"
		}
		return w.String()
	}
	states, steps := map[string]bool{}, map[string]bool{}
	atom := func(pre string, s []pstep, to bool) string {
		var cs []string
		for k, x := range s {
			i := x.from
			if to {
				i = x.to
			}
			cs = append(cs, fmt.Sprintf("%s%s.p == %s and %s%s.x == %s", pre, j.names[k], field(k, i, "p"), pre, j.names[k], field(k, i, "x")))
		}
		return strings.Join(cs, " and ")
	}
	for _, s := range j.reach {
		states[atom("", s, true)] = true
		steps[atom("before.", s, false)+" and "+atom("after.", s, true)] = true
	}
	for _, in := range j.inits {
		var s []pstep
		for _, i := range in {
			s = append(s, pstep{i, i})
		}
		states[atom("", s, true)] = true
	}
	list := func(m map[string]bool) []string {
		var out []string
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		if len(out) > width { // spread over all of them
			var some []string
			for i := 0; i < width; i++ {
				some = append(some, out[i*len(out)/width])
			}
			out = some
		}
		return out
	}
	ss, ts := list(states), list(steps)
	var out [][]*ast.Invariant
	for _, s := range ss {
		out = append(out, []*ast.Invariant{Always("S", "not ("+s+")")})
	}
	for _, t := range ts {
		out = append(out, []*ast.Invariant{TransAssertion("T", Return("not ("+t+")"))})
	}
	// None of the combined steps has these.
	allS, allT := map[string]bool{}, map[string]bool{}
	for _, s := range j.all {
		allS[atom("", s, true)] = true
		allT[atom("before.", s, false)+" and "+atom("after.", s, true)] = true
	}
	var yes, yesT []string
	for s := range allS {
		yes = append(yes, s)
	}
	for t := range allT {
		yesT = append(yesT, t)
	}
	for s := range states {
		if !allS[s] {
			yes = append(yes, s)
		}
	}
	sort.Strings(yes)
	sort.Strings(yesT)
	if len(yes) > 0 && len(yes) < 60 && len(yesT) < 200 {
		last := []*ast.Invariant{Always("S", strings.Join(yes, " or "))}
		if len(yesT) > 0 {
			last = append(last, TransAssertion("T", Return(strings.Join(yesT, " or "))))
		}
		out = append(out, last)
		if len(ss) > 0 {
			out = append(out, []*ast.Invariant{last[0], Always("S2", "not ("+ss[len(ss)-1]+")")})
		}
	}
	return out
}

// refines runs the check that one component refines others and compares the
// verdict with the steps of the reference graphs.
func refines(c *fw.Ctx, im component, abs []component, opt *ast.StateSpaceOptions, first bool, flags ...string) {
	names := []string{"A", "B"}[:len(abs)]
	var ps []*projected
	for _, cp := range append([]component{im}, abs...) {
		p, err := project(cp, opt)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		ps = append(ps, p)
		c.Count("states", len(p.rg.Cfgs))
		c.Count("transitions", p.rg.LTS.Edges())
	}
	c.Count("programs", 1)
	keys := make([]map[string]bool, len(abs))
	for k, p := range ps[1:] {
		keys[k] = map[string]bool{}
		for i := 1; i < len(p.rg.Cfgs); i++ {
			for _, s := range p.steps(i) {
				keys[k][p.key(s)] = true
			}
		}
	}
	ok := func(key string) bool {
		for _, m := range keys {
			if !m[key] {
				return false
			}
		}
		return true
	}
	must, may, ends := map[string]bool{}, map[string]bool{}, map[string]bool{}
	p := ps[0]
	for i := 1; i < len(p.rg.Cfgs); i++ {
		for _, s := range p.steps(i)[1:] {
			if !ok(p.key(s)) {
				k := fmt.Sprintf("%s => %s", p.rg.LTS.Obs[s.from], p.rg.LTS.Obs[s.to])
				may[k] = true
				to := p.rg.Cfgs[s.to].State
				ends[fmt.Sprint(to["x"], to["p"])] = true
				if p.moved(s) {
					must[k] = true
				}
			}
		}
	}
	for _, i := range p.rg.Tos[0] {
		if !ok(p.v[i] + " -> " + p.v[i]) {
			may["init "+p.v[i]] = true
			st := p.rg.Cfgs[i].State
			ends[fmt.Sprint(st["x"], st["p"])] = true
		}
		for k := range abs {
			in := false
			for _, a := range ps[k+1].rg.Tos[0] {
				in = in || ps[k+1].v[a] == p.v[i]
			}
			if !in {
				may["init "+p.v[i]] = true
			}
		}
	}
	f := im.build()
	rf := &ast.Refinement{}
	self := &ast.SpecEntry{Name: "_", Expr: &ast.Expr{PyExpr: im.iface}}
	if first {
		rf.Specs = append(rf.Specs, self)
	}
	for k, n := range names {
		rf.Specs = append(rf.Specs, &ast.SpecEntry{Name: n, Expr: &ast.Expr{PyExpr: n + "." + abs[k].iface}})
	}
	if !first {
		rf.Specs = append(rf.Specs, self)
	}
	f.Refinements = []*ast.Refinement{rf}
	specs := []cli.Spec{cli.Named("spec", f)}
	for k, cp := range abs {
		specs = append(specs, cli.Named(names[k], cp.build()))
	}
	o := cli.Run(specs, opt, nil, flags...)
	c.Count("verdicts", 1)
	text := func() string {
		t := "--- implementation (" + im.n + ")\n" + specText(im.build())
		for k, cp := range abs {
			t += "\n--- " + names[k] + " (" + cp.n + ")\n" + specText(cp.build())
		}
		return t
	}
	pass := strings.Count(o.Text, "PASSED: Model checker completed successfully")
	failed := strings.Count(o.Text, "FAILED: Model checker failed")
	switch {
	case o.Err != nil || o.Code != 0 || strings.Contains(o.Text, "panic"):
		c.Fail("crash", "the refinement check ends with %v (%v)\n%s\n%s", o.Code, o.Err, tail(o.Text), text())
	case pass == len(abs)+1 && failed == 0:
		if len(must) > 0 {
			c.Fail("missed", "the refinement is accepted although steps have no counterpart: %v\n%s", keysOf(must), text())
			return
		}
	case pass == len(abs) && failed == 1:
		if len(may) == 0 {
			c.Fail("false", "the refinement is rejected although every step has a counterpart\n%s\n%s", tail(o.Text), text())
			return
		}
		ps := printedTrace(o.Text)
		if len(ps) == 0 {
			c.Fail("notrace", "a rejected refinement without a trace\n%s\n%s", tail(o.Text), text())
			return
		}
		if last := xp(ps[len(ps)-1].state); !ends[last] {
			c.Fail("witness", "the shown trace ends with %s, where no step without counterpart leads: %v\n%s\n%s", last, keysOf(may), tail(o.Text), text())
			return
		}
	default:
		c.Fail("unclear", "%d passed, %d failed\n%s\n%s", pass, failed, tail(o.Text), text())
		return
	}
	if c.SampleV == nil {
		c.Sample(map[string]any{"refinement": text(), "unmatched": keysOf(must), "verdict": failed > 0})
	}
}

// refused checks that a run that cannot compare the graphs does not pass.
func refused(c *fw.Ctx, a, b component, flag string) {
	f := composedFile([]string{"A", "B"}, []component{a, b}, []*ast.Invariant{Always("S", "False")})
	o := cli.Run([]cli.Spec{cli.Named("spec", f), cli.Named("A", a.build()), cli.Named("B", b.build())}, compOpts(1), nil, flag)
	c.Count("verdicts", 1)
	if o.Code == 0 && !strings.Contains(o.Text, "Error") && !strings.Contains(strings.ToLower(o.Text), "not supported") || strings.Contains(o.Text, "panic") {
		c.Fail("accepted", "the composition was not compared but the run does not say so\n%s", tail(o.Text))
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func compOpts(conc int64) *ast.StateSpaceOptions {
	o := Opts(60, conc)
	f := false
	o.DeadlockDetection = &f
	return o
}

func c19Cases(tier string) []fw.Case {
	acts := compActs()
	get := func(ns ...string) []na {
		var out []na
		for _, n := range ns {
			for _, a := range acts {
				if a.n == n {
					out = append(out, a)
				}
			}
		}
		if len(out) != len(ns) {
			panic(fmt.Sprint(ns))
		}
		return out
	}
	is := ifaces()
	var sets [][]na
	for _, a := range acts {
		sets = append(sets, []na{a})
	}
	for _, ns := range [][]string{{"tick", "reset"}, {"tick", "priv"}, {"jump", "reset"}, {"late", "reset"}, {"pick", "priv"}, {"stick", "reset"}, {"twice", "tick"}, {"late", "jump"}, {"call", "reset"}, {"par", "reset"}, {"priv", "reset"}} {
		sets = append(sets, get(ns...))
	}
	width := 2
	step := 5
	if tier == "thorough" {
		width, step = 6, 1
	}
	var out []fw.Case
	n := 0
	add := func(name string, run func(c *fw.Ctx)) {
		n++
		if step > 1 && n%step != 0 {
			return
		}
		out = append(out, fw.Case{Name: name, Run: run})
	}
	inits := []string{"zero", "one", "any"}
	for _, conc := range []int64{1, 2} {
		for i, x := range is {
			for a, sa := range sets {
				for b, sb := range sets {
					if tier != "thorough" && conc == 2 && (a+b+i)%3 != 0 {
						continue
					}
					ca := mkComponent(inits[(a+i)%3*int(conc-1)], sa, x)
					cb := mkComponent(inits[(b+i)%3*int(conc-1)], sb, x)
					if x.n == "pos" || x.n == "str" { // other interfaces of the second one
						cb = mkComponent(inits[b%3], sb, is[(i+1)%len(is)])
					}
					nm := fmt.Sprintf("%s|%s,c%d", ca.n, cb.n, conc)
					add("compose/"+nm, func(c *fw.Ctx) { composed(c, []component{ca, cb}, compOpts(conc), width) })
					add("refine/"+nm, func(c *fw.Ctx) { refines(c, ca, []component{cb}, compOpts(conc), (a+b)%2 == 0) })
				}
			}
		}
	}
	step = 1
	for k, fl := range []string{"--exploration_strategy=dfs", "--exploration_strategy=random", "--experimental_processed_queue", "--experimental_no_graph", "--no-symmetry-reduction", "--experimental_no_state_returns"} {
		for a, sa := range sets {
			for b, sb := range sets {
				if tier != "thorough" && (a*3+b+k)%25 != 0 {
					continue
				}
				ca, cb := mkComponent("zero", sa, is[0]), mkComponent("zero", sb, is[0])
				nm := fmt.Sprintf("%s|%s,%s", ca.n, cb.n, fl)
				if k == 3 {
					add("refused/"+nm, func(c *fw.Ctx) { refused(c, ca, cb, fl) })
					continue
				}
				add("compose/"+nm, func(c *fw.Ctx) { composed(c, []component{ca, cb}, compOpts(1), width, fl) })
				add("refine/"+nm, func(c *fw.Ctx) { refines(c, ca, []component{cb}, compOpts(1), k%2 == 0, fl) })
			}
		}
	}
	small := [][]na{get("tick"), get("jump"), get("late"), get("priv"), get("tick", "reset"), get("stick")}
	rc := roleComponent()
	for i, x := range is[:2] {
		for _, sa := range small {
			ca := mkComponent("zero", sa, x)
			add(fmt.Sprintf("compose/role|%s", ca.n), func(c *fw.Ctx) { composed(c, []component{rc, ca}, compOpts(1), width) })
			add(fmt.Sprintf("refine/role|%s", ca.n), func(c *fw.Ctx) { refines(c, rc, []component{ca}, compOpts(1), i == 0) })
			add(fmt.Sprintf("refine/%s|role", ca.n), func(c *fw.Ctx) { refines(c, ca, []component{rc}, compOpts(1), i == 0) })
			for _, sb := range small {
				cb := mkComponent("zero", sb, x)
				for k, sc := range small {
					if tier != "thorough" && (k+len(sa)+len(sb)+i)%4 != 0 {
						continue
					}
					cc := mkComponent([]string{"zero", "any"}[k%2], sc, x)
					nm := fmt.Sprintf("%s|%s|%s", ca.n, cb.n, cc.n)
					add("three/"+nm, func(c *fw.Ctx) { composed(c, []component{ca, cb, cc}, compOpts(1), width) })
					add("refinetwo/"+nm, func(c *fw.Ctx) { refines(c, ca, []component{cb, cc}, compOpts(1), k%2 == 0) })
				}
			}
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C19",
		Cases:     c19Cases,
		Technique: "exhaustive enumeration of pairs and triples of small components, interface functions and assertions; the verdict of the binary compared with the product of the components' reference graphs",
		Rule:      "every pair of components (sets of actions x interface functions) within the bounds, composed and refined; every forbidden combined state and step up to a width",
	})
}
