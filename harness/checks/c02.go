package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"google.golang.org/protobuf/proto"

	"verif/canon"
	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// judged is a specification with its reference graph and the assertions to decide.
type judged struct {
	f    *ast.File
	opt  *ast.StateSpaceOptions
	rg   *ref.Graph
	invs []*ast.Invariant
	// bad[k] are the reference steps (from, index) whose target falsifies
	// assertion k.
	bad []map[[2]int]bool
}

func truth(cfg *ref.Cfg, inv *ast.Invariant, st *ref.Step) bool {
	d := starlark.NewDict(1)
	for k, v := range st.Rets {
		_ = d.SetKey(starlark.String(k), v)
	}
	args := map[string]starlark.Value{"__returns__": d}
	if inv.Block == nil {
		b := proto.Clone(inv).(*ast.Invariant)
		b.Block = Blk(ATOMIC, Return(inv.PyExpr))
		inv = b
	}
	return bool(cfg.CheckAssertion(inv, args).Truth())
}

func judge(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, invs []*ast.Invariant) *judged {
	rg, err := build(f, opt, opt.Options.GetCrashOnYield())
	if err == ref.ErrUnsupported {
		c.Count("unsupported", 1)
		return nil
	}
	if err != nil {
		panic(err)
	}
	j := &judged{f: f, opt: opt, rg: rg, invs: invs}
	for _, inv := range invs {
		bad := map[[2]int]bool{}
		seen := map[string]bool{}
		for i := range rg.Steps {
			for k, st := range rg.Steps[i] {
				key := fmt.Sprint(rg.Tos[i][k], st.Returns)
				v, ok := seen[key]
				if !ok {
					v = truth(st.To, inv, st)
					seen[key] = v
				}
				if !v {
					bad[[2]int{i, k}] = true
				}
			}
		}
		j.bad = append(j.bad, bad)
	}
	c.Count("states", len(rg.Cfgs))
	c.Count("transitions", rg.LTS.Edges())
	c.Count("programs", 1)
	return j
}

// badObs: observations (with the values returned) that falsify assertion k.
func (j *judged) badObs(k int) map[string]bool {
	m := map[string]bool{}
	for e := range j.bad[k] {
		m[j.rg.Steps[e[0]][e[1]].RetObs()] = true
	}
	return m
}

func (j *judged) obsRet(p *mc.Process) string {
	if len(j.rg.Doms) > 0 {
		return impl.RetState(p, j.rg.Doms)
	}
	return impl.Obs(p) + " " + retStr(p)
}

// with returns the specification with the given assertions.
func (j *judged) with(ks ...int) *ast.File {
	f := proto.Clone(j.f).(*ast.File)
	f.Invariants = nil
	for _, k := range ks {
		f.Invariants = append(f.Invariants, proto.Clone(j.invs[k]).(*ast.Invariant))
	}
	return f
}

// safety decides always assertions: each alone, all together, with
// continuation after failures, and through the binary.
func safety(c *fw.Ctx, j *judged, m impl.Mode, useCLI bool) {
	var all, anyBad []int
	for k := range j.invs {
		all = append(all, k)
		want := len(j.bad[k]) > 0
		if want {
			anyBad = append(anyBad, k)
		}
		if !j.runSafety(c, m, []int{k}) {
			return
		}
	}
	if len(j.invs) > 1 && !j.runSafety(c, m, all) {
		return
	}
	if m.NoGraph {
		return
	}
	// continuation
	for _, path := range []bool{false, true} {
		opt := withContinue(j.opt)
		opt.ContinuePathOnInvariantFailures = path
		for _, k := range all {
			if !j.runContinue(c, m, opt, k, path) {
				return
			}
		}
	}
	if useCLI {
		f := j.with(all...)
		o := cli.Run([]cli.Spec{cli.Named("spec", f)}, j.opt, nil)
		c.Count("cli_runs", 1)
		j.cliVerdict(c, o, f, anyBad, "invariant")
		for _, k := range all {
			if hash(c.Case)%len(all) != k {
				continue
			}
			f := j.with(k)
			o := cli.Run([]cli.Spec{cli.Named("spec", f)}, j.opt, nil)
			c.Count("cli_runs", 1)
			var bad []int
			if len(j.bad[k]) > 0 {
				bad = []int{k}
			}
			j.cliVerdict(c, o, f, bad, "invariant")
		}
	}
}

func hash(s string) int {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return int(h & 0x7fffffff)
}

func (j *judged) cliVerdict(c *fw.Ctx, o *cli.Out, f *ast.File, bad []int, kind string) {
	if o.Err != nil {
		c.Fail("cli-error", "the binary did not finish: %v\n%s", o.Err, tail(o.Text))
		return
	}
	if len(bad) == 0 {
		if o.Verdict == "invariant" || o.Verdict == "transition" || o.Verdict == "unknown" {
			c.Fail("cli-spurious", "no assertion is violated but the run reports %v\n%s\n%s", o, tail(o.Text), specText(f))
		}
		return
	}
	if o.Verdict != kind {
		c.Fail("cli-missed", "assertions %v are violated but the run reports %v\n%s\n%s", j.names(bad), o, tail(o.Text), specText(f))
		return
	}
	for _, k := range bad {
		if j.invs[k].Name == o.Names[0] {
			return
		}
	}
	c.Fail("cli-name", "the run reports %v, the violated assertions are %v\n%s", o, j.names(bad), specText(f))
}

func (j *judged) names(ks []int) []string {
	var n []string
	for _, k := range ks {
		n = append(n, j.invs[k].Name)
	}
	return n
}

func tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

func (j *judged) runSafety(c *fw.Ctx, m impl.Mode, ks []int) bool {
	f := j.with(ks...)
	r, err := impl.Run(f, j.opt, m)
	c.Count("verdicts", 1)
	if err != nil {
		c.Fail("crash", "%v\n%s", err, specText(f))
		return false
	}
	if r.Err != nil {
		c.Fail("error", "%v\n%s", r.Err, specText(f))
		return false
	}
	want := false
	for _, k := range ks {
		want = want || len(j.bad[k]) > 0
	}
	c.Count("traces", 1)
	if r.Failed == nil {
		if want {
			c.Fail("missed", "assertion %v is violated in a reachable state but the run reports no failure\n%s", j.names(ks), specText(f))
			return false
		}
		return true
	}
	if !want {
		c.Fail("spurious", "the run reports the failure of %v in %s but no reachable state violates it\n%s", r.Failed.FailedInvariants, impl.Obs(r.Failed.Process), specText(f))
		return false
	}
	named := r.Failed.FailedInvariants[0]
	if len(named) == 0 {
		c.Fail("unnamed", "the failing state names no assertion\n%s", specText(f))
		return false
	}
	o := j.obsRet(r.Failed.Process)
	for i, k := range ks {
		isNamed := false
		for _, x := range named {
			isNamed = isNamed || x == i
		}
		isBad := j.badObs(k)[o]
		if isNamed && !isBad {
			c.Fail("wrong-state", "the failing state %s does not violate %s\n%s", o, j.invs[k].Name, specText(f))
			return false
		}
	}
	return true
}

// runContinue: after failures exploration goes on; the flagged states must be
// exactly the violating ones (path: through violating states too).
func (j *judged) runContinue(c *fw.Ctx, m impl.Mode, opt *ast.StateSpaceOptions, k int, path bool) bool {
	f := j.with(k)
	r, err := impl.Run(f, opt, m)
	c.Count("verdicts", 1)
	if err != nil || r.Err != nil {
		c.Fail("crash", "continuing after failures: %v\n%s", err, specText(f))
		return false
	}
	want := map[string]bool{}
	seen := map[string]bool{}
	// A running action may stutter, which forgets the values returned last.
	plain := map[string]bool{}
	var q []int
	push := func(i, e int) {
		to, st := j.rg.Tos[i][e], j.rg.Steps[i][e]
		isBad := j.bad[k][[2]int{i, e}]
		if isBad {
			want[st.RetObs()] = true
			plain[j.rg.LTS.Obs[to]] = true
		}
		// A state is identified with the values it returned.
		key := fmt.Sprint(to, st.Returns)
		if (!isBad || path) && !seen[key] {
			seen[key] = true
			q = append(q, to)
		}
	}
	for e := range j.rg.Steps[0] {
		push(0, e)
	}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		for e := range j.rg.Steps[i] {
			push(i, e)
		}
	}
	got := map[string]bool{}
	for _, n := range allNodes(r.Root) {
		if n.Process != nil && len(n.Process.FailedInvariants[0]) > 0 {
			if o := j.obsRet(n.Process); want[o] || len(n.Process.Returns) > 0 || !plain[impl.SymObs(n.Process, j.rg.Doms)] {
				got[o] = true
			}
		}
	}
	c.Count("traces", 1)
	if !path && (len(want) > 0) != (r.Failed != nil) {
		c.Fail("continue-verdict", "continuing after failures: %d violating states, failing node %v\n%s", len(want), r.Failed != nil, specText(f))
		return false
	}
	if c.Verbose {
		fmt.Println("want", keys(want), "got", keys(got))
	}
	if d := setDiff(want, got); d != "" {
		c.Fail("continue-states", "continuing after failures (path=%v) of %s: %s\n%s", path, j.invs[k].Name, d, specText(f))
		return false
	}
	return true
}

func setDiff(want, got map[string]bool) string {
	for _, k := range keys(want) {
		if !got[k] {
			return "missing " + k
		}
	}
	for _, k := range keys(got) {
		if !want[k] {
			return "spurious " + k
		}
	}
	return ""
}

// allNodes walks the explored graph.
func allNodes(root *mc.Node) []*mc.Node {
	seen := map[*mc.Node]bool{root: true}
	out := []*mc.Node{root}
	for i := 0; i < len(out); i++ {
		for _, l := range out[i].Outbound {
			if !seen[l.Node] {
				seen[l.Node] = true
				out = append(out, l.Node)
			}
		}
	}
	return out
}

// pairInvs: assertions over x, y in 0..2: one per valuation, block bodies,
// local variables, calls, and the values returned.
func pairInvs() []*ast.Invariant {
	var out []*ast.Invariant
	for x := 0; x < 3; x++ {
		for y := 0; y < 3; y++ {
			out = append(out, Always(fmt.Sprintf("Not%d%d", x, y), fmt.Sprintf("not (x == %d and y == %d)", x, y)))
		}
	}
	A := []string{"always"}
	out = append(out,
		Assertion("Block", A, If("x == 2", If("y == 1", Return("False"))), Return("True")),
		Assertion("Else", A, IfElse(Br{"x == 0", []S{Return("y < 2")}}, Br{"", []S{Py("t = x + y"), Return("t != 2")}})),
		Assertion("Loop", A, For(UNKNOWN, "i", "range(3)", If("i == x", If("i == y - 1", Return("False")))), Return("True")),
		Assertion("Fn", A, Call("t", "", "Q", "x"), Return("t != y")),
		Assertion("NoReturn", A, If("x + y < 4", Return("True"))),
		Assertion("Truthy", A, Return("[0] * (4 - x - y)")),
		Assertion("Rets", A, Return("__returns__.get('A', 0) != 2")),
		Assertion("RetsAny", A, Return("len(__returns__) == 0 or x > 0")),
		Assertion("Mutates", A, Py("x = x + 1"), Return("x < 3")),
	)
	return out
}

func exprInvs() []*ast.Invariant {
	var out []*ast.Invariant
	for x := 0; x < 3; x++ {
		for y := 0; y < 3; y++ {
			i := &ast.Invariant{SourceInfo: Always("x", "x").SourceInfo, Name: fmt.Sprintf("E%d%d", x, y), Always: true, PyExpr: fmt.Sprintf("not (x == %d and y == %d)", x, y)}
			out = append(out, i)
		}
	}
	return out
}

// withQ adds the function used by the assertion Fn.
func withQ(f *ast.File) *ast.File {
	f.Functions = append(f.Functions, Func(ATOMIC, "Q", []string{"p"}, If("p == 2", Return("0")), Return("p + 1")))
	return f
}

func withContinue(o *ast.StateSpaceOptions) *ast.StateSpaceOptions {
	o = proto.Clone(o).(*ast.StateSpaceOptions)
	o.ContinueOnInvariantFailures = true
	return o
}

func withCrash(o *ast.StateSpaceOptions) *ast.StateSpaceOptions {
	t := true
	o.Options.CrashOnYield = &t
	return o
}

func safetyPairs(m impl.Mode, crash, useCLI bool, invs func() []*ast.Invariant) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		opt := g.opt()
		if crash {
			withCrash(opt)
		}
		j := judge(c, withQ(g.file()), opt, invs())
		if j == nil {
			return
		}
		safety(c, j, m, useCLI)
		n := 0
		for k := range j.bad {
			if len(j.bad[k]) > 0 {
				n++
			}
		}
		c.Count("violated", n)
		c.Sample(map[string]any{"spec": specText(j.with()), "assertions": len(j.invs), "violated": n, "model_states": len(j.rg.Cfgs)})
	}
}

// valueInvs: one assertion per reachable value of an expression and one for a
// value that is not reachable.
func valueInvs(c *fw.Ctx, g gen, expr string, opt *ast.StateSpaceOptions) []*ast.Invariant {
	rg, err := build(g.file(), opt, opt.Options.GetCrashOnYield())
	if err != nil {
		return nil
	}
	vals := map[string]bool{}
	for _, cfg := range rg.Cfgs[1:] {
		v := cfg.CheckAssertion(Assertion("v", []string{"always"}, Return(expr)), nil)
		vals[v.String()] = true
	}
	var out []*ast.Invariant
	ks := keys(vals)
	if len(ks) > 12 {
		ks = ks[:12]
	}
	for i, k := range ks {
		out = append(out, Always(fmt.Sprintf("V%d", i), expr+" != "+k))
	}
	out = append(out, Always("None", expr+" != 'unreachable'"))
	return out
}

func valueSafety(expr string, crash bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		opt := g.opt()
		if crash {
			withCrash(opt)
		}
		invs := valueInvs(c, g, expr, opt)
		if invs == nil {
			c.Count("unsupported", 1)
			return
		}
		if j := judge(c, g.file(), opt, invs); j != nil {
			safety(c, j, impl.Mode{}, !crash || hash(c.Case)%8 == 0)
		}
	}
}

func retStr(p *mc.Process) string { return (&canon.R{}).Dict(p.Returns) }

func init() {
	fw.Register(&fw.Check{ID: "C02", Technique: "exhaustive enumeration of programs and assertions; the verdict, the failing state and the states flagged when continuing are compared with the reference state graph, in-process and through the binary", Rule: "every specification with one or two actions of the catalogue against 18 assertions alone and together, plus role and data specifications against one assertion per reachable value", Cases: func(tier string) []fw.Case {
		out := cat(
			genCases("pair/", pairs(1), safetyPairs(impl.Mode{}, false, true, pairInvs)),
			genCases("crash/", pairs(1), safetyPairs(impl.Mode{}, true, false, pairInvs)),
			genCases("expr/", pairs(1), safetyPairs(impl.Mode{}, false, false, exprInvs)),
			genCases("nograph/", pairs(1), safetyPairs(impl.Mode{NoGraph: true}, false, false, pairInvs)),
			genCases("rolecrash/", only(durSpecs(tier), "dur/1/c1", "dur/2/c1"), valueSafety("str([g, [(p.a, p.l) for p in peers]])", true)),
			genCases("role/", roleSpecs(), valueSafety("str([p.n for p in peers])", false)),
			genCases("data/", dataSpecs(), valueSafety("str(a) if type(a) in ('list', 'dict', 'tuple', 'record') else str(sorted([str(e) for e in a]))", false)),
		)
		if tier == "thorough" {
			out = cat(out,
				genCases("pair/", pairs(2), safetyPairs(impl.Mode{}, false, true, pairInvs)),
				genCases("crash/", pairs(2), safetyPairs(impl.Mode{}, true, false, pairInvs)),
				genCases("processed/", pairs(1, 2), safetyPairs(impl.Mode{Processed: true}, false, false, pairInvs)),
				genCases("nograph/", pairs(2), safetyPairs(impl.Mode{NoGraph: true}, false, false, pairInvs)),
			)
		} else {
			out = cat(out, genCases("pair/", pairs(2), safetyPairs(impl.Mode{}, false, false, exprInvs)))
		}
		return out
	}})
}

// only keeps the specifications with one of the prefixes.
func only(gs []gen, pre ...string) []gen {
	var out []gen
	for _, g := range gs {
		for _, p := range pre {
			if strings.HasPrefix(g.name, p) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}
