package checks

import (
	ast "fizz/proto"
	"fmt"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

func stateStruct(name string, c *ref.Cfg) starlark.Value {
	d := starlark.StringDict{}
	for k, v := range c.State {
		d[k] = v
	}
	return starlarkstruct.FromStringDict(starlark.String(name), d)
}

// transTruth evaluates a transition assertion for one step.
func transTruth(from, to *ref.Cfg, inv *ast.Invariant) bool {
	b, a := "before", "after"
	if len(inv.Params) == 2 {
		b, a = inv.Params[0].Name, inv.Params[1].Name
	}
	args := map[string]starlark.Value{b: stateStruct(b, from), a: stateStruct(a, to)}
	return bool(to.CheckAssertion(inv, args).Truth())
}

// transJudge finds the reference steps that violate each assertion. Crashes
// of a thread change no state and are stutter steps.
func transJudge(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, invs []*ast.Invariant) *judged {
	rg, err := build(f, opt, opt.Options.GetCrashOnYield())
	if err == ref.ErrUnsupported {
		c.Count("unsupported", 1)
		return nil
	}
	if err != nil {
		panic(err)
	}
	j := &judged{f: f, opt: opt, rg: rg, invs: invs}
	for _, inv := range invs {
		bad := map[[2]int]bool{}
		for i := 1; i < len(rg.Cfgs); i++ {
			for k, st := range rg.Steps[i] {
				if !transTruth(rg.Cfgs[i], st.To, inv) {
					bad[[2]int{i, k}] = true
				}
			}
		}
		j.bad = append(j.bad, bad)
	}
	c.Count("states", len(rg.Cfgs))
	c.Count("transitions", rg.LTS.Edges())
	c.Count("programs", 1)
	return j
}

// stepOf returns the observations before and after the step that ends in n.
func (j *judged) stepOf(n *mc.Node) (string, string) {
	to := impl.SymObs(n.Process, j.rg.Doms)
	p := n
	for len(p.Inbound) > 0 && p.Inbound[0].Node != nil {
		p = p.Inbound[0].Node
		if impl.IsYield(p) {
			return impl.SymObs(p.Process, j.rg.Doms), to
		}
	}
	return "?", to
}

func (j *judged) badSteps(k int) map[string]bool {
	m := map[string]bool{}
	for e := range j.bad[k] {
		m[j.rg.LTS.Obs[e[0]]+" -> "+j.rg.LTS.Obs[j.rg.Tos[e[0]][e[1]]]] = true
	}
	return m
}

func (j *judged) runTrans(c *fw.Ctx, m impl.Mode, ks []int) bool {
	f := j.with(ks...)
	r, err := impl.Run(f, j.opt, m)
	c.Count("verdicts", 1)
	c.Count("traces", 1)
	if err != nil {
		c.Fail("crash", "%v\n%s", err, specText(f))
		return false
	}
	if r.Err != nil {
		c.Fail("error", "%v\n%s", r.Err, specText(f))
		return false
	}
	want := false
	for _, k := range ks {
		want = want || len(j.bad[k]) > 0
	}
	if r.Failed == nil {
		if want {
			c.Fail("missed", "transition assertion %v is violated by a reachable step but the run reports no failure\n%s", j.names(ks), specText(f))
			return false
		}
		return true
	}
	if m.NoGraph {
		if !want {
			c.Fail("spurious", "the run reports a failure but no reachable step violates %v\n%s", j.names(ks), specText(f))
			return false
		}
		return true
	}
	from, to := j.stepOf(r.Failed)
	if !want {
		c.Fail("spurious", "the run reports the step %s -> %s but no reachable step violates %v\n%s", from, to, j.names(ks), specText(f))
		return false
	}
	named := r.Failed.Inbound[0].FailedInvariants[0]
	if len(named) == 0 {
		c.Fail("unnamed", "the failing link names no assertion\n%s", specText(f))
		return false
	}
	for _, x := range named {
		if !j.badSteps(ks[x])[from+" -> "+to] {
			c.Fail("wrong-step", "the failing step %s -> %s does not violate %s\n%s", from, to, j.invs[ks[x]].Name, specText(f))
			return false
		}
	}
	return true
}

// runTransContinue: with continuation, the flagged steps are the violating
// ones among the steps that stay reachable.
func (j *judged) runTransContinue(c *fw.Ctx, m impl.Mode, opt *ast.StateSpaceOptions, k int) bool {
	f := j.with(k)
	r, err := impl.Run(f, opt, m)
	c.Count("verdicts", 1)
	c.Count("traces", 1)
	if err != nil || r.Err != nil {
		c.Fail("crash", "continuing after failures: %v\n%s", err, specText(f))
		return false
	}
	want := map[string]bool{}
	seen := map[int]bool{}
	var q []int
	for _, to := range j.rg.Tos[0] {
		if !seen[to] {
			seen[to] = true
			q = append(q, to)
		}
	}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		for e, to := range j.rg.Tos[i] {
			if j.bad[k][[2]int{i, e}] {
				want[j.rg.LTS.Obs[i]+" -> "+j.rg.LTS.Obs[to]] = true
			} else if !seen[to] {
				seen[to] = true
				q = append(q, to)
			}
		}
	}
	got := map[string]bool{}
	for _, n := range allNodes(r.Root) {
		if n.Process == nil {
			continue
		}
		for _, l := range n.Inbound {
			if len(l.FailedInvariants[0]) > 0 {
				from, to := j.stepOf(n)
				got[from+" -> "+to] = true
			}
		}
	}
	if (len(want) > 0) != (r.Failed != nil) {
		c.Fail("continue-verdict", "continuing after failures: %d violating steps, failing node %v\n%s", len(want), r.Failed != nil, specText(f))
		return false
	}
	if d := setDiff(want, got); d != "" {
		c.Fail("continue-steps", "continuing after failures of %s: %s\n%s", j.invs[k].Name, d, specText(f))
		return false
	}
	return true
}

func transitions(c *fw.Ctx, j *judged, m impl.Mode, useCLI bool) {
	var all, anyBad []int
	for k := range j.invs {
		all = append(all, k)
		if len(j.bad[k]) > 0 {
			anyBad = append(anyBad, k)
		}
		if !j.runTrans(c, m, []int{k}) {
			return
		}
	}
	c.Count("violated", len(anyBad))
	if !j.runTrans(c, m, all) || m.NoGraph {
		return
	}
	opt := withContinue(j.opt)
	for _, k := range all {
		if !j.runTransContinue(c, m, opt, k) {
			return
		}
	}
	if useCLI {
		for n, ks := range [][]int{all, {hash(c.Case) % len(all)}} {
			bad := anyBad
			if n == 1 {
				bad = nil
				if len(j.bad[ks[0]]) > 0 {
					bad = ks
				}
			}
			f := j.with(ks...)
			o := cli.Run([]cli.Spec{cli.Named("spec", f)}, j.opt, nil)
			c.Count("cli_runs", 1)
			j.cliVerdict(c, o, f, bad, "transition")
		}
	}
	c.Sample(map[string]any{"spec": specText(j.with()), "assertions": len(j.invs), "violated": len(anyBad), "model_states": len(j.rg.Cfgs)})
}

// pairTrans: every single change of x or y, changes of both, monotonicity;
// all of them hold on stutter steps.
func pairTrans() []*ast.Invariant {
	var out []*ast.Invariant
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			if a != b {
				out = append(out, TransAssertion(fmt.Sprintf("X%d%d", a, b), Return(fmt.Sprintf("not (before.x == %d and after.x == %d)", a, b))))
				out = append(out, TransAssertion(fmt.Sprintf("Y%d%d", a, b), Return(fmt.Sprintf("not (before.y == %d and after.y == %d)", a, b))))
			}
		}
	}
	named := TransAssertion("Named", Return("old.x == new.x or old.y == new.y"))
	named.Params[0].Name, named.Params[1].Name = "old", "new"
	bare := TransAssertion("Bare", Return("before.x <= x"))
	noparams := TransAssertion("NoParams", If("after.x < before.x", Return("after.y >= before.y")), Return("True"))
	noparams.Params = nil
	return append(out, named, bare, noparams,
		TransAssertion("Mono", If("before.y != after.y", Return("after.y > before.y")), Return("True")),
		TransAssertion("Local", Py("d = after.x + after.y - before.x - before.y"), Return("d < 2")),
		TransAssertion("Fn", Call("t", "", "Q", "before.x"), Return("t != after.x or before.x == after.x")),
	)
}

func transPairs(m impl.Mode, crash, useCLI bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		opt := g.opt()
		if crash {
			withCrash(opt)
		}
		if j := transJudge(c, withQ(g.file()), opt, pairTrans()); j != nil {
			transitions(c, j, m, useCLI)
		}
	}
}

// transValues: for a value expression, every change between two reachable values.
func transValues(expr func(v string) string) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		rg, err := build(g.file(), g.opt(), false)
		if err != nil {
			c.Count("unsupported", 1)
			return
		}
		vals := map[string]bool{}
		for _, cfg := range rg.Cfgs[1:] {
			vals[transEval(cfg, expr("after"))] = true
		}
		ks := keys(vals)
		if len(ks) > 4 {
			ks = ks[:4]
		}
		var invs []*ast.Invariant
		for i, a := range ks {
			for k, b := range ks {
				if a != b {
					invs = append(invs, TransAssertion(fmt.Sprintf("V%d%d", i, k), Return(fmt.Sprintf("not (%s == %s and %s == %s)", expr("before"), a, expr("after"), b))))
				}
			}
		}
		invs = append(invs, TransAssertion("True", Return("True")))
		if j := transJudge(c, g.file(), g.opt(), invs); j != nil {
			transitions(c, j, impl.Mode{}, false)
		}
	}
}

func transEval(cfg *ref.Cfg, expr string) string {
	v := cfg.CheckAssertion(Assertion("v", []string{"always"}, Return(expr)), map[string]starlark.Value{"after": stateStruct("after", cfg)})
	return v.String()
}

func init() {
	fw.Register(&fw.Check{ID: "C03", Technique: "exhaustive enumeration of programs and transition assertions; the verdict, the failing step and the steps flagged when continuing are compared with the steps of the reference state graph, in-process and through the binary", Rule: "every specification with one or two actions of the catalogue and of the mid-step family against 18 transition assertions, role and data specifications against every change of a value", Cases: func(tier string) []fw.Case {
		roleVal := func(s string) string { return "str([p.n for p in " + s + ".peers])" }
		dataVal := func(s string) string {
			a := s + ".a"
			return "str(" + a + ") if type(" + a + ") in ('list', 'dict', 'tuple', 'record') else str(sorted([str(e) for e in " + a + "]))"
		}
		out := cat(
			genCases("pair/", pairs(1), transPairs(impl.Mode{}, false, true)),
			genCases("crash/", pairs(1), transPairs(impl.Mode{}, true, false)),
			genCases("processed/", pairs(1), transPairs(impl.Mode{Processed: true}, false, false)),
			genCases("nograph/", pairs(1), transPairs(impl.Mode{NoGraph: true}, false, false)),
			genCases("mid/", midSpecs(1, 2), transPairs(impl.Mode{}, false, false)),
			genCases("role/", roleSpecs(), transValues(roleVal)),
			genCases("data/", dataSpecs(), transValues(dataVal)),
		)
		if tier == "thorough" {
			out = cat(out,
				genCases("pair/", pairs(2), transPairs(impl.Mode{}, false, true)),
				genCases("crash/", pairs(2), transPairs(impl.Mode{}, true, false)),
				genCases("processed/", pairs(2), transPairs(impl.Mode{Processed: true}, false, false)),
				genCases("nograph/", pairs(2), transPairs(impl.Mode{NoGraph: true}, false, false)),
				genCases("mid-processed/", midSpecs(1, 2), transPairs(impl.Mode{Processed: true}, false, false)),
				genCases("mid-nograph/", midSpecs(1, 2), transPairs(impl.Mode{NoGraph: true}, false, false)),
				genCases("mid-crash/", midSpecs(1, 2), transPairs(impl.Mode{}, true, true)),
			)
		}
		return out
	}})
}

// midSpecs: steps with several choices and states in between that other
// steps pass through as well.
func midSpecs(concs ...int64) []gen {
	type body struct {
		n  string
		mk func() []S
	}
	bodies := []body{
		{"twice", func() []S { return []S{Py("x = 0"), AnyAssign("v", "[1, 2]"), Py("x = v")} }},
		{"dip", func() []S { return []S{Py("t = x"), Py("x = 0"), Oneof(Py("x = t"), Py("y = t"))} }},
		{"both", func() []S { return []S{Oneof(Py("x = 1"), Py("x = 2")), Oneof(Py("y = x"), Py("y = 0"))} }},
		{"dead", func() []S { return []S{Py("x = 0"), AnyAssign("v", "[0, 1]"), Require("v != y"), Py("y = v")} }},
		{"back", func() []S { return []S{Oneof(Py("y = 2"), Py("y = 1")), Py("y = 0")} }},
		{"stay", func() []S { return []S{Oneof(Pass(), Py("x = 2"), Require("x == 2"))} }},
		{"nest", func() []S { return []S{Any("v", "[0, 1]", Py("x = v"), Any("w", "[0, 2]", Py("y = w")))} }},
		{"fn", func() []S { return []S{AnyAssign("v", "[0, 1]"), Call("y", "", "G", "v"), Py("x = y")} }},
	}
	var out []gen
	for _, conc := range concs {
		for i, a := range bodies {
			for _, b := range bodies[i:] {
				for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
					if fl == SERIAL && conc == 2 && (a.n == "nest" || b.n == "nest") {
						continue
					}
					out = append(out, gen{fmt.Sprintf("mid/c%d/%s%s+%s", conc, flowName(fl), a.n, b.n), func() *ast.File {
						f := File(Init(Py("x = 0"), Py("y = 0")), Act(fl, "A", a.mk()...), Act(ATOMIC, "B", b.mk()...))
						f.Functions = append(f.Functions, Func(ATOMIC, "G", []string{"p"}, Py("y = p"), Return("(p + 1) % 3")))
						return f
					}, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
				}
			}
		}
	}
	return out
}
