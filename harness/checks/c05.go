package checks

import (
	ast "fizz/proto"
	"fmt"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// deadSpecs: three actions out of a catalogue of guarded actions with choices
// that lead nowhere.
func deadSpecs(concs ...int64) []gen {
	type body struct {
		n    string
		flow ast.Flow
		mk   func() []S
	}
	bodies := []body{
		{"up", ATOMIC, func() []S { return []S{Require("x < 2"), Py("x = x + 1")} }},
		{"reset", ATOMIC, func() []S { return []S{Require("x > 0"), Py("x = 0"), AnyAssign("v", "[1, 2]"), Py("x = v")} }},
		{"dead", ATOMIC, func() []S { return []S{Py("t = 0"), AnyAssign("w", "[0, 1]"), Require("w > 5"), Py("x = 1")} }},
		{"half", ATOMIC, func() []S { return []S{Py("t = x"), Oneof(Require("t == 1"), Py("y = 1"))} }},
		{"noneed", ATOMIC, func() []S { return []S{AnyAssignIf("w", "[0, 1]", "w == x"), Py("y = w")} }},
		{"wait", SERIAL, func() []S { return []S{Require("y == 0"), Py("y = 1"), Require("x == 2"), Py("y = 0")} }},
		{"stuck", SERIAL, func() []S { return []S{Require("y == 0"), Py("y = 2"), Require("False")} }},
		{"par", SERIAL, func() []S { return []S{Require("x == 0"), Parallel(Py("x = 1"), Require("x == 1")), Py("y = x")} }},
		{"self", ATOMIC, func() []S { return []S{Require("x == 2"), Py("x = 2")} }},
		{"none", ATOMIC, func() []S { return []S{AnyAssign("w", "[]"), Py("x = w")} }},
		{"iff", ATOMIC, func() []S { return []S{If("x == 1", Py("y = 1 - y if y < 2 else 2"))} }},
		{"fn", SERIAL, func() []S { return []S{Require("x < 2"), Call("x", "", "G", "x"), Require("y == 0")} }},
	}
	var out []gen
	add := func(conc int64, bs ...body) {
		n := fmt.Sprintf("dead/c%d/", conc)
		for i, b := range bs {
			if i > 0 {
				n += "+"
			}
			n += b.n
		}
		out = append(out, gen{n, func() *ast.File {
			f := File(Init(Py("x = 0"), Py("y = 0")))
			for i, b := range bs {
				f.Actions = append(f.Actions, Act(b.flow, string(rune('A'+i)), b.mk()...))
			}
			f.Functions = append(f.Functions, Func(ATOMIC, "G", []string{"p"}, Require("p < 2"), Return("p + 1")))
			return f
		}, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
	}
	for _, conc := range concs {
		for i, a := range bodies {
			add(conc, a)
			for j := i + 1; j < len(bodies); j++ {
				add(conc, a, bodies[j])
				for k := j + 1; k < len(bodies); k++ {
					add(conc, a, bodies[j], bodies[k])
				}
			}
		}
	}
	return out
}

// deadStates: observations of the states without a step (crashes do not count).
func deadStates(rg *ref.Graph) map[string]bool {
	m := map[string]bool{}
	for i := 1; i < len(rg.Cfgs); i++ {
		live := false
		for _, st := range rg.Steps[i] {
			live = live || st.Kind != "crash" && st.Kind != "rolecrash"
		}
		if !live {
			m[rg.LTS.Obs[i]] = true
		}
	}
	return m
}

func deadlock(crash bool, modes []impl.Mode, useCLI bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		yes := true
		opt.DeadlockDetection = &yes
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		dead := deadStates(rg)
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		if len(dead) > 0 {
			c.Count("deadlocking", 1)
		}
		for _, m := range modes {
			r, err := impl.Run(f, opt, m)
			c.Count("verdicts", 1)
			c.Count("traces", 1)
			if err != nil || r.Err != nil {
				c.Fail("crash", "mode %+v: %v\n%s", m, err, specText(f))
				return
			}
			var n *mc.Node
			if m.Processed || m.NoGraph {
				n = r.P.GetEarlyDeadlock()
			}
			if n == nil && !m.NoGraph {
				_, _, n, _ = mc.GetAllNodes(r.Root, opt.Options.MaxActions)
			}
			if n == nil && len(dead) > 0 {
				c.Fail("missed", "mode %+v: the state %s has no successor but no deadlock is reported\n%s", m, keys(dead)[0], specText(f))
				return
			}
			if n != nil && n.Process.Heap != nil && !dead[impl.SymObs(n.Process, rg.Doms)] {
				c.Fail("spurious", "mode %+v: a deadlock is reported in %s; states without successors: %v\n%s", m, impl.Obs(n.Process), keys(dead), specText(f))
				return
			}
			if n != nil && len(dead) == 0 {
				c.Fail("spurious", "mode %+v: a deadlock is reported but every state has a successor\n%s", m, specText(f))
				return
			}
		}
		if useCLI {
			for _, on := range []bool{true, false} {
				o2 := proto.Clone(opt).(*ast.StateSpaceOptions)
				o2.DeadlockDetection = &on
				o := cli.Run([]cli.Spec{cli.Named("spec", f)}, o2, nil)
				c.Count("cli_runs", 1)
				want := "pass"
				if on && len(dead) > 0 {
					want = "deadlock"
				}
				if o.Verdict != want {
					c.Fail("cli-verdict", "deadlock detection %v: the run reports %v, expected %s\n%s\n%s", on, o, want, tail(o.Text), specText(f))
					return
				}
			}
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "deadlocks": keys(dead)})
	}
}

// exists decides exists assertions: those never reached are exactly the ones
// reported.
func exists(crash, useCLI bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		opt := g.opt()
		if crash {
			withCrash(opt)
		}
		var invs []*ast.Invariant
		for _, i := range pairInvs() {
			if i.Name == "Rets" || i.Name == "RetsAny" {
				continue // the values returned belong to a step, not to a state
			}
			e := proto.Clone(i).(*ast.Invariant)
			e.TemporalOperators = []string{"exists"}
			invs = append(invs, e)
		}
		for x := 0; x < 3; x++ {
			for y := 0; y < 3; y++ {
				invs = append(invs, Assertion(fmt.Sprintf("Is%d%d", x, y), []string{"exists"}, Return(fmt.Sprintf("x == %d and y == %d", x, y))))
			}
		}
		existsIn(c, withQ(g.file()), opt, invs, useCLI)
	}
}

func existsIn(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, invs []*ast.Invariant, useCLI bool) {
	{
		j := judge(c, f, opt, invs)
		if j == nil {
			return
		}
		no := false
		opt.DeadlockDetection = &no
		// holds somewhere: not every step target falsifies it
		total := 0
		for i := range j.rg.Steps {
			total += len(j.rg.Steps[i])
		}
		var all []int
		reached := map[int]bool{}
		for k := range invs {
			all = append(all, k)
			reached[k] = len(j.bad[k]) < total
		}
		sets := [][]int{all}
		for k := range invs {
			sets = append(sets, []int{k})
		}
		for n, ks := range sets {
			f := j.with(ks...)
			want := map[string]bool{}
			for _, k := range ks {
				if !reached[k] {
					want[invs[k].Name] = true
				}
			}
			for _, m := range []impl.Mode{{}, {Processed: true}} {
				r, err := impl.Run(f, j.opt, m)
				c.Count("verdicts", 1)
				c.Count("traces", 1)
				if err != nil || r.Err != nil || r.Failed != nil {
					c.Fail("crash", "%v\n%s", err, specText(f))
					return
				}
				nodes, _, _, _ := mc.GetAllNodes(r.Root, opt.Options.MaxActions)
				got := map[string]bool{}
				for _, p := range mc.CheckSimpleExistsWitness(nodes) {
					got[f.Invariants[p.InvariantIndex].Name] = true
				}
				if d := setDiff(want, got); d != "" {
					c.Fail("exists", "mode %+v: assertions never reached: %s\n%s", m, d, specText(f))
					return
				}
			}
			if useCLI && (n == 0 || n == 1+hash(c.Case)%len(invs)) {
				o := cli.Run([]cli.Spec{cli.Named("spec", f)}, j.opt, nil)
				c.Count("cli_runs", 1)
				verdict := "pass"
				if len(want) > 0 {
					verdict = "exists"
				}
				got := map[string]bool{}
				for _, n := range o.Names {
					got[n] = true
				}

				if o.Verdict != verdict || setDiff(want, got) != "" {
					c.Fail("cli", "the run reports %v, never reached: %v\n%s\n%s", o, keys(want), tail(o.Text), specText(f))
					return
				}
			}
		}
		c.Sample(map[string]any{"spec": specText(j.with()), "assertions": len(invs), "never_reached": len(invs) - count(reached), "model_states": len(j.rg.Cfgs)})
	}
}

func count(m map[int]bool) int {
	n := 0
	for _, v := range m {
		if v {
			n++
		}
	}
	return n
}

func init() {
	all := []impl.Mode{{}, {Processed: true}, {NoGraph: true}, {Strategy: "dfs"}}
	graph := []impl.Mode{{}, {Processed: true}}
	fw.Register(&fw.Check{ID: "C05", Technique: "exhaustive enumeration of programs; the deadlock verdict and the reported state of every exploration mode are compared with the states without successors of the reference graph, in-process and through the binary", Rule: "every specification with up to three of twelve guarded actions, one or two actions of the catalogue, and the mid-step, role, data and channel families, with and without crashes", Cases: func(tier string) []fw.Case {
		out := cat(
			genCases("", deadSpecs(1), deadlock(false, all, true)),
			genCases("", deadSpecs(2), deadlock(false, all, false)),
			genCases("crash/", deadSpecs(1, 2), deadlock(true, graph, false)),
			genCases("pair/", pairs(1, 2), deadlock(false, all, false)),
			genCases("pair/crash/", pairs(1, 2), deadlock(true, graph, false)),
			genCases("rolecrash/", only(durSpecs(tier), "dur/1", "dur/2/c1"), deadlock(true, graph, false)),
			genCases("", midSpecs(1, 2), deadlock(false, all, false)),
			genCases("", roleSpecs(), deadlock(false, all, false)),
			genCases("", dataSpecs(), deadlock(false, all, false)),
			genCases("", chanSpecs(), deadlock(false, all, false)),
		)
		if tier == "thorough" {
			out = cat(out,
				genCases("cli/", deadSpecs(2), deadlock(false, all, true)),
				genCases("cli/crash/", deadSpecs(1, 2), deadlock(true, graph, true)),
				genCases("mid/crash/", midSpecs(1, 2), deadlock(true, graph, true)),
			)
		}
		return out
	}})
	fw.Register(&fw.Check{ID: "C04", Technique: "exhaustive enumeration of programs and exists assertions; the set of assertions reported as never reached is compared with the reference state graph, in-process and through the binary", Rule: "every specification with one or two actions of the catalogue and of the mid-step family against 25 assertions alone and together", Cases: func(tier string) []fw.Case {
		out := cat(
			genCases("pair/", pairs(1), exists(false, true)),
			genCases("crash/", pairs(1), exists(true, false)),
			genCases("", midSpecs(1), exists(false, false)),
			genCases("", deadSpecs(1), exists(false, false)),
		)
		if tier == "thorough" {
			out = cat(out,
				genCases("pair/", pairs(2), exists(false, true)),
				genCases("crash/", pairs(2), exists(true, true)),
				genCases("", midSpecs(2), exists(false, true)),
				genCases("", deadSpecs(2), exists(false, true)),
			)
		}
		return out
	}})
}
