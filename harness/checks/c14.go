package checks

import (
	ast "fizz/proto"
	"fmt"
	"slices"
	"strings"
	"time"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
	. "verif/sb"
)

var graphModes = []impl.Mode{
	{Strategy: "bfs"}, {Strategy: "dfs"}, {Strategy: "random", Seed: 1}, {Strategy: "random", Seed: 2}, {Strategy: "random", Seed: 77},
	{Processed: true}, {Processed: true, Strategy: "dfs"}, {Processed: true, Strategy: "random", Seed: 3}, {NoSym: true},
	{NoReturns: true}, {NoReturns: true, Processed: true}, {NoReturns: true, Strategy: "dfs"},
}

// noReturns drops the returned values from the labels.
func noReturns(l *lts.LTS) *lts.LTS {
	n := &lts.LTS{Obs: l.Obs, Info: l.Info, Extra: l.Extra}
	for i, es := range l.Out {
		var out []lts.Edge
		for _, e := range es {
			if k := strings.Index(e.Label, " returns "); k >= 0 {
				e.Label = e.Label[:k]
			}
			e.Tau = i > 0 && strings.HasPrefix(e.Label, "thread:") && l.Obs[i] == l.Obs[e.To] || e.Tau
			out = append(out, e)
		}
		n.Out = append(n.Out, out)
	}
	return n
}

// modeTraces: every exploration mode has exactly the behaviours of the reference.
func modeTraces(crash bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		opt.Options.MaxActions = 10000 // not binding, whatever the order
		if crash {
			withCrash(opt)
		}
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		bare := noReturns(rg.LTS)
		uniq := -1
		for _, m := range graphModes {
			r, err := impl.Run(f, opt, m)
			if err != nil || r.Err != nil || r.Root == nil {
				c.Fail("crash", "mode %+v: %v\n%s", m, err, specText(f))
				return
			}
			ig := impl.Extract(r.Root)
			a, b := rg.LTS, ig.LTS
			if m.NoReturns {
				a, b = bare, noReturns(b)
			}
			d, st, err := lts.Compare(a, b, 0, 400000)
			if err != nil {
				panic(err)
			}
			c.Count("traces", st.Moves)
			if d != nil {
				sig := "missing"
				if d.Missing == "" {
					sig = "spurious"
				}
				c.Fail(sig, "mode %+v: %v\n%s", m, d, specText(f))
				return
			}
			if !m.NoReturns && !crash {
				if uniq < 0 {
					uniq = r.P.GetUniqueYieldCount()
				}
				_, _, _, ys := mc.GetAllNodes(r.Root, opt.Options.MaxActions)
				if n := r.P.GetUniqueYieldCount(); n != uniq || ys != uniq {
					c.Fail("count", "mode %+v: %d unique states (%d in the graph), the first mode %d\n%s", m, n, ys, uniq, specText(f))
					return
				}
			}
		}
		if !crash {
			for _, m := range []impl.Mode{{NoGraph: true}, {NoGraph: true, Strategy: "dfs"}, {NoGraph: true, Strategy: "random", Seed: 4}} {
				r, err := impl.Run(f, opt, m)
				if err != nil || r.Err != nil {
					c.Fail("crash", "mode %+v: %v\n%s", m, err, specText(f))
					return
				}
				c.Count("traces", 1)
				if n := r.P.GetUniqueYieldCount(); n != uniq {
					c.Fail("count", "mode %+v: %d unique states, with the graph %d\n%s", m, n, uniq, specText(f))
					return
				}
			}
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "unique": uniq, "modes": len(graphModes) + 3})
	}
}

// expected is what a run has to report about a specification.
type expected struct {
	always, trans, exists, live map[string]bool
	firstLive                   string
	dead                        bool
}

func expect(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions) *expected {
	e := &expected{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, "", false}
	kind := map[string][]*ast.Invariant{}
	for _, inv := range f.Invariants {
		op := strings.Join(inv.TemporalOperators, " ")
		if strings.Contains(op, "eventually") {
			op = "live"
		}
		kind[op] = append(kind[op], inv)
	}
	j := judge(c, f, opt, append(append([]*ast.Invariant{}, kind["always"]...), kind["exists"]...))
	if j == nil {
		return nil
	}
	total := 0
	for i := range j.rg.Steps {
		total += len(j.rg.Steps[i])
	}
	for k, inv := range j.invs {
		if k < len(kind["always"]) {
			if len(j.bad[k]) > 0 {
				e.always[inv.Name] = true
			}
		} else if len(j.bad[k]) == total {
			e.exists[inv.Name] = true
		}
	}
	for _, inv := range kind["transition"] {
		for i := 1; i < len(j.rg.Cfgs); i++ {
			for _, st := range j.rg.Steps[i] {
				if !transTruth(j.rg.Cfgs[i], st.To, inv) {
					e.trans[inv.Name] = true
				}
			}
		}
	}
	if len(kind["live"]) > 0 {
		fg := newFair(j.rg)
		for _, inv := range kind["live"] {
			val := make([]bool, len(j.rg.Cfgs))
			for i := 1; i < len(val); i++ {
				val[i] = truth(j.rg.Cfgs[i], inv, &ref.Step{})
			}
			if fg.violates(isAE(inv), val) != nil {
				e.live[inv.Name] = true
				if e.firstLive == "" {
					e.firstLive = inv.Name
				}
			}
		}
	}
	e.dead = len(deadStates(j.rg)) > 0 && opt.GetDeadlockDetection()
	return e
}

// check compares a verdict with the expected one. early: a deadlock can be
// reported before a violated assertion is found.
func (e *expected) check(o *cli.Out, early bool) string {
	if o.Err != nil {
		return fmt.Sprintf("did not finish: %v", o.Err)
	}
	ok := false
	switch {
	case len(e.always)+len(e.trans) > 0:
		ok = o.Verdict == "invariant" && e.always[o.Names[0]] || o.Verdict == "transition" && e.trans[o.Names[0]] ||
			early && e.dead && o.Verdict == "deadlock"
	case e.dead:
		ok = o.Verdict == "deadlock"
	case len(e.exists) > 0:
		ns := slices.Clone(o.Names)
		slices.Sort(ns)
		ok = o.Verdict == "exists" && slices.Equal(slices.Compact(ns), keys(e.exists))
	case len(e.live) > 0:
		ok = o.Verdict == "liveness" && o.Names[0] == e.firstLive
	default:
		ok = o.Verdict == "pass"
	}
	if ok {
		return ""
	}
	return fmt.Sprintf("reports %v; violated always %v, transition %v, never reached %v, liveness %v, deadlock %v", o, keys(e.always), keys(e.trans), keys(e.exists), keys(e.live), e.dead)
}

var modeFlags = []struct {
	flags []string
	early bool
}{
	{nil, false},
	{[]string{"--exploration_strategy", "dfs"}, false},
	{[]string{"--exploration_strategy", "random", "--seed", "5"}, false},
	{[]string{"--experimental_processed_queue"}, true},
	{[]string{"--experimental_processed_queue", "--exploration_strategy", "dfs"}, true},
	{[]string{"--experimental_no_graph"}, true},
	{[]string{"--experimental_no_graph", "--exploration_strategy", "random", "--seed", "8"}, true},
	{[]string{"--no-symmetry-reduction"}, false},
	{[]string{"--save_states"}, false},
	{[]string{"--test"}, false},
}

// mixes are the assertion sets of the verdict comparison: one of each kind,
// then all kinds together.
func mixes(h int) [][]*ast.Invariant {
	aw := []*ast.Invariant{Always("NotBoth", "not (x == 2 and y == 2)"), Always("X2", "x < 2"), Always("In", "x >= 0")}
	tr := []*ast.Invariant{TransAssertion("Mono", Return("after.x >= before.x")), TransAssertion("Y", Return("before.y == after.y or after.y < 2")), TransAssertion("T", Return("True"))}
	ex := func(n, e string) *ast.Invariant { return Assertion(n, []string{"exists"}, Return(e)) }
	es := []*ast.Invariant{ex("Ex2", "x == 2"), ex("Ex12", "x == 1 and y == 2"), ex("Ey1", "y == 1")}
	ls := []*ast.Invariant{
		Assertion("L0", []string{"always", "eventually"}, Return("x == 0")),
		Assertion("L1", []string{"eventually", "always"}, Return("x != 1")),
		Assertion("L2", []string{"always", "eventually"}, Return("y == 0 or x > 0")),
	}
	i := h % 3
	return [][]*ast.Invariant{
		{aw[i]}, {tr[i]}, {es[i], es[(i+1)%3]}, {ls[i]},
		{es[i], aw[2], tr[2], ls[(h/3)%3]},
		{tr[i], es[(h/3)%3], aw[(h/9)%3]},
		nil,
	}
}

// modeVerdicts: the binary reports the same, right, verdict in every mode.
func modeVerdicts(n int, crash bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		opt := g.opt()
		if crash {
			withCrash(opt)
		}
		h := hash(c.Case)
		ms := mixes(h)
		for k := 0; k < n; k++ {
			f := proto.Clone(g.file()).(*ast.File)
			f.Invariants = ms[(h/7+k)%len(ms)]
			dead := (h+k)%2 == 0
			opt.DeadlockDetection = &dead
			e := expect(c, f, opt)
			if e == nil {
				return
			}
			for _, mf := range modeFlags {
				noGraph := slices.Contains(mf.flags, "--experimental_no_graph")
				if noGraph && crash {
					continue
				}
				live := false
				for _, inv := range f.Invariants {
					live = live || slices.Contains(inv.TemporalOperators, "eventually")
				}
				o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, nil, mf.flags...)
				c.Count("cli_runs", 1)
				c.Count("traces", 1)
				if noGraph && live {
					if !strings.Contains(o.Text, "refused") || o.Verdict == "pass" {
						c.Fail("cli-refuse", "%v with a liveness assertion reports %v\n%s", mf.flags, o, specText(f))
						return
					}
					continue
				}
				if msg := e.check(o, mf.early); msg != "" {
					c.Fail("cli-verdict", "the run with %v %s\n%s\n%s", mf.flags, msg, tail(o.Text), specText(f))
					return
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C14",
		Technique: "exhaustive enumeration of programs; the graph of every exploration mode is compared with the reference graph by subset construction over all traces, the number of states of the modes without a graph with those with one, and the verdict of the binary under every mode flag with the verdict computed on the reference graph",
		Rule:      "one or two actions of the catalogue (alone and concurrent, with crashes), mid-step, role, channel and call families, under twelve graph modes, three modes without a graph and ten sets of flags",
		Cases: func(tier string) []fw.Case {
			n := 1
			if tier == "thorough" {
				n = 7
			}
			out := cat(
				genCases("trace/", pairs(1, 2), modeTraces(false)),
				genCases("trace/", midSpecs(1, 2), modeTraces(false)),
				genCases("trace/", roleSpecs(), modeTraces(false)),
				genCases("trace/", chanSpecs(), modeTraces(false)),
				genCases("cli/", pairs(1, 2), modeVerdicts(n, false)),
				genCases("cli/crash/", pairs(1), modeVerdicts(n, true)),
				genCases("cli/", deadSpecs(1), modeVerdicts(n, false)),
			)
			if tier == "thorough" {
				out = cat(out,
					genCases("trace/crash/", pairs(1, 2), modeTraces(true)),
					genCases("trace/", callSpecs(), modeTraces(false)),
					genCases("cli/", deadSpecs(2), modeVerdicts(n, false)),
					genCases("cli/crash/", deadSpecs(2), modeVerdicts(n, true)),
				)
			}
			for i := range out {
				out[i].Timeout = 90 * time.Second
			}
			return out
		}})
}
