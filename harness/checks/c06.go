package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// fairGraph is the reference graph unfolded at the choices made inside a step,
// with the fairness constraints of its edges.
//
// A weak constraint holds on an infinite run unless it is enabled from some
// point on at every yield point and never taken again; a strong one unless it
// is enabled infinitely often and taken finitely often. Starting a fair action
// is weak or strong as declared; every value of a fair oneof is strong
// whenever the choice is reached; a running thread always continues (strong).
// Crashes happen finitely often.
type fairGraph struct {
	out   [][]fedge
	cfg   []int // reference node, -1 inside a step
	enabW []map[string]bool
	enabS []map[string]bool
	init  []int
}

type fedge struct {
	to    int
	weak  string
	str   string
	crash bool
}

func (g *fairGraph) add(cfg int) int {
	g.out = append(g.out, nil)
	g.cfg = append(g.cfg, cfg)
	return len(g.out) - 1
}

func newFair(rg *ref.Graph) *fairGraph {
	g := &fairGraph{}
	for i := range rg.Cfgs {
		g.add(i)
	}
	for i := range rg.Cfgs {
		if i > 0 {
			g.out[i] = append(g.out[i], fedge{to: i}) // idling
		}
		// steps of one action or thread share their choices
		inner := map[string]int{}
		seen := map[string]bool{}
		link := func(from int, e fedge) {
			k := fmt.Sprint(from, e)
			if !seen[k] {
				seen[k] = true
				g.out[from] = append(g.out[from], e)
			}
		}
		for k, st := range rg.Steps[i] {
			e := fedge{}
			switch st.Kind {
			case "init":
			case "action":
				switch st.Fair {
				case ast.FairnessLevel_FAIRNESS_LEVEL_WEAK:
					e.weak = st.Label
				case ast.FairnessLevel_FAIRNESS_LEVEL_STRONG:
					e.str = st.Label
				}
			case "thread":
				e.str = fmt.Sprintf("thread %d %s", st.Thread, st.Label)
			case "crash", "rolecrash":
				e.crash = true
			}
			from, path := i, fmt.Sprintf("%s|%d|", st.Label, st.Thread)
			if st.Kind == "message" {
				path = fmt.Sprintf("m%d|%s", k, path) // equal messages differ in their arguments
			}
			for _, ch := range st.Choices {
				n, ok := inner[path]
				if !ok {
					n = g.add(-1)
					inner[path] = n
				}
				e.to = n
				link(from, e)
				from, e = n, fedge{}
				path += "/" + ch.Key
				if ch.Fair == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK || ch.Fair == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
					e.str = "choice " + ch.Key
				}
			}
			e.to = rg.Tos[i][k]
			link(from, e)
		}
	}
	g.enabW = make([]map[string]bool, len(g.out))
	g.enabS = make([]map[string]bool, len(g.out))
	for i := range g.out {
		g.enabW[i], g.enabS[i] = map[string]bool{}, map[string]bool{}
		for _, e := range g.out[i] {
			if e.weak != "" {
				g.enabW[i][e.weak] = true
			}
			if e.str != "" {
				g.enabS[i][e.str] = true
			}
		}
	}
	return g
}

// sccs lists the strongly connected components of the subgraph without
// crashes that have an edge of their own.
func (g *fairGraph) sccs(in map[int]bool) [][]int {
	index, low, on := map[int]int{}, map[int]int{}, map[int]bool{}
	var stack []int
	var res [][]int
	type fr struct{ n, i int }
	for s := range g.out {
		if !in[s] {
			continue
		}
		if _, ok := index[s]; ok {
			continue
		}
		call := []fr{{s, 0}}
		for len(call) > 0 {
			f := &call[len(call)-1]
			if f.i == 0 {
				index[f.n], low[f.n] = len(index), len(index)
				stack = append(stack, f.n)
				on[f.n] = true
			}
			if f.i < len(g.out[f.n]) {
				e := g.out[f.n][f.i]
				f.i++
				if e.crash || !in[e.to] {
					continue
				}
				if _, ok := index[e.to]; !ok {
					call = append(call, fr{e.to, 0})
				} else if on[e.to] && index[e.to] < low[f.n] {
					low[f.n] = index[e.to]
				}
				continue
			}
			n := f.n
			call = call[:len(call)-1]
			if len(call) > 0 {
				p := call[len(call)-1].n
				if low[n] < low[p] {
					low[p] = low[n]
				}
			}
			if low[n] == index[n] {
				var c []int
				for {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[x] = false
					c = append(c, x)
					if x == n {
						break
					}
				}
				if len(c) > 1 || g.self(n) {
					res = append(res, c)
				}
			}
		}
	}
	return res
}

func (g *fairGraph) self(n int) bool {
	for _, e := range g.out[n] {
		if e.to == n && !e.crash {
			return true
		}
	}
	return false
}

// fairRun finds a set of nodes that a fair run visits infinitely often and
// that satisfies accept, inside in.
func (g *fairGraph) fairRun(in map[int]bool, accept func([]int) bool) []int {
	for _, c := range g.sccs(in) {
		if !accept(c) {
			continue
		}
		set := map[int]bool{}
		for _, n := range c {
			set[n] = true
		}
		taken := map[string]bool{}
		for _, n := range c {
			for _, e := range g.out[n] {
				if set[e.to] && !e.crash {
					taken["w"+e.weak], taken["s"+e.str] = true, true
				}
			}
		}
		// weakly fair steps enabled all along
		var all map[string]bool
		for _, n := range c {
			if g.cfg[n] < 0 {
				continue
			}
			if all == nil {
				all = map[string]bool{}
				for k := range g.enabW[n] {
					all[k] = true
				}
			}
			for k := range all {
				if !g.enabW[n][k] {
					delete(all, k)
				}
			}
		}
		unfair := false
		for k := range all {
			unfair = unfair || !taken["w"+k]
		}
		if unfair {
			continue
		}
		rest := map[int]bool{}
		for _, n := range c {
			ok := true
			for k := range g.enabS[n] {
				ok = ok && taken["s"+k]
			}
			if ok {
				rest[n] = true
			}
		}
		if len(rest) == len(c) {
			return c
		}
		if r := g.fairRun(rest, accept); r != nil {
			return r
		}
	}
	return nil
}

// violates decides a liveness assertion whose truth in the reference states is val.
func (g *fairGraph) violates(alwaysEventually bool, val []bool) []int {
	in := map[int]bool{}
	for n := range g.out {
		if n > 0 && !(alwaysEventually && g.cfg[n] > 0 && val[g.cfg[n]]) {
			in[n] = true
		}
	}
	return g.fairRun(in, func(c []int) bool {
		for _, n := range c {
			if g.cfg[n] > 0 && !val[g.cfg[n]] {
				return true
			}
		}
		return false
	})
}

// lasso checks that a counterexample is a path of the graph into a cycle that
// no fair step is left out of and that the assertion fails on.
func lasso(root *mc.Node, path []*mc.Link, ae bool) string {
	if len(path) == 0 || path[0].Node != root {
		return "does not start in the initial state"
	}
	for i := 1; i < len(path); i++ {
		ok := path[i].Name == "stutter" && path[i].Node == path[i-1].Node && i == len(path)-1
		for _, l := range path[i-1].Node.Outbound {
			ok = ok || l.Node == path[i].Node && l.Name == path[i].Name
		}
		if !ok {
			return fmt.Sprintf("has a step %q that does not exist", path[i].Name)
		}
	}
	last := path[len(path)-1].Node
	start := -1
	for i := 0; i < len(path)-1; i++ {
		if path[i].Node == last {
			start = i
			break
		}
	}
	if start < 0 {
		return "does not end in a cycle"
	}
	good, bad := false, false
	weak, taken := map[string]int{}, map[string]bool{}
	strong := map[string]bool{}
	yields := 0
	for _, l := range path[start+1:] {
		if l.IsCrashLink() {
			return "crashes infinitely often"
		}
		taken[l.Name] = true
		if !impl.IsYield(l.Node) {
			continue
		}
		yields++
		if l.Node.Process.Witness[0][0] {
			good = true
		} else {
			bad = true
		}
		en := map[string]bool{}
		for _, o := range l.Node.Outbound {
			if o.IsCrashLink() {
				continue
			}
			if o.Fairness == WEAK && !strings.HasPrefix(o.Name, "thread-") {
				en[o.Name] = true
			}
			if o.Fairness == STRONG && !strings.HasPrefix(o.Name, "thread-") {
				strong[o.Name] = true
			}
		}
		for n := range en {
			weak[n]++
		}
	}
	if ae && good || !bad {
		return "is not one: the assertion holds on it"
	}
	for n, k := range weak {
		if k == yields && !taken[n] {
			return "is not fair: " + n + " is always enabled"
		}
	}
	for n := range strong {
		if !taken[n] {
			return "is not fair: " + n + " is enabled infinitely often"
		}
	}
	return ""
}

func liveInvs() []*ast.Invariant {
	var out []*ast.Invariant
	for _, e := range [][2]string{{"X0", "x == 0"}, {"X2", "x == 2"}, {"Y1", "y == 1"}, {"Diff", "x != y"}, {"Zero", "x == 0 and y == 0"}, {"Le", "x <= y"}} {
		out = append(out, Assertion("AE"+e[0], []string{"always", "eventually"}, Return(e[1])),
			Assertion("EA"+e[0], []string{"eventually", "always"}, Return(e[1])))
	}
	return out
}

func both(es ...string) func() []*ast.Invariant {
	return func() []*ast.Invariant {
		var out []*ast.Invariant
		for i, e := range es {
			out = append(out, Assertion(fmt.Sprintf("AE%d", i), []string{"always", "eventually"}, Return(e)),
				Assertion(fmt.Sprintf("EA%d", i), []string{"eventually", "always"}, Return(e)))
		}
		return out
	}
}

var (
	roleLive = both("g == 0", "peers[0].n == 0", "peers[1].n == 1", "peers[0].n != peers[1].n", "peers[0].n == 2 or g == 1")
	durLive  = both("peers[0].a == 0", "peers[-1].a != 0", "g[0] == 1", "peers[0].l in ([0], [2])", "peers[0].l != [0] or peers[0].a == 1")
	chanLive = both("r.got == 0", "r.got == 2", "r.got != 1", "r.got == q.sent", "q.sent == 0")
)

func isAE(inv *ast.Invariant) bool {
	if inv.Block == nil {
		return inv.Always
	}
	return inv.TemporalOperators[0] == "always"
}

// liveness decides each liveness assertion of a specification.
func liveness(invs func() []*ast.Invariant, crash, useCLI bool) func(*fw.Ctx, gen) {
	return livenessAs(invs, crash, useCLI, false)
}

// livenessAs can decide on the runs without the symmetry reduction.
func livenessAs(invs func() []*ast.Invariant, crash, useCLI, concrete bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		no := false
		opt.DeadlockDetection = &no
		rg, err := buildAs(f, opt, crash, concrete)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		fg := newFair(rg)
		c.Count("states", len(fg.out))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		ivs := invs()
		var bad []string
		for k, inv := range ivs {
			val := make([]bool, len(rg.Cfgs))
			for i := 1; i < len(rg.Cfgs); i++ {
				val[i] = truth(rg.Cfgs[i], inv, &ref.Step{})
			}
			scc := fg.violates(isAE(inv), val)
			f2 := proto.Clone(f).(*ast.File)
			f2.Invariants = []*ast.Invariant{proto.Clone(inv).(*ast.Invariant)}
			r, err := impl.Run(f2, opt, impl.Mode{})
			if err != nil || r.Err != nil || r.Failed != nil {
				c.Fail("crash", "%v\n%s", err, specText(f2))
				return
			}
			nodes, _, _, _ := mc.GetAllNodes(r.Root, opt.Options.MaxActions)
			path, pos := mc.CheckStrictLiveness(r.Root, nodes)
			c.Count("verdicts", 1)
			c.Count("traces", 1)
			if scc != nil {
				c.Count("violations_expected", 1)
				bad = append(bad, inv.Name)
			}
			if scc == nil && pos != nil {
				var names []string
				for _, l := range path {
					names = append(names, l.Name)
				}
				c.Fail("spurious:"+inv.Name, "%s is reported as violated (%s) but holds on every fair run\n%s", inv.Name, strings.Join(names, " "), specText(f2))
			}
			if scc != nil && pos == nil {
				var st []string
				for _, n := range scc {
					if fg.cfg[n] > 0 {
						st = append(st, rg.LTS.Obs[fg.cfg[n]])
					}
				}
				c.Fail("missed:"+inv.Name, "%s is reported to hold, but a fair run visits exactly these states forever: %v\n%s", inv.Name, st, specText(f2))
			}
			if pos != nil {
				if msg := lasso(r.Root, path, isAE(inv)); !(concrete && len(f.Roles) > 0) && msg != "" {
					c.Fail("path:"+inv.Name, "the counterexample of %s %s\n%s", inv.Name, msg, specText(f2))
				}
				c.Count("counterexamples", 1)
			}
			if useCLI && hash(c.Case)%len(ivs) == k {
				o := cli.Run([]cli.Spec{cli.Named("spec", f2)}, opt, nil)
				c.Count("cli_runs", 1)
				want := "pass"
				if scc != nil {
					want = "liveness"
				}
				if o.Verdict != want {
					c.Fail("cli-verdict", "the run reports %v, expected %s for %s\n%s\n%s", o, want, inv.Name, tail(o.Text), specText(f2))
				}
			}
		}
		// all at once: the first one violated is reported
		f2 := proto.Clone(f).(*ast.File)
		for _, inv := range ivs {
			f2.Invariants = append(f2.Invariants, proto.Clone(inv).(*ast.Invariant))
		}
		r, err := impl.Run(f2, opt, impl.Mode{})
		if err != nil || r.Err != nil || r.Failed != nil {
			c.Fail("crash", "%v\n%s", err, specText(f2))
			return
		}
		nodes, _, _, _ := mc.GetAllNodes(r.Root, opt.Options.MaxActions)
		_, pos := mc.CheckStrictLiveness(r.Root, nodes)
		got, want := "none", "none"
		if pos != nil {
			got = ivs[pos.InvariantIndex].Name
		}
		if len(bad) > 0 {
			want = bad[0]
		}
		if got != want {
			c.Fail("together", "with all assertions the one reported is %s, the first violated is %s\n%s", got, want, specText(f2))
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "violated": bad})
	}
}

// fairSpecs: atomic actions under every fairness labelling.
func fairSpecs(k int) []gen {
	type body struct {
		n  string
		mk func() []S
	}
	bodies := []body{
		{"up", func() []S { return []S{Require("x < 2"), Py("x = x + 1")} }},
		{"cyc", func() []S { return []S{Py("x = (x + 1) % 3")} }},
		{"reset", func() []S { return []S{Require("x > 0"), Py("x = 0")} }},
		{"tog", func() []S { return []S{Py("y = 1 - y")} }},
		{"down", func() []S { return []S{Require("x == 2"), Py("x = 1"), Py("y = 1")} }},
		{"copy", func() []S { return []S{Require("x != y"), Require("y == 0"), Py("y = 1 if x > 0 else 0")} }},
		{"set", func() []S { return []S{Require("y == 1"), Py("x = 2"), Py("y = 0")} }},
		{"nop", func() []S { return []S{Py("x = x")} }},
	}
	fair := []ast.FairnessLevel{ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR, WEAK, STRONG}
	fn := "-ws"
	var out []gen
	var idx []int
	var rec func(start int)
	rec = func(start int) {
		if len(idx) == k {
			ix := append([]int(nil), idx...)
			n := 1
			for range ix {
				n *= 3
			}
			for lab := 0; lab < n; lab++ {
				name := "fair"
				for j, l := 0, lab; j < k; j, l = j+1, l/3 {
					name += "/" + bodies[ix[j]].n + string(fn[l%3])
				}
				out = append(out, gen{name, func() *ast.File {
					f := File(Init(Py("x = 0"), Py("y = 0")))
					for j, l := 0, lab; j < k; j, l = j+1, l/3 {
						f.Actions = append(f.Actions, Fair(fair[l%3], Act(ATOMIC, string(rune(65+j)), bodies[ix[j]].mk()...)))
					}
					return f
				}, func() *ast.StateSpaceOptions { return Opts(100, 1) }})
			}
			return
		}
		for b := start; b < len(bodies); b++ {
			idx = append(idx, b)
			rec(b + 1)
			idx = idx[:len(idx)-1]
		}
	}
	rec(0)
	return out
}

// withFair labels the actions of a specification, those of roles too, in order.
func withFair(gs []gen, labs ...string) []gen {
	lv := map[byte]ast.FairnessLevel{'-': ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR, 'w': WEAK, 's': STRONG}
	var out []gen
	for _, g := range gs {
		seen := map[string]bool{}
		for _, l := range labs {
			var acts int
			mk := func() *ast.File {
				f := g.file()
				acts = 0
				set := func(as []*ast.Action) {
					for _, a := range as {
						if a.Name != "Init" {
							Fair(lv[l[acts%len(l)]], a)
							acts++
						}
					}
				}
				set(f.Actions)
				for _, r := range f.Roles {
					set(r.Actions)
				}
				return f
			}
			mk()
			n := l
			if acts < len(n) {
				n = n[:acts]
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			out = append(out, gen{g.name + "/" + n, mk, g.opt})
		}
	}
	return out
}

// choiceSpecs: choices with and without fairness inside actions.
func choiceSpecs() []gen {
	var out []gen
	lv := map[string]ast.FairnessLevel{"-": 0, "w": WEAK, "s": STRONG}
	bodies := []struct {
		n  string
		mk func(l ast.FairnessLevel) []S
	}{
		{"set", func(l ast.FairnessLevel) []S { return []S{AnyAssignF(l, "v", "[0, 1, 2]"), Py("x = v")} }},
		{"step", func(l ast.FairnessLevel) []S { return []S{AnyAssignF(l, "v", "[0, 1]"), Py("x = (x + v) % 3")} }},
		{"guard", func(l ast.FairnessLevel) []S {
			return []S{Require("x < 2"), AnyAssignF(l, "v", "[0, 1]"), Py("x = x + v"), Py("y = v")}
		}},
		{"two", func(l ast.FairnessLevel) []S {
			return []S{AnyAssignF(l, "v", "[0, 1]"), AnyAssign("w", "[0, 1]"), Py("x = v"), Py("y = w")}
		}},
		{"twof", func(l ast.FairnessLevel) []S {
			return []S{AnyAssign("v", "[0, 1]"), AnyAssignF(l, "w", "[0, v]"), Py("x = v"), Py("y = w")}
		}},
		{"once", func(l ast.FairnessLevel) []S {
			return []S{AnyAssignF(l, "v", "[0, 1]"), If("v == x", Py("x = (x + 1) % 3")), Py("y = v")}
		}},
		{"oneof", func(l ast.FairnessLevel) []S { return []S{Oneof(Py("x = (x + 1) % 3"), Py("y = 1 - y"))} }},
	}
	others := []struct {
		n  string
		mk func() []S
	}{
		{"none", nil},
		{"tog", func() []S { return []S{Py("y = 1 - y")} }},
		{"reset", func() []S { return []S{Require("x > 0"), Py("x = 0")} }},
	}
	for _, b := range bodies {
		for l, lev := range lv {
			for _, o := range others {
				for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
					if fl == SERIAL && b.n == "oneof" {
						continue // whether the end of the chosen block is a yield point of its own is not specified
					}
					out = append(out, gen{fmt.Sprintf("choice/%v/%s%s/%s", fl, b.n, l, o.n), func() *ast.File {
						f := File(Init(Py("x = 0"), Py("y = 0")), Act(fl, "A", b.mk(lev)...))
						if o.mk != nil {
							f.Actions = append(f.Actions, Act(fl, "B", o.mk()...))
						}
						return f
					}, func() *ast.StateSpaceOptions { return Opts(100, 1) }})
				}
			}
		}
	}
	return out
}

// not leaves out the specifications whose name contains a string (serial oneof
// blocks: see choiceSpecs).
func not(gs []gen, part string) []gen {
	var out []gen
	for _, g := range gs {
		if !strings.Contains(g.name, part) {
			out = append(out, g)
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{
		ID:        "C06",
		Technique: "exhaustive enumeration of programs and fairness labellings; the liveness verdict is compared with an exact search for fair cycles (Streett condition over strongly connected components) in the reference state graph, every counterexample is checked to be a fair lasso of the explored graph, in-process and through the binary",
		Rule:      "every set of up to three of eight atomic actions under every fairness labelling; oneof with and without fairness; one or two actions of the catalogue alone and concurrently, with crashes; role, durable role, channel and deadlocking families under uniform and mixed labels; ten or twelve assertions each, alone and together",
		Cases: func(tier string) []fw.Case {
			var cs []fw.Case
			for _, k := range []int{1, 2, 3} {
				cs = append(cs, genCases("", fairSpecs(k), liveness(liveInvs, false, k < 3 || tier == "thorough"))...)
			}
			cs = cat(cs,
				genCases("", withFair(choiceSpecs(), "--", "w-", "-w", "ww", "ss", "s-"), liveness(liveInvs, false, false)),
				genCases("pair1/", withFair(pairs(1), "--", "w-", "-w", "ww", "ss"), liveness(liveInvs, false, false)),
				genCases("pair2/", withFair(pairs(2), "--", "w-", "-w", "ww", "ss"), liveness(liveInvs, false, false)),
				genCases("role/", withFair(roleSpecs(), "-", "w", "s"), liveness(roleLive, false, false)),
				genCases("chan/", withFair(chanSpecs(), "-", "w", "s"), liveness(chanLive, false, false)),
				genCases("crash/", withFair(pairs(1), "--", "w-", "ww", "ss"), liveness(liveInvs, true, false)),
				genCases("crash/", withFair(deadSpecs(2), "w"), liveness(liveInvs, true, false)),
			)
			if tier != "thorough" {
				return cat(cs,
					genCases("rolecrash/", withFair(only(durSpecs(tier), "dur/1/c1"), "w"), liveness(durLive, true, false)),
					genCases("dead/", withFair(deadSpecs(1), "w", "s-"), liveness(liveInvs, false, false)),
				)
			}
			return cat(cs,
				genCases("", fairSpecs(4), liveness(liveInvs, false, false)),
				genCases("cli/", withFair(choiceSpecs(), "--", "w-", "-w", "ww", "ss", "s-"), liveness(liveInvs, false, true)),
				genCases("rolecrash/", withFair(only(durSpecs(tier), "dur/1", "dur/2/c1"), "-", "w", "s"), liveness(durLive, true, false)),
				genCases("dead/", withFair(deadSpecs(1, 2), "w", "s-", "sw", "-sw"), liveness(liveInvs, false, false)),
				genCases("more/", withFair(pairs(1, 2), "s-", "-s", "sw", "ws"), liveness(liveInvs, false, true)),
				genCases("crash/", withFair(deadSpecs(1, 2), "-", "s", "-w"), liveness(liveInvs, true, false)),
				genCases("crash/", withFair(pairs(2), "--", "w-", "-w", "ww", "ss", "sw", "ws"), liveness(liveInvs, true, false)),
				genCases("mid/", withFair(not(midSpecs(1, 2), "serial stay"), "--", "w-", "-w", "ww", "ss"), liveness(liveInvs, false, false)),
			)
		},
	})
}
