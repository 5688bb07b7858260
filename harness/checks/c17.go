package checks

import (
	ast "fizz/proto"
	"fmt"
	"io"
	"maps"
	"os"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// captured returns what f writes to the standard output.
func captured(f func()) string {
	t, err := os.CreateTemp("", "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(t.Name())
	defer t.Close()
	old := os.Stdout
	os.Stdout = t
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	_, _ = t.Seek(0, 0)
	b, err := io.ReadAll(t)
	if err != nil {
		panic(err)
	}
	return string(b)
}

const nsMark = "NEXT "

// nsAssert prints the state and the transitions that next_states() lists.
// obs renders a state, given the prefix of its variables.
func nsAssert(obs func(string) string) *ast.Invariant {
	entry := `n.kind + "|" + ("thread" if n.kind == "thread" else "channel" if n.kind == "channel" else n.name) + "|" + str(n.role_ref) + "|" + str(n.role_id) + "|" + str(n.action_name) + "|" + ` + obs("n.state.")
	return Assertion("Next", []string{"always"}, Return(`print("`+nsMark+`" + `+obs("")+` + " => " + " ; ".join(sorted([`+entry+` for n in next_states()]))) == None`))
}

// nsExpected is what the assertion prints in a state.
func nsExpected(sp *ref.Spec, c *ref.Cfg, obs func(string) string) string {
	show := func(c *ref.Cfg) string {
		v := c.CheckAssertion(Assertion("O", []string{"always"}, Return(obs(""))), nil)
		return strings.Trim(v.String(), `"`)
	}
	old := sp.NoBounds
	sp.NoBounds = true
	steps := c.Succ()
	sp.NoBounds = old
	seen := map[string]bool{}
	var out []string
	for k, st := range steps {
		if st.Kind == "crash" || st.Kind == "rolecrash" {
			continue
		}
		who := st.Label
		name, kind, rolRef, rolID, act := st.Label, st.Kind, "None", "None", "None"
		switch st.Kind {
		case "thread":
			who, name = fmt.Sprint("thread", st.Thread), "thread"
		case "message":
			// each delivery is a transition of its own
			who, name, kind = fmt.Sprint("message", k), "channel", "channel"
			for j := k - 1; j >= 0 && steps[j].Kind == "message" && steps[j].Msg == st.Msg; j-- {
				who = fmt.Sprint("message", j)
			}
		case "action":
			act = st.Label
			if r, a, ok := strings.Cut(st.Label, "."); ok {
				act, rolRef = a, r
				rolID = strings.Replace(r, "#", "", 1)
			}
		}
		key := who + "|" + st.To.Merged() + "|" + st.Returns
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, strings.Join([]string{kind, name, rolRef, rolID, act, show(st.To)}, "|"))
	}
	slices.Sort(out)
	return show(c) + " => " + strings.Join(out, " ; ")
}

type nsGen struct {
	gen
	obs func(string) string
}

func xy(p string) string { return "str([" + p + "x, " + p + "y])" }

func nsOf(gs []gen, obs func(string) string) []nsGen {
	var out []nsGen
	for _, g := range gs {
		out = append(out, nsGen{g, obs})
	}
	return out
}

// nextStates: in every explored state next_states() lists exactly the steps of the
// reference, whatever the bounds, and asking for them changes nothing.
func nextStates(crash bool, max int64, ms ...impl.Mode) func(*fw.Ctx, nsGen) {
	return func(c *fw.Ctx, g nsGen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		opt.Options.MaxActions = 10000
		if max > 0 {
			opt.Options.MaxActions = max
		}
		sp := ref.NewSpec(f, opt)
		sp.TrackDepth = max > 0
		rg, err := func() (g *ref.Graph, err error) {
			defer func() {
				if x := recover(); x == ref.ErrUnsupported {
					err = ref.ErrUnsupported
				} else if x != nil {
					panic(x)
				}
			}()
			return sp.Build(refLimit, crash)
		}()
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		want := map[string]bool{}
		for _, cfg := range rg.Cfgs[1:] {
			want[nsExpected(sp, cfg, g.obs)] = true
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		asked := proto.Clone(f).(*ast.File)
		asked.Invariants = append(asked.Invariants, nsAssert(g.obs))
		for _, m := range ms {
			plain, err := impl.Run(f, opt, m)
			if err != nil || plain.Err != nil {
				c.Fail("crash", "%v\n%s", err, specText(f))
				return
			}
			var r *impl.Result
			out := captured(func() { r, err = impl.Run(asked, opt, m) })
			if err != nil || r.Err != nil {
				c.Fail("crash", "mode %+v: %v\n%s", m, err, specText(asked))
				return
			}
			if r.Failed != nil {
				c.Fail("failed", "mode %+v: the assertion is reported as violated\n%s", m, specText(asked))
				return
			}
			got := map[string]bool{}
			for _, l := range strings.Split(out, "\n") {
				if s, ok := strings.CutPrefix(l, nsMark); ok {
					got[s] = true
					c.Count("traces", 1)
				}
			}
			for _, s := range slices.Sorted(maps.Keys(got)) {
				if !want[s] {
					c.Fail("wrong", "mode %+v: next_states() gives\n%s\nwhich no state has; expected one of\n%s\n%s", m, s, strings.Join(sameObs(want, s), "\n"), specText(f))
					return
				}
			}
			if !m.Simulate {
				for _, s := range slices.Sorted(maps.Keys(want)) {
					if !got[s] {
						c.Fail("absent", "mode %+v: a state has the next states\n%s\nwhich are never listed, but only\n%s\n%s", m, s, strings.Join(sameObs(got, s), "\n"), specText(f))
						return
					}
				}
			}
			if m.Simulate {
				a, b := path(plain), path(r)
				if a != b {
					c.Fail("effect", "mode %+v: asking for the next states changes the simulated path from %s to %s\n%s", m, a, b, specText(f))
					return
				}
				continue
			}
			if a, b := plain.P.GetUniqueYieldCount(), r.P.GetUniqueYieldCount(); a != b {
				c.Fail("effect", "mode %+v: asking for the next states changes the number of states from %d to %d\n%s", m, a, b, specText(f))
				return
			}
			if !m.NoGraph && max == 0 && len(opt.ActionOptions) == 0 && !compareGraphs(c, rg.LTS, impl.Extract(r.Root).LTS, 0, f) {
				return
			}
		}
	}
}

// path renders the states of a simulated run.
func path(r *impl.Result) string {
	var out []string
	seen := map[any]bool{}
	for n := r.Root; n != nil && !seen[n]; {
		seen[n] = true
		if n.Process != nil {
			out = append(out, n.Process.Name+":"+impl.Obs(n.Process))
		}
		if len(n.Outbound) == 0 {
			break
		}
		n = n.Outbound[0].Node
	}
	return strings.Join(out, " -> ")
}

func sameObs(m map[string]bool, s string) []string {
	o, _, _ := strings.Cut(s, " => ")
	var out []string
	for k := range m {
		if strings.HasPrefix(k, o+" => ") {
			out = append(out, k)
		}
	}
	slices.Sort(out)
	return out
}

// growSpecs: actions that create role instances, with actions of their own.
func growSpecs() []nsGen {
	var out []nsGen
	obs := func(p string) string { return "str([" + p + "n, [r.v for r in " + p + "rs]])" }
	for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
		for shape := 0; shape < 4; shape++ {
			for _, conc := range []int64{1, 2} {
				out = append(out, nsGen{gen{fmt.Sprintf("grow/%s%d/c%d", flowName(fl), shape, conc), func() *ast.File {
					add := []S{Require("len(rs) < 2"), Py("r = R()"), Py("rs.append(r)")}
					if shape == 1 {
						add = []S{Require("len(rs) < 2"), Oneof(Py("n = 0"), Py("n = 1")), Py("r = R()"), Py("rs.append(r)")}
					}
					if shape == 2 {
						add = []S{Require("len(rs) < 2"), Py("r = R(w=n)"), Py("rs.append(r)"), Py("n = 1 - n")}
					}
					act := Act(fl, "Go", Py("self.v = (self.v + 1) % 2"))
					if shape == 3 {
						act = Act(fl, "Go", Py("n = self.v"), Call("t", "self", "F", "n"), Py("self.v = t"))
					}
					f := File(Init(Py("n = 0"), Py("rs = []")), Act(fl, "Add", add...))
					f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.v = 0")), act},
						[]*ast.Function{Func(fl, "F", []string{"d"}, Py("self.v = 1 - d"), Return("self.v"))})}
					return f
				}, func() *ast.StateSpaceOptions {
					o := Opts(100, conc)
					if conc == 2 {
						o.ActionOptions = map[string]*ast.Options{"R#.Go": {MaxConcurrentActions: 1}}
					}
					return o
				}}, obs})
			}
		}
	}
	return out
}

func nsCases(pre string, gs []nsGen, run func(*fw.Ctx, nsGen)) []fw.Case {
	var out []fw.Case
	for _, g := range gs {
		out = append(out, fw.Case{Name: pre + g.name, Run: func(c *fw.Ctx) { run(c, g) }})
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C17",
		Technique: "exhaustive enumeration of programs, bounds and modes; the lists of next_states() in all explored states compared with the lists of enabled steps of all states of the reference graph, and the graph with the graph explored without asking",
		Rule:      "one or two actions of the catalogue, mid-step, role, channel and role-creating families; unbounded, with a binding max_actions, with per-action limits and with crashes; every mode",
		Cases: func(tier string) []fw.Case {
			gr := func(p string) string { return "str([" + p + "g, [r.n for r in " + p + "peers]])" }
			ch := func(p string) string { return "str([" + p + "q.sent, " + p + "r.got])" }
			ms := []impl.Mode{{}, {NoGraph: true}}
			if tier == "thorough" {
				ms = append(ms, impl.Mode{Strategy: "dfs"}, impl.Mode{Strategy: "random", Seed: 3}, impl.Mode{Processed: true}, impl.Mode{NoSym: true})
			}
			// crashes are not explored without the graph
			graph := slices.DeleteFunc(slices.Clone(ms), func(m impl.Mode) bool { return m.NoGraph })
			// whether the end of a bare oneof in a serial action is a yield point
			// of its own is not specified
			mid := not(not(not(midSpecs(1, 2), "serial stay+"), "serial dip+"), "serial both+")
			all := slices.Concat(
				nsOf(without(pairs(1, 2), "par"), xy), nsOf(mid, xy), nsOf(roleSpecs(), gr), nsOf(chanSpecs(), ch), growSpecs(),
				nsOf(actionLimits(1, []*ast.Options{lim(1, 0)}, []*ast.Options{nil, lim(2, 0)}), xy),
				nsOf(actionLimits(2, []*ast.Options{lim(1, 0), lim(0, 1)}, []*ast.Options{nil, lim(2, 0)}), xy))
			out := cat(
				nsCases("", all, nextStates(false, 0, ms...)),
				nsCases("bound1/", nsOf(without(pairs(1, 2), "par"), xy), nextStates(false, 1, ms...)),
				nsCases("crash/", nsOf(without(pairs(1, 2), "par"), xy), nextStates(true, 0, graph...)),
				nsCases("crash/", nsOf(without(roleSpecs(), "c2/FLOW_ATOMIC/FLOW_SERIAL/call.loc"), gr), nextStates(true, 0, graph...)),
				nsCases("bound2/", growSpecs(), nextStates(false, 2, ms...)),
			)
			for i := range out {
				out[i].Timeout = 60 * time.Second
			}
			return out
		}})
}
