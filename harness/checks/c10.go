package checks

import (
	ast "fizz/proto"
	"fmt"
	"sort"
	"strings"

	"verif/fw"
	"verif/impl"
	. "verif/sb"
)

// crashSpec compares the explored graph, crashes included, with the reference:
// all traces (role crashes are visible events), the reachable combinations of
// state and running actions, and that no crash happens where none may.
func crashSpec(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode) {
	rg, ig, r := runBoth(c, f, opt, m, true)
	if r == nil {
		return
	}
	compareGraphs(c, rg.LTS, ig.LTS, 0, f)
	want, got := map[string]int{}, map[string]int{}
	for i, cf := range rg.Cfgs {
		if cf == nil {
			continue
		}
		roots := cf.Roots()
		sort.Strings(roots)
		want[rg.LTS.Obs[i]+" running "+strings.Join(roots, ",")] = i
	}
	for i, n := range ig.Nodes {
		if n != nil {
			got[ig.LTS.Obs[i]+" running "+strings.Join(impl.ThreadRoots(n.Process), ",")] = i
		}
	}
	var miss, more []string
	for k := range want {
		if _, ok := got[k]; !ok {
			miss = append(miss, k)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			more = append(more, k)
		}
	}
	sort.Strings(miss)
	sort.Strings(more)
	if len(miss) > 0 {
		c.Fail("unreached", "a state that a crash leads to is not explored: %s (%d in all)\n%s", miss[0], len(miss), specText(f))
	}
	if len(more) > 0 {
		c.Fail("unreal", "an explored state cannot be reached: %s (%d in all)\n%s", more[0], len(more), specText(f))
	}
	crashes := 0
	for _, n := range ig.Nodes {
		if n == nil {
			continue
		}
		for _, l := range n.Outbound {
			if l.IsCrashLink() {
				crashes++
			}
		}
	}
	c.Count("crash_links", crashes)
}

func withCrashes(gs []gen) []gen {
	var out []gen
	for _, g := range gs {
		out = append(out, gen{g.name, g.file, func() *ast.StateSpaceOptions { return withCrash(g.opt()) }})
	}
	return out
}

// durable roles: fields a (number), l (list), o (the other instance), every
// split of them into durable and ephemeral, and actions that change them.
func durSpecs(tier string) []gen {
	var out []gen
	splits := []struct{ kind, fields string }{
		{"", ""}, {"durable", "['a']"}, {"durable", "['l']"}, {"durable", "['a', 'l']"}, {"durable", "['a', 'l', 'o']"},
		{"ephemeral", "['a']"}, {"ephemeral", "['l']"}, {"ephemeral", "['o']"}, {"ephemeral", "['a', 'l', 'o']"}, {"ephemeral", "['zz']"}, {"durable", "['zz']"},
	}
	type body struct {
		n  string
		mk func() []S
		fn func() []S
	}
	none := func() []S { return []S{Pass()} }
	bodies := []body{
		{"inc", func() []S { return []S{Py("self.a = (self.a + 1) % 3")} }, none},
		{"two", func() []S { return []S{Py("self.a = 1"), Py("self.l = [1]")} }, none},
		{"mut", func() []S { return []S{Py("self.l[0] = (self.l[0] + 1) % 3")} }, none},
		{"mut2", func() []S {
			return []S{Require("self.a == 0"), Py("self.l[0] = (self.l[0] + 1) % 2"), Py("self.a = 1")}
		}, none},
		{"peer", func() []S {
			return []S{Py("p = peers[1]"), Require("self.__id__ != p.__id__"), Py("self.a = 1"), Call("t", "p", "F"), Py("self.a = t")}
		}, func() []S { return []S{Py("self.a = (self.a + 1) % 2"), Py("self.l[0] = 1"), Return("2")} }},
		{"other", func() []S { return []S{Py("self.o = self"), Py("self.o.a = (self.o.a + 1) % 2")} }, none},
		{"glob", func() []S { return []S{Py("g[0] = 1"), Py("self.a = g[0]")} }, none},
		{"self", func() []S { return []S{Call("t", "self", "F"), Py("self.l = [t]")} }, func() []S { return []S{Py("self.a = 1"), Py("self.a = 2"), Return("1")} }},
	}
	inits := []struct {
		n  string
		mk func() []S
	}{
		{"plain", func() []S { return []S{Py("self.a = 0"), Py("self.l = [0]"), Py("self.o = None")} }},
		{"any", func() []S {
			return []S{AnyAssign("v", "[0, 2]"), Py("self.a = v"), Py("self.l = [0]"), Py("self.o = self")}
		}},
		{"shared", func() []S { return []S{Py("self.a = 0"), Py("self.l = [0]"), Py("self.o = self.l")} }},
	}
	for _, n := range []int{1, 2} {
		for _, conc := range []int64{1, 2} {
			for _, sp := range splits {
				for _, b := range bodies {
					if b.n == "peer" && n < 2 || n == 2 && conc == 2 && b.n != "peer" && b.n != "mut2" {
						continue
					}
					for _, in := range inits {
						if n == 2 && in.n == "any" && (b.n == "two" || conc == 2) {
							continue
						}
						if in.n == "shared" && strings.Contains(sp.fields, "'l'") != strings.Contains(sp.fields, "'o'") {
							continue // a crash ends the sharing (see C07 on sharing)
						}
						for _, flow := range []ast.Flow{ATOMIC, SERIAL} {
							out = append(out, gen{fmt.Sprintf("dur/%d/c%d/%s%s/%s/%s/%s", n, conc, sp.kind, strings.ReplaceAll(sp.fields, " ", ""), b.n, in.n, fl2(flow)), func() *ast.File {
								ii := []S{Py("g = [0]"), Py("peers = []"), Py("r = R()"), Py("peers.append(r)")}
								if n == 2 {
									ii = append(ii, Py("r = R()"), Py("peers.append(r)"))
								}
								ii = append(ii, Py("r = None"))
								f := File(Init(ii...))
								ro := RoleDef("R", false, []*ast.Action{
									Act(ATOMIC, "Init", in.mk()...),
									Act(flow, "A", b.mk()...),
								}, []*ast.Function{Func(flow, "F", nil, b.fn()...)})
								if sp.kind != "" {
									Durability(ro, sp.kind, sp.fields)
								}
								f.Roles = []*ast.Role{ro}
								return f
							}, func() *ast.StateSpaceOptions {
								o := withCrash(Opts(100, conc))
								return o
							}})
						}
					}
				}
			}
		}
	}
	return out
}

// refSpecs: roles that refer to themselves and each other.
func refSpecs() []gen {
	type link struct {
		n     string
		init  []string
		p     string // a path from r to a role
		swap  string
		field string
	}
	links := []link{
		{"self", []string{"r.o = r", "s.o = s"}, "r.o", "r.o = s", "self.o"},
		{"cycle", []string{"r.o = s", "s.o = r"}, "r.o", "r.o = r", "self.o"},
		{"list", []string{"r.o = [r, s]", "s.o = [r]"}, "r.o[-1]", "r.o = [s, r]", "self.o[0]"},
		{"dict", []string{"r.o = {'k': s}", "s.o = {'k': r}"}, "r.o['k']", "r.o['k'] = r", "self.o['k']"},
		{"rec", []string{"r.o = record(k = s)", "s.o = record(k = s)"}, "r.o.k", "r.o.k = r", "self.o.k"},
		{"tuple", []string{"r.o = (s, r)", "s.o = (r, s)"}, "r.o[0]", "r.o = s.o", "self.o[1]"},
	}
	acts := []struct {
		n  string
		mk func(l link, flow ast.Flow, name string) *ast.Action
		in bool
	}{
		{"mut", func(l link, fl ast.Flow, n string) *ast.Action {
			return Act(fl, n, Py("p = "+l.p), Py("p.n = (p.n + 1) % 3"))
		}, false},
		{"eq", func(l link, fl ast.Flow, n string) *ast.Action {
			return Act(fl, n, Py("x = ["+l.p+" == r, "+l.p+" == s, "+l.p+" in [r], s != "+l.p+", "+l.p+".__id__ == r.__id__]"))
		}, false},
		{"swap", func(l link, fl ast.Flow, n string) *ast.Action { return Act(fl, n, Py(l.swap)) }, false},
		{"via", func(l link, fl ast.Flow, n string) *ast.Action {
			return Act(fl, n, Py("p = "+l.field), Py("p.n = 1 - self.n"), Py("self.n = p.n"))
		}, true},
		{"call", func(l link, fl ast.Flow, n string) *ast.Action {
			return Act(fl, n, Py("p = "+l.field), Call("t", "p", "F", "self"), Py("x = t"))
		}, true},
		{"any", func(l link, fl ast.Flow, n string) *ast.Action {
			return Act(fl, n, Any("p", "[r, "+l.p+"]", Py("p.n = 2"), Py("x = p.n")))
		}, false},
	}
	var out []gen
	for _, l := range links {
		for i, a := range acts {
			for _, b := range acts[i:] {
				for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
					out = append(out, gen{fmt.Sprintf("refs/%s/%s+%s/%s", l.n, a.n, b.n, fl2(fl)), func() *ast.File {
						in := []S{Py("x = 0"), Py("r = R()"), Py("s = R()")}
						for _, c := range l.init {
							in = append(in, Py(c))
						}
						f := File(Init(in...))
						ra := []*ast.Action{Act(ATOMIC, "Init", Py("self.n = 0"))}
						for k, x := range []int{0, 1} {
							_ = x
							y := a
							if k == 1 {
								y = b
							}
							act := y.mk(l, fl, string(rune('A'+k)))
							if y.in {
								ra = append(ra, act)
							} else {
								f.Actions = append(f.Actions, act)
							}
						}
						f.Roles = []*ast.Role{RoleDef("R", false, ra, []*ast.Function{Func(fl, "F", []string{"q"}, Py("q.n = (q.n + 1) % 2"), Return("[self == q, q.n]"))})}
						return f
					}, func() *ast.StateSpaceOptions { return Opts(100, 1) }})
				}
			}
		}
	}
	return out
}

// optSpecs: crashes on and off, for the specification and for one action.
func crashOpts() []gen {
	var out []gen
	yes, no := true, false
	mk := func(global, act *bool, key string) func() *ast.StateSpaceOptions {
		return func() *ast.StateSpaceOptions {
			o := Opts(100, 2)
			o.Options.CrashOnYield = global
			if act != nil {
				o.ActionOptions = map[string]*ast.Options{key: {CrashOnYield: act}}
			}
			return o
		}
	}
	for gi, g := range []*bool{&no, &yes} {
		for ai, a := range []*bool{nil, &no, &yes} {
			out = append(out, gen{fmt.Sprintf("opt/plain/%d%d", gi, ai), func() *ast.File {
				return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", Require("x == 0"), Py("x = 1"), Py("x = 2")), Act(SERIAL, "B", Require("y == 0"), Py("y = 1"), Py("y = 2")))
			}, mk(g, a, "A")})
			for _, kind := range []string{"", "durable", "ephemeral"} {
				out = append(out, gen{fmt.Sprintf("opt/role%s/%d%d", kind, gi, ai), func() *ast.File {
					f := File(Init(Py("r = R()")))
					ro := RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.a = 0"), Py("self.b = 0")),
						Act(SERIAL, "A", Require("self.a == 0"), Py("self.a = 1"), Py("self.b = 1"), Py("self.b = 2")),
						Act(SERIAL, "B", Require("self.b == 2"), Py("self.b = 3"), Py("self.b = 4"))}, nil)
					if kind != "" {
						Durability(ro, kind, "['a']")
					}
					f.Roles = []*ast.Role{ro}
					return f
				}, mk(g, a, "R#.A")})
			}
		}
	}
	return out
}

// oneEach: one running action per instance of the role.
func oneEach(gs []gen) []gen {
	var out []gen
	for _, g := range gs {
		out = append(out, gen{g.name, g.file, func() *ast.StateSpaceOptions {
			o := g.opt()
			if strings.Contains(g.name, "c2/") && strings.Contains(g.name, ".loc") {
				o.ActionOptions = map[string]*ast.Options{"R#.A": {MaxConcurrentActions: 1}}
			}
			return o
		}})
	}
	return out
}

func crashCmp(c *fw.Ctx, g gen) { crashSpec(c, g.file(), g.opt(), impl.Mode{}) }

func init() {
	fw.Register(&fw.Check{ID: "C10",
		Technique: "exhaustive enumeration of bounded programs with every crash point; the explored graph is compared with a reference interpreter's, crashes included, by subset construction over all traces and by the sets of reachable states and running actions",
		Rule:      "every specification of the crash families",
		Bounds: func(tier string) string {
			return "one or two instances, 11 splits of three fields (number, list, reference) into durable and ephemeral, 8 action shapes, 3 ways to initialise, atomic and serial, 1 or 2 concurrent actions, any number of crashes; every pair of catalogue actions; every role and message specification; every on/off combination"
		},
		Cases: func(tier string) []fw.Case {
			return cat(genCases("", crashOpts(), crashCmp), genCases("", durSpecs(tier), crashCmp), genCases("", withCrashes(pairs(1, 2)), crashCmp), genCases("", withCrashes(oneEach(roleSpecs())), crashCmp), genCases("", withCrashes(chanSpecs()), crashCmp))
		}})
}
