package checks

import (
	ast "fizz/proto"
	"fmt"

	. "verif/sb"
)

const (
	WEAK   = ast.FairnessLevel_FAIRNESS_LEVEL_WEAK
	STRONG = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
)

// A specification of a family together with its options.
type gen struct {
	name string
	file func() *ast.File
	opt  func() *ast.StateSpaceOptions
}

type na struct {
	n  string
	mk func(name string) *ast.Action
}

// catalogue: action bodies over the state variables x, y in 0..2.
func catalogue() []na {
	a := func(n string, flow ast.Flow, ss func() []S) na {
		return na{n, func(name string) *ast.Action { return Act(flow, name, ss()...) }}
	}
	return []na{
		a("inc", ATOMIC, func() []S { return []S{Py("x = (x + 1) % 3")} }),
		a("step", ATOMIC, func() []S { return []S{If("x < 2", Py("x = x + 1"))} }),
		a("ser", SERIAL, func() []S { return []S{Py("x = (x + 1) % 3"), Py("y = x")} }),
		a("lost", SERIAL, func() []S { return []S{Py("t = x"), Py("x = (t + 1) % 3")} }),
		a("req", ATOMIC, func() []S { return []S{Require("x == 1"), Py("y = (y + 1) % 3")} }),
		a("any", ATOMIC, func() []S { return []S{AnyAssign("y", "[0, 2]")} }),
		a("anyb", ATOMIC, func() []S { return []S{Py("x = 2"), Any("v", "range(2)", Py("x = v"), Py("y = v"))} }),
		a("oneof", ATOMIC, func() []S { return []S{Oneof(Py("x = 0"), Py("y = 2"), Require("x == 2"))} }),
		a("par", SERIAL, func() []S { return []S{Parallel(Py("x = 1"), Py("y = x"))} }),
		a("loop", SERIAL, func() []S { return []S{For(UNKNOWN, "i", "range(x)", Py("y = i"))} }),
		a("ret", ATOMIC, func() []S { return []S{Py("x = 0"), Return("y")} }),
		a("noop", ATOMIC, func() []S { return []S{Pass()} }),
		a("never", ATOMIC, func() []S { return []S{Require("x > 2"), Py("y = 0")} }),
		a("fn", ATOMIC, func() []S { return []S{Call("y", "", "G", "x")} }),
		a("wait", SERIAL, func() []S { return []S{Py("y = 1"), Require("x == 0"), Py("y = 0")} }),
		a("guard", ATOMIC, func() []S { return []S{Require("y == 0"), Py("y = 1"), If("x == 2", Py("x = 0"))} }),
	}
}

func catFile(as ...na) *ast.File {
	f := File(Init(Py("x = 0"), Py("y = 0")))
	for i, a := range as {
		f.Actions = append(f.Actions, a.mk(string(rune('A'+i))))
	}
	f.Functions = append(f.Functions, Func(ATOMIC, "G", []string{"p"}, Py("y = p"), Return("(p + 1) % 3")))
	return f
}

// pairs enumerates every specification with one or two actions of the catalogue.
func pairs(concs ...int64) []gen {
	var out []gen
	cat := catalogue()
	for _, conc := range concs {
		for i, a := range cat {
			out = append(out, gen{fmt.Sprintf("c%d/%s", conc, a.n), func() *ast.File { return catFile(a) }, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
			for _, b := range cat[i:] {
				out = append(out, gen{fmt.Sprintf("c%d/%s+%s", conc, a.n, b.n), func() *ast.File { return catFile(a, b) }, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
			}
		}
	}
	return out
}

// roleSpecs: specifications with role instances that call each other.
func roleSpecs() []gen {
	type body struct {
		n  string
		mk func() []S
	}
	actions := []body{
		{"inc", func() []S { return []S{Py("self.n = (self.n + 1) % 3")} }},
		{"glob", func() []S { return []S{Py("self.n = g"), Py("g = (g + 1) % 2")} }},
		{"call", func() []S { return []S{Call("t", "self", "F", "1"), Py("self.n = t")} }},
		{"peer", func() []S {
			return []S{Py("p = peers[1]"), Require("self.__id__ != p.__id__"), Call("t", "p", "F", "2"), Py("g = t % 2")}
		}},
		{"req", func() []S { return []S{Require("self.n == 0"), Py("self.n = 1")} }},
		{"all", func() []S { return []S{For(UNKNOWN, "p", "peers", Py("p.n = (p.n + 1) % 2"))} }},
	}
	funcs := []body{
		{"add", func() []S { return []S{Py("self.n = (self.n + d) % 3"), Return("self.n")} }},
		{"loc", func() []S { return []S{Py("t = (self.n + d) % 3"), Py("self.n = t % 2"), Return("t")} }},
		{"cond", func() []S { return []S{If("self.n == 0", Return("0")), Py("self.n = 0"), Return("d")} }},
	}
	var out []gen
	for _, conc := range []int64{1, 2} {
		for _, flow := range []ast.Flow{ATOMIC, SERIAL} {
			for _, fflow := range []ast.Flow{ATOMIC, SERIAL} {
				for _, a := range actions {
					for fi, fn := range funcs {
						if a.n != "call" && a.n != "peer" && fi > 0 {
							continue
						}
						// two roles with a running action each; more than one per role
						// only where the state space stays small
						one := conc == 2 && flow == SERIAL && (a.n == "call" || a.n == "peer" || a.n == "all")
						out = append(out, gen{fmt.Sprintf("role/c%d/%v/%v/%s.%s", conc, flow, fflow, a.n, fn.n), func() *ast.File {
							f := File(Init(Py("g = 0"), Py("peers = []"), Py("r = R()"), Py("peers.append(r)"), Py("q = R()"), Py("peers.append(q)"), Py("r = None"), Py("q = None")))
							f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
								Act(ATOMIC, "Init", Py("self.n = 0")),
								Act(flow, "A", a.mk()...),
							}, []*ast.Function{Func(fflow, "F", []string{"d"}, fn.mk()...)})}
							return f
						}, func() *ast.StateSpaceOptions {
							o := Opts(100, conc)
							if one {
								o.ActionOptions = map[string]*ast.Options{"R#.A": {MaxConcurrentActions: 1}}
							}
							return o
						}})
					}
				}
			}
		}
	}
	return out
}

// dataSpecs: state with nested mutable values and shared references.
func dataSpecs() []gen {
	type body struct {
		n    string
		init []string
		act  func() []*ast.Action
	}
	mk := func(flow ast.Flow, n string, codes ...S) *ast.Action { return Act(flow, n, codes...) }
	bodies := []body{
		{"alias", []string{"a = [0]", "b = a"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Py("a[0] = (a[0] + 1) % 3")), mk(ATOMIC, "B", Py("b = [b[0]]"))}
		}},
		{"nested", []string{"a = {'k': [0, 1]}", "b = a['k']"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Py("b[0] = (b[0] + 1) % 2")), mk(SERIAL, "B", Py("a['k'] = list(b)"), Py("b = a['k']"))}
		}},
		{"pick", []string{"a = [[0], [1]]", "s = None"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Any("e", "a", Py("e[0] = (e[0] + 1) % 2"))), mk(ATOMIC, "B", Any("e", "a", Py("s = e")))}
		}},
		{"choose", []string{"a = [[0], [1]]", "s = None"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", AnyAssign("s", "a"), Py("s[0] = (s[0] + 1) % 2"))}
		}},
		{"rec", []string{"a = record(f = 0, l = [0])", "b = a.l"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Py("a.f = (a.f + 1) % 2")), mk(SERIAL, "B", Py("b[0] = a.f"), Py("a.l = b"))}
		}},
		{"set", []string{"a = set()", "b = set([1])"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", AnyAssign("v", "range(3)"), Py("a.add(v)")), mk(ATOMIC, "B", Require("len(a) > 0"), AnyAssign("v", "a"), Py("a.discard(v)"))}
		}},
		{"gset", []string{"a = genericset()", "l = [0]"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", AnyAssign("v", "range(2)"), Py("a.add([v])")), mk(ATOMIC, "B", Require("len(a) > 0"), Any("v", "a", Py("l = v")))}
		}},
		{"bag", []string{"a = bag()"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Require("len(a) < 3"), AnyAssign("v", "range(2)"), Py("a.add(v)")), mk(ATOMIC, "B", Require("len(a) > 0"), AnyAssign("v", "a"), Py("a.discard(v)"))}
		}},
		{"local", []string{"a = [0]", "x = 0"}, func() []*ast.Action {
			return []*ast.Action{mk(SERIAL, "A", Py("l = a"), Py("l[0] = 1"), Py("x = a[0]")), mk(ATOMIC, "B", Py("a = [0]"))}
		}},
		{"tuple", []string{"a = ([0], 1)", "b = a[0]"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Py("b[0] = (b[0] + 1) % 2")), mk(ATOMIC, "B", Py("a = (list(b), 1 - a[1])"), Py("b = a[0]"))}
		}},
		{"fnarg", []string{"a = [0]", "b = [1]"}, func() []*ast.Action {
			return []*ast.Action{mk(ATOMIC, "A", Call("", "", "M", "a")), mk(ATOMIC, "B", Call("b", "", "I", "a"), Py("b[0] = (b[0] + 1) % 2"))}
		}},
	}
	var out []gen
	for _, conc := range []int64{1, 2} {
		for _, b := range bodies {
			out = append(out, gen{fmt.Sprintf("data/c%d/%s", conc, b.n), func() *ast.File {
				var in []S
				for _, c := range b.init {
					in = append(in, Py(c))
				}
				f := File(append([]*ast.Action{Init(in...)}, b.act()...)...)
				f.Functions = []*ast.Function{
					Func(ATOMIC, "M", []string{"p"}, Py("p[0] = (p[0] + 1) % 2")),
					Func(ATOMIC, "I", []string{"p"}, Return("p")),
				}
				return f
			}, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
		}
	}
	return out
}

// chanSpecs: roles that send messages through channel stubs.
func chanSpecs() []gen {
	var out []gen
	type body struct {
		n   string
		act []S
		fn  []S
	}
	bodies := []body{
		{"one", []S{Require("self.sent < 1"), Py("self.sent = self.sent + 1"), Call("", "dst", "F", "self.sent")}, []S{Py("self.got = d")}},
		{"two", []S{Require("self.sent < 2"), Py("self.sent = self.sent + 1"), Call("", "dst", "F", "self.sent")}, []S{Py("self.got = d")}},
		{"twoinone", []S{Require("self.sent < 1"), Py("self.sent = 2"), Call("", "dst", "F", "1"), Call("", "dst", "F", "2")}, []S{Py("self.got = d")}},
		{"sum", []S{Require("self.sent < 2"), Py("self.sent = self.sent + 1"), Call("", "dst", "F", "1")}, []S{Py("t = self.got"), Py("self.got = t + d")}},
		{"named", []S{Require("self.sent < 1"), Py("self.sent = 1"), Call("", "dst", "F", "d:=7")}, []S{Py("self.got = d")}},
		{"require", []S{Require("self.sent < 2"), Py("self.sent = self.sent + 1"), Call("", "dst", "F", "self.sent")}, []S{Require("self.got == d - 1"), Py("self.got = d")}},
	}
	for _, conc := range []int64{1, 2} {
		for _, flow := range []ast.Flow{ATOMIC, SERIAL} {
			for _, fflow := range []ast.Flow{ATOMIC, SERIAL} {
				for _, b := range bodies {
					out = append(out, gen{fmt.Sprintf("chan/c%d/%v/%v/%s", conc, flow, fflow, b.n), func() *ast.File {
						f := File(Init(Py("r = R()"), Py("q = Q()"), Py("ch = Channel(ordering = 'unordered', delivery = 'exactly_once', blocking = 'fire_and_forget')"), Py("dst = ch.stub(r)")))
						f.Roles = []*ast.Role{
							RoleDef("Q", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.sent = 0")), Act(flow, "Send", b.act...)}, nil),
							RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.got = 0"))}, []*ast.Function{Func(fflow, "F", []string{"d"}, b.fn...)}),
						}
						return f
					}, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
				}
			}
		}
	}
	return out
}
