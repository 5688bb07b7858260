package checks

import (
	ast "fizz/proto"
	"fmt"

	. "verif/sb"
)

// callSpecs: every callee body with every parameter list and call form that
// fits, called from a plain action, from a role and within control flow.
func callSpecs() []gen {
	type form struct {
		n      string
		params []string
		args   []string
	}
	forms := []form{
		{"pos", []string{"p"}, []string{"x"}},
		{"named", []string{"p"}, []string{"p:=y"}},
		{"none", []string{"p", "q=1"}, []string{"None", "None"}},
		{"defuse", []string{"p", "q=1"}, []string{"x"}},
		{"defgive", []string{"p", "q=1"}, []string{"x", "0"}},
		{"defname", []string{"p", "q=1"}, []string{"y", "q:=x"}},
		{"swapname", []string{"p", "q"}, []string{"q:=x", "p:=y"}},
		{"skip", []string{"p=0", "q=2"}, []string{"q:=y"}},
		{"alldef", []string{"p=2", "q=0"}, nil},
		{"false", []string{"p=1", "q=2"}, []string{"0", "False"}},
		{"empty", []string{"p=1", "q=[1]"}, []string{"''", "[]"}},
		{"state", []string{"p=x", "q=y"}, nil},
		{"lstdef", []string{"p", "q=[]"}, []string{"y"}},
	}
	type body struct {
		n   string
		q   bool // needs q
		num bool // needs a number in p
		mk  func() []S
	}
	bodies := []body{
		{"retp", false, false, func() []S { return []S{Return("p")} }},
		{"retq", true, false, func() []S { return []S{Return("q")} }},
		{"pair", true, false, func() []S { return []S{Return("[p, q]")} }},
		{"noret", false, false, func() []S { return []S{Py("z = p")} }},
		{"shadow", false, false, func() []S { return []S{Py("z = p"), Py("t = z"), Return("t")} }},
		{"setp", false, false, func() []S { return []S{Py("p = 7"), Return("p")} }},
		{"loop", false, false, func() []S {
			return []S{For(UNKNOWN, "i", "range(3)", Py("z = i"), If("i == y", Return("[i, p]"))), Return("p")}
		}},
		{"while", false, false, func() []S { return []S{Py("t = 0"), While(UNKNOWN, "True", Py("t = t + 1"), If("t > x", Return("t")))} }},
		{"oneof", false, false, func() []S { return []S{Oneof(Return("p"), Return("0"), Py("z = 1"))} }},
		{"any", false, false, func() []S { return []S{AnyAssign("v", "[0, p]"), Return("v")} }},
		{"anyb", false, false, func() []S { return []S{Any("v", "[0, 1]", Py("z = v"), Return("[v, p]"))} }},
		{"req", false, false, func() []S { return []S{Require("p != y"), Return("p")} }},
		{"nest", false, false, func() []S { return []S{Call("v", "", "H", "p"), Return("v")} }},
		{"nest2", false, false, func() []S { return []S{Py("t = p"), Call("", "", "H", "0"), Return("t")} }},
		{"rec", false, true, func() []S {
			return []S{If("p == 0", Return("x")), Call("v", "", "F", "p - 1"), Py("z = p"), Return("v")}
		}},
	}
	type site struct {
		n    string
		role bool
		flow ast.Flow
		mk   func(call func(v string) S) []S
	}
	sites := []site{
		{"local", false, ATOMIC, func(c func(string) S) []S { return []S{Py("t = 9"), c("v"), Py("r = [v, t]")} }},
		{"direct", false, ATOMIC, func(c func(string) S) []S { return []S{c("r")} }},
		{"drop", false, ATOMIC, func(c func(string) S) []S { return []S{c(""), Py("r = 'd'")} }},
		{"twice", false, ATOMIC, func(c func(string) S) []S { return []S{c("v"), Py("r = v"), c("v"), Py("r = [r, v]")} }},
		{"flow", false, ATOMIC, func(c func(string) S) []S {
			return []S{Py("p = 5"), If("x >= 0", c("p")), For(UNKNOWN, "i", "range(2)", c("v")), Py("r = p")}
		}},
		{"oneof", false, ATOMIC, func(c func(string) S) []S { return []S{Oneof(c("v"), Py("v = 'o'")), Py("r = v")} }},
		{"serial", true, SERIAL, func(c func(string) S) []S { return []S{c("v"), Py("r = v")} }},
		{"selfdirect", true, ATOMIC, func(c func(string) S) []S { return []S{c("r"), Py("self.k = r")} }},
		{"serflow", true, SERIAL, func(c func(string) S) []S { return []S{Py("t = 9"), If("x >= 0", c("v")), Py("r = [v, t]")} }},
	}
	var out []gen
	for _, st := range sites {
		for _, ff := range []ast.Flow{ATOMIC, SERIAL} {
			if ff == SERIAL && !st.role {
				continue
			}
			for _, fo := range forms {
				for _, bo := range bodies {
					if bo.q && len(fo.params) < 2 {
						continue
					}
					if bo.n == "rec" && fo.n == "swapname" || bo.n == "oneof" && st.n == "selfdirect" && ff == SERIAL {
						// the recursive call lacks an argument; whether falling off the
						// end of a function is a yield point of its own is not specified
						continue
					}
					if (bo.num || bo.n == "while") && (fo.n == "none" || fo.n == "empty") {
						continue
					}
					out = append(out, gen{fmt.Sprintf("call/%s/%s/%s/%s", st.n, fl2(ff), fo.n, bo.n), func() *ast.File {
						recv := ""
						if st.role {
							recv = "self"
						}
						body := bo.mk()
						if st.role {
							for _, s := range body {
								if s.CallStmt != nil {
									s.CallStmt.Receiver = "self"
								}
							}
						}
						fns := []*ast.Function{Func(ff, "F", fo.params, body...), Func(ff, "H", []string{"q"}, Py("z = q"), Return("q"))}
						call := func(v string) S { return Call(v, recv, "F", fo.args...) }
						f := File(Init(Py("x = 0"), Py("y = 1"), Py("z = 0"), Py("r = None")))
						acts := []*ast.Action{Act(st.flow, "A", st.mk(call)...)}
						if st.role {
							f.Actions[0].Block.Stmts = append(f.Actions[0].Block.Stmts, Py("o = R()"))
							f.Roles = []*ast.Role{RoleDef("R", false, append([]*ast.Action{Act(ATOMIC, "Init", Py("self.k = 0"))}, acts...), fns)}
						} else {
							f.Actions = append(f.Actions, acts...)
							f.Functions = fns
						}
						f.Actions = append(f.Actions, Act(ATOMIC, "B", Require("x == 0"), Py("x = 1"), Py("y = 0")))
						return f
					}, func() *ast.StateSpaceOptions {
						o := Opts(100, 2)
						if st.role {
							o.ActionOptions = map[string]*ast.Options{"R#.A": {MaxConcurrentActions: 1}}
						}
						return o
					}})
				}
			}
		}
	}
	return out
}

func fl2(f ast.Flow) string {
	if f == ATOMIC {
		return "atomic"
	}
	return "serial"
}

const chanDecl = "Channel(ordering = 'unordered', delivery = 'exactly_once', blocking = 'fire_and_forget')"

// chanMore: choices between messages, several receivers, replies, broadcasts.
func chanMore() []gen {
	type sp struct {
		n string
		f func(ff ast.Flow) *ast.File
	}
	two := func(send []S, recv []*ast.Function, extra ...*ast.Action) *ast.File {
		f := File(Init(Py("r = R()"), Py("s = R()"), Py("ch = "+chanDecl), Py("a = ch.stub(r)"), Py("b = ch.stub(s)"), Py("n = 0"), Py("l = [0]")))
		f.Actions = append(f.Actions, Act(ATOMIC, "Send", send...))
		f.Actions = append(f.Actions, extra...)
		f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.got = 0"))}, recv)}
		return f
	}
	put := func(ff ast.Flow) []*ast.Function {
		return []*ast.Function{Func(ff, "F", []string{"d"}, Py("self.got = (self.got + d) % 4"))}
	}
	once := func(ss ...S) []S { return append([]S{Require("n == 0"), Py("n = 1")}, ss...) }
	sps := []sp{
		{"oneortwo", func(ff ast.Flow) *ast.File {
			return two(once(Oneof(Call("", "a", "F", "1"), Atomic(Call("", "a", "F", "1"), Call("", "a", "F", "1")))), put(ff))
		}},
		{"twoorone", func(ff ast.Flow) *ast.File {
			return two(once(Oneof(Atomic(Call("", "a", "F", "1"), Call("", "a", "F", "1")), Call("", "a", "F", "1"))), put(ff))
		}},
		{"which", func(ff ast.Flow) *ast.File {
			return two(once(Oneof(Call("", "a", "F", "1"), Call("", "b", "F", "1"), Call("", "a", "F", "2"))), put(ff))
		}},
		{"both", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "1"), Call("", "b", "F", "2")), put(ff))
		}},
		{"function", func(ff ast.Flow) *ast.File {
			return two(once(Oneof(Call("", "a", "F", "1"), Call("", "a", "G", "1")), Call("", "b", "F", "1")), append(put(ff), Func(ff, "G", []string{"d"}, Py("self.got = 3"))))
		}},
		{"mutarg", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "l"), Py("l.append(1)")), []*ast.Function{Func(ff, "F", []string{"d"}, Py("self.got = len(d)"), Py("d.append(2)"))})
		}},
		{"loopsend", func(ff ast.Flow) *ast.File {
			return two(once(For(ATOMIC, "i", "range(3)", Call("", "a", "F", "i"))), []*ast.Function{Func(ff, "F", []string{"d"}, Py("self.got = (self.got * 3 + d) % 27"))})
		}},
		{"reqorder", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "2"), Call("", "a", "F", "1")), []*ast.Function{Func(ff, "F", []string{"d"}, Require("self.got == d - 1"), Py("self.got = d"))})
		}},
		{"choice", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "2"), Call("", "b", "F", "1")), []*ast.Function{Func(ff, "F", []string{"d"}, Any("v", "range(d)", Py("self.got = v"), Py("n = n + v")))})
		}},
		{"default", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F"), Call("", "b", "F", "None")), []*ast.Function{Func(ff, "F", []string{"d=n"}, Py("self.got = d"))}, Act(ATOMIC, "Chg", Require("n == 1"), Py("n = 2")))
		}},
		{"helper", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "1")), []*ast.Function{Func(ff, "F", []string{"d"}, Call("t", "self", "H", "d"), Py("self.got = t")), Func(ff, "H", []string{"d"}, Py("n = 2"), Return("d + 1"))})
		}},
		{"forward", func(ff ast.Flow) *ast.File {
			return two(once(Call("", "a", "F", "2")), []*ast.Function{Func(ff, "F", []string{"d"}, Py("self.got = d"), If("d > 0", Call("", "b", "F", "d - 1")))})
		}},
		{"again", func(ff ast.Flow) *ast.File {
			return two([]S{Require("n < 2"), Py("n = n + 1"), Call("", "a", "F", "n")}, []*ast.Function{Func(ff, "F", []string{"d"}, Py("t = self.got"), Py("self.got = t + d"))}, Act(ATOMIC, "Reset", Require("n == 2"), Py("n = 3")))
		}},
		{"retmsg", func(ff ast.Flow) *ast.File {
			return two(once(Call("v", "a", "F", "1")), []*ast.Function{Func(ff, "F", []string{"d"}, Py("self.got = d"), Return("5"))})
		}},
		{"twochan", func(ff ast.Flow) *ast.File {
			f := two(once(Call("", "a", "F", "1"), Call("", "c", "F", "1")), put(ff))
			f.Actions[0].Block.Stmts = append(f.Actions[0].Block.Stmts, Py("ch2 = "+chanDecl), Py("c = ch2.stub(r)"))
			return f
		}},
		{"selfstub", func(ff ast.Flow) *ast.File {
			f := File(Init(Py("ch = "+chanDecl), Py("r = R()"), Py("n = 0")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.got = 0")),
				Act(ff, "Go", Require("self.got == 0"), Py("me = ch.stub(self)"), Call("", "me", "F", "1"), Py("self.got = 1"))},
				[]*ast.Function{Func(ff, "F", []string{"d"}, Py("n = n + d"), Py("self.got = 2"))})}
			return f
		}},
	}
	var out []gen
	for _, conc := range []int64{1, 2} {
		for _, ff := range []ast.Flow{ATOMIC, SERIAL} {
			for _, s := range sps {
				out = append(out, gen{fmt.Sprintf("msg/c%d/%s/%s", conc, fl2(ff), s.n), func() *ast.File { return s.f(ff) }, func() *ast.StateSpaceOptions { return Opts(100, conc) }})
			}
		}
	}
	return out
}
