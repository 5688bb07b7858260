package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	"verif/fw"
	"verif/impl"
	. "verif/sb"
)

// A named statement constructor.
type ns struct {
	n  string
	mk func() S
}

func leaves() []ns {
	return []ns{
		{"inc", func() S { return Py("x = (x + 1) % 3") }},
		{"cpy", func() S { return Py("y = x") }},
		{"loc", func() S { return Py("t = (t + 1 + x) % 3") }},
		{"pas", func() S { return Pass() }},
		{"req", func() S { return Require("x != 1") }},
		{"one", func() S { return AnyAssign("x", "[0, 2]") }},
		{"ret", func() S { return Return("") }},
		{"rtv", func() S { return Return("x") }},
		{"cal", func() S { return Call("", "", "F") }},
		{"clv", func() S { return Call("y", "", "G", "x") }},
	}
}

type comp struct {
	n    string
	loop bool
	inh  bool // the body inherits the flow of the enclosing block
	mk   func(a, b S) S
}

func comps() []comp {
	l := "[0, 2]"
	return []comp{
		{"atomic", false, false, func(a, b S) S { return Atomic(a, b) }},
		{"serial", false, false, func(a, b S) S { return Serial(a, b) }},
		{"oneof", false, false, func(a, b S) S { return Oneof(a, b) }},
		{"parallel", false, false, func(a, b S) S { return Parallel(a, b) }},
		{"if", false, true, func(a, b S) S { return If("x == 0", a, b) }},
		{"ifelse", false, true, func(a, b S) S { return IfElse(Br{"x == 0", []S{a}}, Br{"", []S{b}}) }},
		{"elif", false, true, func(a, b S) S { return IfElse(Br{"x == 0", []S{a}}, Br{"x == 1", []S{b}}) }},
		{"for", true, true, func(a, b S) S { return For(UNKNOWN, "i", l, a, b) }},
		{"foratomic", true, false, func(a, b S) S { return For(ATOMIC, "i", l, a, b) }},
		{"forserial", true, false, func(a, b S) S { return For(SERIAL, "i", l, a, b) }},
		{"forparallel", true, false, func(a, b S) S { return Flow(ATOMIC, For(PARALLEL, "i", l, a, b)) }},
		{"forparallelserial", true, false, func(a, b S) S { return Flow(SERIAL, For(PARALLEL, "i", l, a, b)) }},
		{"while", true, true, func(a, b S) S { return While(UNKNOWN, "n < 2", Py("n = n + 1"), a, b) }},
		{"whileatomic", true, false, func(a, b S) S { return While(ATOMIC, "n < 2", Py("n = n + 1"), a, b) }},
		{"whileserial", true, false, func(a, b S) S { return While(SERIAL, "n < 2", Py("n = n + 1"), a, b) }},
		{"any", false, true, func(a, b S) S { return Any("i", l, a, b) }},
		{"anyatomic", false, false, func(a, b S) S { return AnyFlow(ATOMIC, "i", l, a, b) }},
		{"anyserial", false, false, func(a, b S) S { return AnyFlow(SERIAL, "i", l, a, b) }},
	}
}

// flowSpec: action A runs the given statements; B runs next to it.
func flowSpec(flow ast.Flow, env int, ss ...S) *ast.File {
	pre := []S{Atomic(Py("t = 0"), Py("n = 0"))}
	if flow == ATOMIC {
		pre = []S{Py("t = 0"), Py("n = 0")}
	}
	_ = pre
	body := append([]S{Py("t = 0"), Py("n = 0")}, ss...)
	f := File(Init(Py("x = 0"), Py("y = 0")), Act(flow, "A", body...))
	if env == 1 {
		f.Actions = append(f.Actions, Act(ATOMIC, "B", Py("x = (x + 1) % 3")))
	}
	f.Functions = append(f.Functions,
		Func(SERIAL, "F", nil, Py("x = (x + 1) % 3"), Py("y = (x + y) % 3")),
		Func(ATOMIC, "G", []string{"p"}, Py("y = p"), Return("(p + 1) % 3")))
	return f
}

func init() {
	fw.Register(&fw.Check{
		ID:        "C01",
		Technique: "exhaustive enumeration of bounded programs; the explored graph of each is compared with a reference interpreter's by subset construction over all traces",
		Rule:      "every program of the family; each run to exhaustion by the checker and by the reference semantics",
		Bounds: func(tier string) string {
			return "actions `leaf; composite(leaf|composite, leaf); leaf` over 10 leaf and 17 composite statement forms, atomic and serial, alone (1 or 2 instances) or next to a second action; 2 concurrent actions"
		},
		Cases: c01Cases,
	})
}

func c01Cases(tier string) []fw.Case {
	var out []fw.Case
	add := func(name string, conc int64, mk func() *ast.File) {
		out = append(out, fw.Case{Name: name, Run: func(c *fw.Ctx) {
			o := Opts(100, 2)
			if conc == 1 {
				o.ActionOptions = map[string]*ast.Options{"A": {MaxConcurrentActions: 1}}
			}
			compareSpec(c, mk(), o, impl.Mode{})
		}})
	}
	brk := []ns{{"brk", Break}, {"cnt", Continue}, {"brkif", func() S { return If("x == 1", Break()) }}, {"cntif", func() S { return If("x == 1", Continue()) }}}
	fl := map[ast.Flow]string{ATOMIC: "atomic", SERIAL: "serial"}
	for _, flow := range []ast.Flow{ATOMIC, SERIAL} {
		// straight sequences
		for _, a := range leaves() {
			for _, b := range leaves() {
				add(fmt.Sprintf("seq/%s/%s.%s", fl[flow], a.n, b.n), 2, func() *ast.File { return flowSpec(flow, 1, a.mk(), b.mk(), Py("y = x")) })
			}
		}
		for _, k := range comps() {
			ls := leaves()
			if k.loop {
				ls = append(ls, brk...)
			}
			for _, a := range ls {
				for _, b := range ls {
					conc := int64(1)
					if !k.loop && (a.n == "inc" || b.n == "inc") || tier == "thorough" {
						conc = 2
					}
					add(fmt.Sprintf("one/%s/%s(%s,%s)", fl[flow], k.n, a.n, b.n), conc, func() *ast.File {
						return flowSpec(flow, 1, k.mk(a.mk(), b.mk()), Py("y = (y + x + t + 1) % 3"))
					})
				}
			}
			for _, k2 := range comps() {
				if tier == "quick" && k.loop && k2.loop && strings.HasPrefix(k.n, "while") {
					continue
				}
				if k2.inh && (k.n == "oneof" || k.n == "parallel") {
					continue
				}
				l2 := []ns{ls[0], ls[4], ls[5], ls[8]}
				if k2.loop || k.loop {
					l2 = append(l2, brk[2], brk[1])
				}
				for _, a := range l2 {
					for pos := 0; pos < 2; pos++ {
						if tier == "quick" && (a.n == "ret" || a.n == "cal") && pos == 1 {
							continue
						}
						add(fmt.Sprintf("two/%s/%s(%s(%s),%d)", fl[flow], k.n, k2.n, a.n, pos), 1, func() *ast.File {
							in := k2.mk(a.mk(), Py("y = (y + 1) % 3"))
							if pos == 0 {
								return flowSpec(flow, 1, k.mk(in, Py("x = (x + 2) % 3")), Py("y = (y + x + t + 1) % 3"))
							}
							return flowSpec(flow, 1, k.mk(Py("x = (x + 2) % 3"), in), Py("y = (y + x + t + 1) % 3"))
						})
					}
				}
			}
		}
	}
	return out
}
