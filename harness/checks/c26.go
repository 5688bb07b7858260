package checks

import (
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	. "verif/sb"
)

// constants of every kind: the value, another one, a change of it in place.
var constKinds = []struct{ n, val, other, change string }{
	{"int", "1", "2", ""},
	{"bool", "True", "False", ""},
	{"none", "None", "0", ""},
	{"str", "'s'", "'t'", ""},
	{"tuple", "(1, 2)", "(2, 1)", ""},
	{"range", "range(1, 3)", "range(2)", ""},
	{"list", "[1, 2]", "[2, 1]", "C.append(3)"},
	{"item", "[1, 2]", "[2, 1]", "C[0] = 3"},
	{"dict", "{'a': 1, 'b': 2}", "{'a': 2}", "C['a'] = 3"},
	{"set", "set([1, 2])", "set([1])", "C.add(3)"},
	{"record", "record(a = 1, b = 2)", "record(a = 2, b = 1)", "C.a = 3"},
	{"newfield", "record(a = 1, b = 2)", "record(a = 2, b = 1)", "C.c = 3"},
	{"struct", "struct(a = 1, b = 2)", "struct(a = 2, b = 1)", ""},
	{"genericset", "genericset([[1], [2]])", "genericset([[1]])", "C.add([3])"},
	{"gsdiscard", "genericset([[1], [2]])", "genericset([[1]])", "C.discard([2])"},
	{"gsclear", "genericset([[1], [2]])", "genericset([[1]])", "C.clear()"},
	{"gspop", "genericset([[1], [2]])", "genericset([[1]])", "C.pop()"},
	{"gsremove", "genericset([[1], [2]])", "genericset([[1]])", "C.remove([2])"},
	{"genericmap", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C[1] = 5"},
	{"gmnew", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C[2] = 5"},
	{"gmpop", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C.pop(1)"},
	{"gmpopitem", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C.popitem()"},
	{"gmclear", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C.clear()"},
	{"gmsetdefault", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C.setdefault(7, 5)"},
	{"gmupdate", "genericmap({1: 2, 3: 4})", "genericmap({1: 3})", "C.update(a = 5)"},
	{"bag", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.add(1)"},
	{"bagall", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.add_all([1])"},
	{"bagdiscard", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.discard(1)"},
	{"bagpop", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.pop()"},
	{"bagremove", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.remove(1)"},
	{"bagclear", "bag([1, 1, 2])", "bag([1, 2, 2])", "C.clear()"},
	{"nested", "[[1], [2]]", "[[2]]", "C[0].append(3)"},
	{"intuple", "([1], 2)", "([2], 2)", "C[0].append(3)"},
	{"inrecord", "record(a = [1])", "record(a = [2])", "C.a.append(3)"},
	{"indict", "{'a': [1]}", "{'a': [2]}", "C['a'].append(3)"},
	{"bagindict", "{'a': bag([1])}", "{'a': bag([2])}", "C['a'].add(3)"},
	{"ingenericmap", "genericmap({1: [1]})", "genericmap({1: [2]})", "C[1].append(3)"},
	{"inbag", "bag([record(a = 1)])", "bag([record(a = 2)])", "[e for e in C][0].append(3) if False else [e for e in C][0].a"},
	{"ingenericset", "genericset([[1]])", "genericset([[2]])", "[e for e in C][0].append(3)"},
	{"listinbag", "bag([[1]])", "bag([[2]])", "[e for e in C][0].append(3)"},
}

// constSpecs use the constant C, once per value, in every place. y counts.
func constSpecs(stmts func(c string) []string) []gen {
	type place struct {
		n  string
		mk func() *ast.File
	}
	role := func(init, act, fn []S) *ast.File {
		f := File(Init(Py("x = 0"), Py("y = 0"), Py("r = R(p = C)")))
		acts := []*ast.Action{Act(ATOMIC, "Init", init...)}
		if act != nil {
			acts = append(acts, Act(SERIAL, "A", act...))
		}
		f.Roles = []*ast.Role{RoleDef("R", false, acts, []*ast.Function{Func(ATOMIC, "F", []string{"q=0"}, fn...)})}
		return f
	}
	end := []S{Return("0")}
	places := []place{
		{"init", func() *ast.File { return File(Init(Py("x = C"), Py("y = [C]")), Act(ATOMIC, "A", Py("y = 0"))) }},
		{"action", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", Py("x = [C]"), Py("y = C")), Act(ATOMIC, "B", Py("x = 1")))
		}},
		{"local", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", Py("t = C"), Py("x = (y, t == C)"), Py("y = 1")), Act(ATOMIC, "B", Py("y = 0")))
		}},
		{"require", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Require("x != C"), Py("x = C")), Act(ATOMIC, "B", Py("x = 0")))
		}},
		{"if", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", IfElse(Br{"x == C", []S{Py("y = 1")}}, Br{"", []S{Py("x = C")}})))
		}},
		{"while", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", While(UNKNOWN, "x != C", Py("x = C"))))
		}},
		{"for", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(SERIAL, "A", For(UNKNOWN, "i", "[C, 7]", Py("x = i"))))
		}},
		{"any", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Any("i", "[C, 7]", Py("x = i"))))
		}},
		{"choice", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", AnyAssign("t", "[C, 7]"), Py("x = t")))
		}},
		{"guarded", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", AnyAssignIf("t", "[C, 7]", "t != C"), Py("x = [t, C]")))
		}},
		{"return", func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Py("x = 1"), Return("C")))
		}},
		{"argument", func() *ast.File {
			f := File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Call("x", "", "F", "C"), Py("y = 1 - y")))
			f.Functions = []*ast.Function{Func(ATOMIC, "F", []string{"p"}, Py("t = [p]"), Return("[t, C]"))}
			return f
		}},
		{"default", func() *ast.File {
			f := File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Call("x", "", "F"), Py("y = 1 - y")))
			f.Functions = []*ast.Function{Func(ATOMIC, "F", []string{"p=C"}, Return("p"))}
			return f
		}},
		{"role", func() *ast.File {
			return role([]S{Py("self.a = C")}, []S{Py("self.a = [C]"), Py("self.a = [self.a, 0][1]")}, end)
		}},
		{"rolefunc", func() *ast.File {
			return role([]S{Py("self.a = 0")}, []S{Call("t", "self", "F", "C"), Py("self.a = t")}, []S{Py("t = C"), Return("[q, t]")})
		}},
		{"roleparam", func() *ast.File {
			return role([]S{Py("self.a = self.p")}, []S{Py("self.a = [self.p, C]")}, end)
		}},
		{"message", func() *ast.File {
			f := role([]S{Py("self.a = 0")}, nil, []S{Py("self.a = [q, C]")})
			f.Actions[0].Block.Stmts = append(f.Actions[0].Block.Stmts, Py("ch = Channel(ordering = 'unordered', delivery = 'exactly_once', blocking = 'fire_and_forget')"), Py("dst = ch.stub(r)"), Py("s = S()"))
			f.Roles = append(f.Roles, RoleDef("S", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.n = 0")), Act(ATOMIC, "Send", Require("self.n == 0"), Py("self.n = 1"), Call("", "dst", "F", "C"))}, nil))
			return f
		}},
		{"copied", func() *ast.File { // changing a copy changes nothing else
			return File(Init(Py("x = [C]"), Py("y = 0")), Act(ATOMIC, "A", Py("x.append(y)"), Require("len(x) < 4")), Act(ATOMIC, "B", Py("y = C")))
		}},
	}
	var out []gen
	for _, k := range constKinds {
		if k.change != "" && strings.HasPrefix(k.n, "g") && k.n != "genericset" && k.n != "genericmap" || k.n == "item" || k.n == "newfield" || strings.HasPrefix(k.n, "bag") && k.n != "bag" {
			continue // the same value again
		}
		for _, p := range places {
			if p.n == "default" && k.n == "list" {
				continue
			}
			out = append(out, gen{"use/" + k.n + "/" + p.n, func() *ast.File {
				f := p.mk()
				for _, s := range stmts(k.val) {
					f.Stmts = append(f.Stmts, Py(s))
				}
				return f
			}, func() *ast.StateSpaceOptions { return Opts(100, 2) }})
		}
	}
	return out
}

// shadowSpecs have names like that of the constant.
func shadowSpecs() []gen {
	var out []gen
	add := func(n string, mk func() *ast.File) {
		out = append(out, gen{"shadow/" + n, func() *ast.File {
			f := mk()
			f.Stmts = []S{Py("C = 1"), Py("D = [C, C + 1]")}
			return f
		}, func() *ast.StateSpaceOptions { return Opts(100, 2) }})
	}
	for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
		n := flowName(fl)
		in := func() *ast.Action { return Init(Py("x = 0"), Py("y = 0")) }
		add(n+"/assign", func() *ast.File { return File(in(), Act(fl, "A", Py("C = 5"), Py("x = C"))) })
		add(n+"/one", func() *ast.File { return File(in(), Act(fl, "A", Py("C = 5\nx = C"), Py("y = C"))) })
		add(n+"/for", func() *ast.File {
			return File(in(), Act(fl, "A", For(UNKNOWN, "C", "[5, 6]", Py("x = C")), Py("y = C")))
		})
		add(n+"/any", func() *ast.File { return File(in(), Act(fl, "A", Any("C", "[5, 6]", Py("x = C")), Py("y = C"))) })
		add(n+"/choice", func() *ast.File { return File(in(), Act(fl, "A", AnyAssign("C", "[5, 6]"), Py("x = C"))) })
		add(n+"/comp", func() *ast.File { return File(in(), Act(fl, "A", Py("x = [C for C in [5]]"), Py("y = C"))) })
		add(n+"/lambda", func() *ast.File { return File(in(), Act(fl, "A", Py("x = (lambda C: C + 1)(6)"), Py("y = C"))) })
		add(n+"/param", func() *ast.File {
			f := File(in(), Act(ATOMIC, "A", Call("x", "", "F", "5"), Py("y = C")))
			f.Functions = []*ast.Function{Func(fl, "F", []string{"C"}, Py("t = C"), Py("C = C + 1"), Return("[t, C]"))}
			return f
		})
		add(n+"/called", func() *ast.File {
			f := File(in(), Act(ATOMIC, "A", For(UNKNOWN, "C", "[5]", Call("x", "", "F", "C")), Py("y = C")))
			f.Functions = []*ast.Function{Func(ATOMIC, "F", []string{"p"}, Return("[p, C]"))}
			return f
		})
		add(n+"/result", func() *ast.File {
			f := File(in(), Act(ATOMIC, "A", Call("C", "", "F", "5"), Py("y = C")))
			f.Functions = []*ast.Function{Func(ATOMIC, "F", []string{"p"}, Return("p"))}
			return f
		})
		add(n+"/field", func() *ast.File {
			f := File(Init(Py("x = 0"), Py("r = R(C = 5)")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.D = 6"), Py("self.a = [self.C, C]")), Act(fl, "A", Py("self.D = C"), Py("self.a = D"))}, nil)}
			return f
		})
		add(n+"/other", func() *ast.File { return File(in(), Act(fl, "A", Py("D2 = D"), Py("x = D2[0]"), Py("y = D"))) })
	}
	add("state", func() *ast.File {
		return File(Init(Py("x = 0"), Py("C = 5"), Py("y = C")), Act(ATOMIC, "A", Py("x = C")))
	})
	add("builtin", func() *ast.File {
		f := File(Init(Py("x = 0")), Act(ATOMIC, "A", Py("x = sum + max([C])")))
		return f
	})
	i := len(out) - 1
	mk := out[i].file
	out[i].file = func() *ast.File { f := mk(); f.Stmts = append(f.Stmts, Py("sum = 7")); return f }
	return out
}

// unchanged: no step changes the constant.
func unchanged(kind int, how string) func(*fw.Ctx) {
	return func(c *fw.Ctx) {
		k := constKinds[kind]
		f := File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", Py("x = 1 - x")), Act(ATOMIC, "B", Py("y = str(C)")))
		var change []S
		switch how {
		case "direct":
			change = []S{Py(k.change)}
		case "alias":
			change = []S{Py("t = C"), Py("z = 0"), Py(strings.ReplaceAll(k.change, "C", "t"))}
		case "oneline":
			change = []S{Py("t = C\n" + strings.ReplaceAll(k.change, "C", "t"))}
		case "kept":
			f.Actions[0].Block.Stmts = append(f.Actions[0].Block.Stmts, Py("k = C"))
			change = []S{Py(strings.ReplaceAll(k.change, "C", "k"))}
		case "element":
			change = []S{For(UNKNOWN, "t", "[C]", Py(strings.ReplaceAll(k.change, "C", "t")))}
		case "choice":
			change = []S{AnyAssign("t", "[C]"), Py(strings.ReplaceAll(k.change, "C", "t"))}
		case "argument":
			f.Functions = []*ast.Function{Func(ATOMIC, "F", []string{"t"}, Py(strings.ReplaceAll(k.change, "C", "t")))}
			change = []S{Call("", "", "F", "C")}
		case "init":
			f.Actions[0].Block.Stmts = append(f.Actions[0].Block.Stmts, Py(k.change))
		}
		if change != nil {
			f.Actions = append(f.Actions, Act(ATOMIC, "M", append([]S{Require("x == 1")}, change...)...))
		}
		f.Stmts = []S{Py("C = " + k.val)}
		orig := proto.Clone(f).(*ast.File)
		for _, s := range orig.Actions[1:] {
			if s.Name == "M" {
				s.Block.Stmts = s.Block.Stmts[:1]
			}
		}
		orig.Actions[0] = Init(Py("x = 0"), Py("y = 0"))
		r0, err := impl.Run(orig, Opts(100, 1), impl.Mode{})
		if err != nil {
			panic(err)
		}
		want := map[string]bool{}
		for _, n := range allNodes(r0.Root) {
			want[impl.HeapMap(n.Heap)["y"].String()] = true
		}
		for _, m := range []impl.Mode{{}, {Strategy: "dfs"}, {NoSym: true}} {
			r, err := impl.Run(f, Opts(100, 1), m)
			c.Count("programs", 1)
			if err != nil || r.Err != nil {
				c.Count("refused", 1)
				continue
			}
			for _, n := range allNodes(r.Root) {
				c.Count("states", 1)
				if y, ok := impl.HeapMap(n.Heap)["y"]; ok && !want[y.String()] {
					c.Fail("changed", "the constant %s is %v after %q\n%s", k.val, y, k.change, specText(f))
					return
				}
			}
		}
	}
}

// hook: the explored graph is that of the specification with the constants replaced.
func hooked(hook string, stmts, want []string, mk func() *ast.File, m impl.Mode) func(*fw.Ctx) {
	return func(c *fw.Ctx) {
		py := func(ss []string) []S {
			var out []S
			for _, s := range ss {
				out = append(out, Py(s))
			}
			return out
		}
		f := mk()
		f.Stmts = py(want)
		rg, err := build(f, Opts(100, 2), false)
		if err != nil {
			panic(err)
		}
		f.Stmts = py(stmts)
		m.Hook = hook
		r, err := impl.Run(f, Opts(100, 2), m)
		if err != nil || r.Err != nil {
			c.Fail("crash", "hook %q: %v\n%s", hook, err, specText(f))
			return
		}
		c.Count("programs", 1)
		c.Count("states", len(rg.Cfgs))
		compareGraphs(c, rg.LTS, impl.Extract(r.Root).LTS, 0, f)
	}
}

func hookCases() []fw.Case {
	use := map[string]func() *ast.File{
		"all": func() *ast.File {
			f := File(Init(Py("x = C"), Py("y = D"), Py("l = E"), Py("r = R()")), Act(SERIAL, "A", Py("x = D"), Py("y = [C, E]")), Act(ATOMIC, "B", Require("x != C"), Call("x", "", "F")))
			f.Functions = []*ast.Function{Func(ATOMIC, "F", nil, Return("[C, E]"))}
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.a = C")), Act(ATOMIC, "X", Py("self.a = [C, D, E]"))}, nil)}
			return f
		},
		"bound": func() *ast.File {
			return File(Init(Py("x = 0"), Py("y = 0")), Act(ATOMIC, "A", AnyAssign("y", "range(C)"), Py("x = D")), Act(ATOMIC, "B", Require("x < C"), Py("x = x + 1")))
		},
	}
	stmts := []string{"C = 2", "D = C + 1", "E = [C, D]"}
	hooks := []struct {
		n, hook string
		want    []string
	}{
		{"none", "", stmts},
		{"one", "C = 3", []string{"C = 3", "D = 3", "E = [2, 3]"}},
		{"dependent", "D = C * 2", []string{"C = 2", "D = 4", "E = [2, 3]"}},
		{"two", "C = 1\nD = C + 3", []string{"C = 1", "D = 4", "E = [2, 3]"}},
		{"last", "C = 1\nC = 3", []string{"C = 3", "D = 3", "E = [2, 3]"}},
		{"inplace", "E.append(C)", []string{"C = 2", "D = 3", "E = [2, 3, 2]"}},
		{"type", "E = record(a = C)", []string{"C = 2", "D = 3", "E = record(a = 2)"}},
		{"new", "Z = 5\nC = Z", []string{"C = 5", "D = 3", "E = [2, 3]"}},
		{"statevar", "x = 5\ny = 6\nself = 7", stmts},
		{"cond", "if C == 2:\n    C = 4", []string{"C = 4", "D = 3", "E = [2, 3]"}},
		{"loop", "for i in range(2):\n    C = C + i", []string{"C = 3", "D = 3", "E = [2, 3]"}},
		{"comment", "# nothing\n", stmts},
		{"builtins", "E = [sum([C, D]), len(E), bag([1]), genericset([2]), math.floor(1.5)]", []string{"C = 2", "D = 3", "E = [5, 2, bag([1]), genericset([2]), 1]"}},
		{"function", "def f(v):\n    return v + 1\nC = f(C)", []string{"C = 3", "D = 3", "E = [2, 3]"}},
		{"shadowbuiltin", "len = 3\nC = len", []string{"C = 3", "D = 3", "E = [2, 3]"}},
	}
	var out []fw.Case
	for n, mk := range use {
		for _, h := range hooks {
			for mn, m := range map[string]impl.Mode{"bfs": {}, "dfs": {Strategy: "dfs"}, "processed": {Processed: true}} {
				out = append(out, fw.Case{Name: "hook/" + n + "/" + h.n + "/" + mn, Run: hooked(h.hook, stmts, h.want, mk, m)})
			}
			if n == "bound" {
				out = append(out, fw.Case{Name: "hook/cli/" + h.n, Run: hookCLI(h.hook, stmts, h.want)})
			}
		}
	}
	for _, h := range []string{"C = undefined", "C = ", "fail('no')", "C = 1 // 0", "C = record(1)"} {
		out = append(out, fw.Case{Name: "hook/error/" + h, Run: func(c *fw.Ctx) {
			f := use["bound"]()
			f.Stmts = []S{Py("C = 2"), Py("D = 3")}
			o := cli.Run([]cli.Spec{cli.Named("spec", f)}, Opts(100, 1), nil, "--preinit-hook", h)
			c.Count("cli_runs", 1)
			if o.Verdict == "pass" || o.Code == 0 {
				c.Fail("ignored", "the faulty hook %q is ignored: %v", h, o)
			}
		}})
	}
	return out
}

// hookCLI: the binary checks the specification with the replaced constants, however the
// hook is given, and reads the constants once.
func hookCLI(hook string, stmts, want []string) func(*fw.Ctx) {
	return func(c *fw.Ctx) {
		mk := func(ss []string, inv string) *ast.File {
			f := File(Init(Py("x = C"), Py("y = [D, E]")), Act(ATOMIC, "A", Py("x = D")), Act(ATOMIC, "B", Py("x = C"), Py("y = [C, D]")))
			for _, s := range ss {
				f.Stmts = append(f.Stmts, Py(s))
			}
			f.Invariants = []*ast.Invariant{Always("Inv", inv)}
			return f
		}
		o0 := Opts(100, 1)
		for _, inv := range []string{"True", "x == C", "y == [D, E]", "x in [C, D]", "C == 3", "D == 3", "E == [2, 3]", "len([1]) == 1"} {
			ref := cli.Run([]cli.Spec{cli.Named("spec", mk(want, inv))}, o0, nil)
			files := filepath.Join(os.TempDir(), fmt.Sprintf("hook%d.cfg", os.Getpid()))
			if err := os.WriteFile(files, []byte(hook), 0o644); err != nil {
				panic(err)
			}
			ways := [][]string{{"--preinit-hook", hook}, {"--preinit-hook-file", files}, {"--preinit-hook", hook, "--exploration_strategy", "dfs"}, {"--preinit-hook", hook, "--experimental_no_graph"}}
			for _, w := range ways {
				o := cli.Run([]cli.Spec{cli.Named("spec", mk(stmts, inv))}, o0, nil, w...)
				c.Count("cli_runs", 1)
				if o.Verdict != ref.Verdict || fmt.Sprint(o.Names) != fmt.Sprint(ref.Names) {
					c.Fail("verdict", "assertion %s with %q: %v, the same constants in the specification: %v\n%s", inv, w, o, ref, tail(o.Text))
				}
				if ref.Verdict == "invariant" && w[0] == "--preinit-hook" && len(w) == 2 && reStates(o.Text) != reStates(ref.Text) {
					c.Fail("trace", "assertion %s with %q: the states of the trace are\n%s, with the same constants in the specification\n%s", inv, w, reStates(o.Text), reStates(ref.Text))
				}
			}
			os.Remove(files)
		}
	}
}

// reStates lists the states of the printed counterexample.
func reStates(text string) string {
	s := ""
	for _, p := range printedTrace(text) {
		s += p.name + " " + p.state + "\n"
	}
	return s
}

// once: the statements at the top level are executed once.
func once(c *fw.Ctx) {
	f := File(Init(Py("x = C")), Act(ATOMIC, "A", Py("x = 1 - x")), Act(SERIAL, "B", Py("x = C"), Py("x = D")))
	f.Stmts = []S{Py("C = [print('EVALUATED'), 1][1]"), Py("D = 0")}
	f.Invariants = []*ast.Invariant{Always("Inv", "x in [C, D]")}
	for _, fl := range [][]string{nil, {"--exploration_strategy", "dfs"}, {"--preinit-hook", "D = 0"}} {
		o := cli.Run([]cli.Spec{cli.Named("spec", f)}, Opts(100, 2), nil, fl...)
		c.Count("cli_runs", 1)
		if n := strings.Count(o.Text, "EVALUATED"); n != 1 || o.Verdict != "pass" {
			c.Fail("once", "%v: constants are evaluated %d times, %v", fl, n, o)
		}
	}
}

// assertions that use a constant
func constInvs() []*ast.Invariant {
	return []*ast.Invariant{Always("A0", "x != C"), Always("A1", "str(x) == '0' or x == [C] or x == C"), Always("A2", "C == C and not (y == 1 and x == C)"),
		Assertion("A3", []string{"always"}, Py("t = C"), If("x == t", Return("True")), Return("y != [C]"))}
}

func init() {
	fw.Register(&fw.Check{ID: "C26",
		Technique: "exhaustive enumeration of specifications with constants of every kind in every place, names that shadow them, attempts to change them, and hooks; explored graph compared with a reference interpreter by subset construction over all traces, verdicts of the binary with those of the specification with replaced constants",
		Rule:      "every kind of value x every place of use; every way to change a value in place; every hook form",
		Cases: func(tier string) []fw.Case {
			one := func(v string) []string { return []string{"C = " + v} }
			two := func(v string) []string { return []string{"B = " + v, "C = B", "B = 0"} }
			out := cat(
				genCases("", constSpecs(one), cmp),
				genCases("second", constSpecs(two), cmp),
				genCases("", shadowSpecs(), cmp),
				genCases("inv/", constSpecs(one), safetyPairs(impl.Mode{}, false, tier == "thorough", constInvs)),
				hookCases(),
				[]fw.Case{{Name: "once", Run: once}},
			)
			for i, k := range constKinds {
				if k.change != "" {
					for _, how := range []string{"direct", "alias", "oneline", "kept", "element", "choice", "argument", "init"} {
						out = append(out, fw.Case{Name: "change/" + k.n + "/" + how, Run: unchanged(i, how)})
					}
				}
			}
			return out
		}})
}
