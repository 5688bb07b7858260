package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	. "verif/sb"
)

// The values of the confusion family: pairwise different under `==`.
var confVals = []string{
	"None", "True", "False", "0", "1", "-1", "0.5", "''", "'0'", "'1'", "'None'", "'True'", "'a'", "'a,b'", "'[0]'", "'0.5'", "'\"a\"'", "b'a'",
	"[]", "()", "{}", "set()", "[0]", "(0,)", "set([0])", "[1]", "[0, 1]", "[1, 0]", "(0, 1)", "set([0, 1])", "['0']", "[[]]", "[[], []]", "[[0], 1]", "[0, [1]]",
	"['a', 'b']", "['a,b']", "['a\", \"b']", "{0: 1}", "{'0': 1}", "{'a': 1}", "{'a': '1'}", "record(a = 1)", "struct(a = 1)", "record(a = '1')", "struct(a = '1')", "record()",
	"genericset()", "genericset([0])", "bag()", "bag([0])", "bag([0, 0])", "genericmap()", "{(0, 1): 2}", "{'(0, 1)': 2}", "range(2)",
}

// places: where a value lives while the two runs differ only in it.
func confPlaces() map[string]func(vals string) *ast.File {
	show := "out = [i for i, w in enumerate(" + "[" + strings.Join(confVals, ", ") + "]" + ") if type(w) == type(x) and w == x]"
	return map[string]func(string) *ast.File{
		"state": func(vs string) *ast.File {
			return File(Init(Py("x = 0"), Py("out = None")),
				Act(ATOMIC, "Set", Require("out == None"), AnyAssign("x", vs)),
				Act(ATOMIC, "Show", Require("out == None"), Py(show)))
		},
		"nested": func(vs string) *ast.File {
			return File(Init(Py("l = [0, {'k': (0, 0)}]"), Py("out = None")),
				Act(ATOMIC, "Set", Require("out == None"), AnyAssign("x", vs), Py("l[1]['k'] = (0, x)")),
				Act(ATOMIC, "Show", Require("out == None"), Py("x = l[1]['k'][1]; "+show)))
		},
		"local": func(vs string) *ast.File {
			return File(Init(Py("out = None")),
				Act(SERIAL, "A", Require("out == None"), AnyAssign("x", vs), Pass(), Py(show)))
		},
		"anyvar": func(vs string) *ast.File {
			return File(Init(Py("out = None")),
				Act(SERIAL, "A", Require("out == None"), Any("x", vs, Pass(), Py(show))))
		},
		"range": func(vs string) *ast.File {
			return File(Init(Py("out = None")),
				Act(SERIAL, "A", Require("out == None"), Any("y", vs, For(UNKNOWN, "x", "[0, y]", Pass(), Py(show)))))
		},
		"rangerest": func(vs string) *ast.File {
			return File(Init(Py("out = None")),
				Act(SERIAL, "A", Require("out == None"), Any("y", vs, Block2(Py("l = [0, y]"), Py("y = 0"), For(UNKNOWN, "x", "l", Py("l = 0"), Py(show))))))
		},
		"arg": func(vs string) *ast.File {
			f := File(Init(Py("out = None"), Py("r = R()")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
				Act(SERIAL, "A", Require("out == None"), Any("y", vs, Call("", "self", "F", "y"))),
			}, []*ast.Function{Func(SERIAL, "F", []string{"x"}, Pass(), Pass(), Py(show))})}
			return f
		},
		"argonly": func(vs string) *ast.File {
			f := File(Init(Py("out = None"), Py("s = 0"), Py("r = R()")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
				Act(ATOMIC, "Set", Require("out == None"), Require("s == 0"), AnyAssign("s", vs)),
				Act(SERIAL, "A", Require("out == None"), Call("", "self", "F", "s")),
			}, []*ast.Function{Func(SERIAL, "F", []string{"x"}, Py("s = 1"), Py(show))})}
			return f
		},
		"field": func(vs string) *ast.File {
			f := File(Init(Py("out = None"), Py("r = R()")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
				Act(ATOMIC, "Init", Py("self.f = 0")),
				Act(ATOMIC, "Set", Require("out == None"), AnyAssign("x", vs), Py("self.f = x")),
				Act(ATOMIC, "Show", Require("out == None"), Py("x = self.f; "+show)),
			}, nil)}
			return f
		},
		"param": func(vs string) *ast.File {
			f := File(Init(Py("out = None"), Any("v", vs, Py("r = R(p = v)"), Py("rr = r"))), Act(ATOMIC, "Z", Pass()))
			_ = f
			f = File(Init(Py("out = None"), AnyAssign("v", vs), Py("r = R(p = v)"), Py("v = 0")))
			f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
				Act(ATOMIC, "Show", Require("out == None"), Py("x = self.p; "+show)),
			}, nil)}
			return f
		},
		"message": func(vs string) *ast.File {
			f := File(Init(Py("out = None"), Py("r = R()"), Py("ch = Channel(ordering = 'unordered', delivery = 'exactly_once', blocking = 'fire_and_forget')"), Py("dst = ch.stub(r)"), Py("q = Q()")))
			f.Roles = []*ast.Role{
				RoleDef("Q", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.sent = 0")), Act(ATOMIC, "Send", Require("self.sent == 0"), Any("y", vs, Py("self.sent = 1"), Call("", "dst", "F", "y")))}, nil),
				RoleDef("R", false, nil, []*ast.Function{Func(ATOMIC, "F", []string{"x"}, Py(show))}),
			}
			return f
		},
		"returned": func(vs string) *ast.File {
			return File(Init(Py("n = 0")), Act(ATOMIC, "A", Require("n == 0"), Any("x", vs, Py("n = 1"), Return("x"))))
		},
	}
}

// Values that the checker renders alike in its state hash (a known finding,
// listed pair by pair for the place "state").
var confClass = map[string]int{}

func init() {
	for i, c := range [][]string{
		{"'a'", "b'a'"},
		{"[]", "()", "set()", "genericset()", "bag()"},
		{"[0]", "(0,)", "set([0])", "genericset([0])", "bag([0])"},
		{"[0, 1]", "(0, 1)", "set([0, 1])", "range(2)"},
		{"{}", "record()", "genericmap()"},
		{"{0: 1}", "{'0': 1}"},
		{"{'a': 1}", "record(a = 1)", "struct(a = 1)"},
		{"{'a': '1'}", "record(a = '1')", "struct(a = '1')"},
		{"{(0, 1): 2}", "{'(0, 1)': 2}"},
	} {
		for _, v := range c {
			confClass[v] = i + 1
		}
	}
}

// confSpecs: every pair of values in every place, with all values at once in
// addition.
func confSpecs(tier string) []gen {
	var out []gen
	opt := func() *ast.StateSpaceOptions { return Opts(100, 1) }
	pl := confPlaces()
	for _, p := range []string{"state", "nested", "local", "anyvar", "range", "rangerest", "arg", "argonly", "field", "param", "message", "returned"} {
		mk := pl[p]
		for i, v := range confVals {
			for _, w := range confVals[i+1:] {
				if p != "state" && confClass[v] > 0 && confClass[v] == confClass[w] {
					continue
				}
				out = append(out, gen{fmt.Sprintf("conf/%s/%s~%s", p, v, w), func() *ast.File { return mk("[" + v + ", " + w + "]") }, opt})
			}
		}
	}
	return out
}
