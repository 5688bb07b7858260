package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/canon"
	"verif/fw"
	"verif/ref"
	. "verif/sb"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	"github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

// An op is one statement of a history. When pop is set it is the name of the
// collection from which an element of the implementation's choice is taken.
type op struct {
	code string
	pop  string
}

// A history family: every sequence of ops, from the given start, is executed
// by the checker's evaluator and by the model; after every op the results of
// all observations are compared.
type histories struct {
	name  string
	start []string
	ops   []op
	obs   []string // names starting with ~ are compared without order
	depth [2]int   // quick, thorough
}

type world struct {
	env  starlark.StringDict
	impl bool
}

var (
	evaluator = modelchecker.NewModelChecker("verif")
	fileOpts  = &syntax.FileOptions{Set: true, GlobalReassign: true, TopLevelControl: true}
)

func newWorld(impl bool) *world {
	w := &world{env: starlark.StringDict{}, impl: impl}
	b := ref.Plain()
	if impl {
		b = lib.Builtins
	}
	for k, v := range b {
		w.env[k] = v
	}
	return w
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
		}
	}()
	return f()
}

func (w *world) exec(code string) error {
	return guard(func() error {
		if w.impl {
			_, err := evaluator.ExecPyStmt("x.fizz", &ast.PyStmt{Code: code}, w.env)
			return err
		}
		f, err := fileOpts.Parse("x", code, 0)
		if err != nil {
			return err
		}
		return starlark.ExecREPLChunk(f, &starlark.Thread{}, w.env)
	})
}

func (w *world) eval(expr string) (v starlark.Value, err error) {
	err = guard(func() (err error) {
		if w.impl {
			v, err = evaluator.EvalPyExpr("x.fizz", expr, w.env)
		} else {
			v, err = starlark.EvalOptions(fileOpts, &starlark.Thread{}, "x", expr, w.env)
		}
		return err
	})
	return v, err
}

func show(v starlark.Value, err error, unordered bool) string {
	if err != nil {
		if strings.HasPrefix(err.Error(), "PANIC") {
			return err.Error()
		}
		return "error"
	}
	var s string
	if it, ok := v.(starlark.Iterable); ok && unordered {
		var l []string
		i := it.Iterate()
		defer i.Done()
		var x starlark.Value
		for i.Next(&x) {
			l = append(l, canon.Val(x))
		}
		sort.Strings(l)
		s = "{" + strings.Join(l, ",") + "}"
	} else {
		s = canon.Val(v)
	}
	// equal numbers are interchangeable as elements
	return strings.ReplaceAll(s, "f1.0", "1")
}

func (h *histories) observe(w *world) string {
	var plain []string
	for _, o := range h.obs {
		plain = append(plain, strings.TrimPrefix(o, "~"))
	}
	v, err := w.eval("[" + strings.Join(plain, ", ") + "]")
	var out []string
	for i, o := range h.obs {
		if err == nil {
			out = append(out, show(v.(*starlark.List).Index(i), nil, o[0] == '~'))
		} else {
			x, e := w.eval(plain[i])
			out = append(out, show(x, e, o[0] == '~'))
		}
	}
	return strings.Join(out, "\n")
}

func (h *histories) differ(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i < len(y) && i < len(h.obs) && x[i] != y[i] {
			return fmt.Sprintf("%s is %s, should be %s", h.obs[i], x[i], y[i])
		}
	}
	return fmt.Sprintf("%q, should be %q", a, b)
}

// step executes one op in both worlds.
func (h *histories) step(i, r *world, o op) string {
	code := o.code
	var got starlark.Value
	if o.pop != "" {
		var err error
		if got, err = i.eval(o.code); err != nil {
			if n, _ := r.eval("len(" + o.pop + ")"); n.String() != "0" || strings.HasPrefix(err.Error(), "PANIC") {
				return "fails: " + err.Error()
			}
			return ""
		}
		i.env["r"] = got
		// the model gives up the element which is the same
		n, _ := r.eval(o.pop)
		want := show(got, nil, false)
		var cand starlark.Value
		if c := n.(*ref.Coll); c.Kind == "genericmap" {
			for j := range c.E {
				if t := (starlark.Tuple{c.E[j], c.V[j]}); show(t, nil, false) == want {
					cand = t
				}
			}
			code = o.pop + ".pop(r[0])"
		} else {
			for _, e := range c.E {
				if show(e, nil, false) == want {
					cand = e
				}
			}
			code = o.pop + ".remove(r)"
		}
		if cand == nil {
			return "returns " + want + ", which was not there"
		}
		r.env["r"] = cand
		if err := r.exec(code); err != nil {
			return err.Error()
		}
		return ""
	}
	ei, er := i.exec(code), r.exec(code)
	if ei != nil && strings.HasPrefix(ei.Error(), "PANIC") {
		return ei.Error()
	}
	if (ei == nil) != (er == nil) {
		return fmt.Sprintf("error %v, should be %v", ei, er)
	}
	return ""
}

func (h *histories) replay(c *fw.Ctx, seq []op, all bool) (*world, *world, bool) {
	i, r := newWorld(true), newWorld(false)
	ref.Ambiguous = false
	for _, s := range h.start {
		if ei, er := i.exec(s), r.exec(s); ei != nil || er != nil {
			c.Fail("start", "%s: %v, %v", s, ei, er)
			return nil, nil, false
		}
	}
	for k, o := range seq {
		if bad := h.step(i, r, o); bad != "" {
			if k == len(seq)-1 {
				c.Fail("step:"+o.code, "%s%s: %s", h.text(seq[:k]), o.code, bad)
			}
			return nil, nil, false
		}
	}
	// of several equal elements that are not the same any may be removed
	return i, r, !ref.Ambiguous
}

func (h *histories) text(seq []op) string {
	s := strings.Join(h.start, "; ") + "; "
	for _, o := range seq {
		s += o.code + "; "
	}
	return s
}

func (h *histories) explore(c *fw.Ctx, seq []op, depth int) {
	i, r, ok := h.replay(c, seq, false)
	if !ok {
		return
	}
	a, b := h.observe(i), h.observe(r)
	c.Count("states", 1)
	c.Count("transitions", 1)
	c.Count("traces", len(h.obs))
	if a != b {
		c.Fail("obs:"+seqSig(seq), "after %s%s", h.text(seq), h.differ(a, b))
		return
	}
	// observing changes nothing
	if b := h.observe(i); a != b {
		c.Fail("obs-changes", "after %s looking twice: %s", h.text(seq), h.differ(b, a))
		return
	}
	if len(seq) == depth {
		return
	}
	for _, o := range h.ops {
		h.explore(c, append(seq[:len(seq):len(seq)], o), depth)
	}
}

func seqSig(seq []op) string {
	var l []string
	for _, o := range seq {
		l = append(l, o.code)
	}
	return strings.Join(l, ";")
}

func (h *histories) cases(tier string) []fw.Case {
	d := h.depth[0]
	if k := strings.LastIndex(h.name, "/"); d > 2 && !strings.Contains("/plain /unhashable /nested /changing", h.name[k:]) {
		d = 2
	}
	if tier == "thorough" {
		d = h.depth[1]
	}
	quiet := func(run func()) {
		// errors of the evaluator are logged to stderr
		old := os.Stderr
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = null
			defer func() { os.Stderr = old; null.Close() }()
		}
		run()
	}
	out := []fw.Case{{Name: h.name + "/start", Run: func(c *fw.Ctx) { quiet(func() { h.explore(c, nil, 0) }) }}}
	for i, o := range h.ops {
		out = append(out, fw.Case{Name: fmt.Sprintf("%s/%d", h.name, i), Timeout: 600e9, Run: func(c *fw.Ctx) {
			quiet(func() { h.explore(c, []op{o}, d) })
		}})
	}
	return out
}

func ops(codes ...string) []op {
	var out []op
	for _, s := range codes {
		o := op{code: s}
		if i := strings.Index(s, ".pop()"); i > 0 && !strings.HasPrefix(s, "r = ") {
			o.pop = s[:i]
		}
		if i := strings.Index(s, ".popitem()"); i > 0 && !strings.HasPrefix(s, "r = ") {
			o.pop = s[:i]
		}
		out = append(out, o)
	}
	return out
}

func fill(l []string, e []string) []string {
	var out []string
	for _, s := range l {
		if strings.Contains(s, "@") {
			for _, x := range e {
				out = append(out, strings.ReplaceAll(s, "@", x))
			}
			continue
		}
		for i, x := range e {
			s = strings.ReplaceAll(s, fmt.Sprintf("$%d", i), x)
		}
		out = append(out, s)
	}
	return out
}

var universes = []struct {
	name string
	e    []string
}{
	{"plain", []string{"1", "2", `"a"`}},
	{"unhashable", []string{"[1]", "{1: 2}", "genericset([1])"}},
	{"numbers", []string{"1", "1.0", "1.5"}},
	{"nested", []string{"record(a=1)", "bag([1, [2]])", "bag([[2], 1])"}},
	{"dicts", []string{"{1: 2, 3: 4}", "{3: 4, 1: 2}", "None"}},
	{"pairs", []string{"(1, [2])", "set([1])", "True"}},
	{"maps", []string{"genericmap({1: 2})", "genericmap({1: 2, 3: 4})", "genericset([[2], [1]])"}},
	{"structs", []string{"struct(a=1)", "record(a=1)", "record(a=1, b=2)"}},
}

func setHistories() []histories {
	var out []histories
	for _, u := range universes {
		out = append(out, histories{
			name:  "set/" + u.name,
			start: fill([]string{"s = genericset()", "t = genericset([$0, $1])", "r = None"}, u.e),
			ops: ops(fill([]string{
				"s.add(@)", "s.discard(@)", "s.remove(@)", "t.add(@)", "s.pop()", "s.clear()",
				"t = s", "t = genericset(s)", "s = t", "s = genericset([$2, $0, $2])",
				"s = s.union(t)", "s = s.intersection(t)", "s = s.difference(t)", "s = s.symmetric_difference(t)",
				"s = s.symmetric_difference([$1, $1])", "s = s.difference([$1, $2])", "s = s.intersection([$2, $2, $1])",
				"s = s.symmetric_difference(s)", "s = s.union({$2: 1} if type($2) == \"int\" else [$2])",
			}, u.e)...),
			obs: fill([]string{"s", "t", "r", "len(s)", "bool(s)", "@ in s", "@ not in s", "s == t", "s != t", "t == s", "s <= t", "s < t", "s >= t", "s > t", "t <= s", "t < s",
				"s.issubset(t)", "s.issuperset(t)", "s.issubset([$0, $2])", "s.issuperset([$1, $1])", "s.union(t)", "t.difference(s)", "t.intersection(s)", "t.symmetric_difference(s)",
				"~list(s)", "~[x for x in t]", "s == genericset(s)", "s == [x for x in s]", "type(s)", "t.union(s) == s.union(t)", "str(s) == str(genericset(reversed(list(s))))"}, u.e),
			depth: [2]int{3, 4},
		})
	}
	return out
}

func mapHistories() []histories {
	var out []histories
	for _, u := range universes {
		out = append(out, histories{
			name:  "map/" + u.name,
			start: fill([]string{"m = genericmap()", "n = genericmap()", "r = None", "i = []", "k = []"}, u.e),
			ops: ops(fill([]string{
				"m[@] = 1", "m[@] = [2]", "m.pop(@)", "m.pop($0, 9)", "m.popitem()", "m.setdefault($1)", "r = m.setdefault($0, 7)", "m.clear()",
				"m[$0] += 1", "n[$0] = 5", "n.pop($0, 0)", "n = m", "n = genericmap(m)", "i = m.items()", "k = m.keys()", "k = m.values()",
				"m = genericmap(a=1, b=2)", "m.update(a=3)", "m.update(a=4, b=5)", "m = genericmap({1: 2}, a=1)", "m = genericmap({\"a\": 2}, a=1)", "i = [x for x in m.items()]",
			}, u.e)...),
			obs: fill([]string{"m", "n", "r", "~i", "~k", "len(m)", "bool(m)", "@ in m", "m.get(@)", "m.get(@, 8)", "m[$0]", "m == n", "m != n", "n == m",
				"~list(m)", "~m.keys()", "~m.values()", "~m.items()", "zip(m.keys(), m.values()) == m.items()", "m == genericmap(m)", "type(m)", "m.get(\"a\")", "\"b\" in m", "m == {}"}, u.e),
			depth: [2]int{3, 4},
		})
	}
	return out
}

func bagHistories() []histories {
	var out []histories
	for _, u := range universes {
		out = append(out, histories{
			name:  "bag/" + u.name,
			start: fill([]string{"b = bag()", "c = bag([$0, $1])", "r = None"}, u.e),
			ops: ops(fill([]string{
				"b.add(@)", "b.discard(@)", "b.remove(@)", "c.add(@)", "b.pop()", "b.clear()", "c = b", "c = bag(b)", "b = c", "b = bag([$2, $0, $2])",
				"b.add_all(c)", "b.add_all(b)", "b.add_all([$1, $1])", "c.add_all(b)", "b = bag([x for x in reversed(list(c))])",
			}, u.e)...),
			obs:   fill([]string{"b", "c", "r", "len(b)", "bool(b)", "@ in b", "@ not in c", "b == c", "b != c", "c == b", "b == bag(b)", "b == bag(reversed(list(b)))", "~list(b)", "~[x for x in c]", "type(b)", "b == list(b)", "b.count(@)"}, u.e),
			depth: [2]int{3, 4},
		})
	}
	// elements that change while they are in the bag
	out = append(out, histories{
		name:  "bag/changing",
		start: []string{"x = [1]", "y = [2]", "b = bag([x, y])", "c = bag([[3], [1]])", "r = None"},
		ops: ops("x[0] = 3", "x[0] = 2", "x[0] = 1", "y[0] = 1", "y[0] = 2", "y.append(1)", "b.add([1])", "b.add([3])", "b.remove([1])", "b.discard([2])",
			"c.add(x)", "c.discard(y)", "c = bag(b)", "b.add_all(c)", "c.add([2])", "b.add(x)", "c.discard([3])"),
		obs:   []string{"b", "c", "x", "y", "b == c", "b != c", "c == b", "x in b", "[1] in b", "[3] in c", "len(b)", "b == bag([x, y])", "b == bag([y, x])", "b == bag([[3], [1]])", "b == bag(list(b))"},
		depth: [2]int{3, 5},
	})
	return out
}

// badCalls: calls with too few or too many arguments, or with arguments of the
// wrong type, are errors and change nothing.
func badCalls() []histories {
	var out []histories
	for _, k := range []string{"genericset", "bag", "genericmap"} {
		var l []string
		methods := "add discard remove pop clear union intersection difference symmetric_difference issubset issuperset"
		start := k + "([1, [2]])"
		switch k {
		case "bag":
			methods = "add discard remove pop clear add_all count"
		case "genericmap":
			methods = "get pop popitem setdefault clear items keys values update"
			start = "genericmap({1: [2]})"
		}
		for _, m := range strings.Fields(methods) {
			for _, a := range []string{"", "1", "7", "None", "[1], 2", "1, 2, 3", "x=1", "s"} {
				if strings.Contains(methods, "get") && m == "update" && a != "" && a != "x=1" {
					continue // genericmap.update(mapping) is not implemented
				}
				if a == "" && (m == "pop" && k != "genericmap" || m == "popitem" || strings.HasPrefix(m, "issu")) {
					continue // these take no argument
				}
				if a == "s" && !strings.Contains(" union difference intersection symmetric_difference add_all issubset issuperset ", " "+m+" ") {
					continue // a collection in itself
				}
				l = append(l, "r = s."+m+"("+a+")")
			}
		}
		out = append(out, histories{name: "calls/" + k, start: []string{"s = " + start, "r = None"}, ops: ops(l...), obs: []string{"s", "r", "len(s)"}, depth: [2]int{2, 3}})
	}
	return out
}

// engineOps: the same operations as the actions of a specification.
// counted bounds the number of actions by the state itself.
func counted(body []S) []S {
	return append([]S{Require("n < 3"), Py("n += 1")}, body...)
}

func collEngine() []gen {
	type fam struct {
		name  string
		init  []string
		stmts []string
	}
	fams := []fam{
		{"set", []string{"s = genericset([[1]])", "t = genericset([2])"}, []string{
			"s.add([1])", "s.add({1: 2})", "s.discard([1])", "t.add(genericset([1]))", "s.clear()", "t = s", "t = genericset(s)", "s = s.union(t)", "s = s.difference(t)",
			"s = s.intersection(t)", "s = s.symmetric_difference(t)", "r = [s <= t, s < t, s >= t, s > t, s == t]"}},
		{"map", []string{"s = genericmap({1: 2})", "t = genericmap()"}, []string{
			"s[[1]] = 1", "s[[1]] = [2]", "s.pop([1], 0)", "s.setdefault(1)", "s.clear()", "t = s", "t = genericmap(s)", "t[1] = 5", "r = len(s.items())", "s.update(a=3)", "s = genericmap(a=1)", "r = s.get([1], [7])"}},
		{"bag", []string{"s = bag([[2], [1]])", "t = bag()"}, []string{
			"s.add([1])", "s.add({1: 2})", "s.discard([1])", "t.add(1)", "s.clear()", "t = s", "t = bag(s)", "s.add_all(t)", "s.add_all(s)", "r = [s == t, s == bag([[1], [2]])]", "t = bag([len(s)])"}},
	}
	var out []gen
	for _, f := range fams {
		for i, a := range f.stmts {
			for _, b := range f.stmts[i:] {
				out = append(out, gen{name: "engine/" + f.name + "/" + a + " | " + b, file: func() *ast.File {
					return File(Init(Py(f.init[0]), Py(f.init[1]), Py("r = None"), Py("n = 0")), Act(ATOMIC, "Do", counted([]S{Py(a)})...), Act(ATOMIC, "Also", counted([]S{Py(b)})...))
				}, opt: func() *ast.StateSpaceOptions { return Opts(20, 1) }})
			}
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C21",
		Technique: "every sequence of operations up to a depth executed by the checker's evaluator and by a list-based mathematical model, all observations compared after every operation; the same operations as the actions of specifications, explored by the checker and compared with the model",
		Rule:      "every operation sequence over genericset, genericmap and bag for eight universes of elements (hashable, unhashable, numerically equal, nested, equal in different orders), with copies, aliases and changing elements",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "sequences of 4 operations (5 with changing elements); specifications with two actions, 3 steps"
			}
			return "sequences of 3 operations (2 for five of the universes); specifications with two actions, 3 steps"
		},
		Cases: func(tier string) []fw.Case {
			var out []fw.Case
			for _, h := range append(append(append(setHistories(), mapHistories()...), bagHistories()...), badCalls()...) {
				out = append(out, h.cases(tier)...)
			}
			return cat(out, genCases("", collEngine(), stepOne))
		}})
}
