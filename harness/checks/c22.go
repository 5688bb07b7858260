package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"verif/canon"
	"verif/fw"
	. "verif/sb"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

// exprs evaluates every expression with the checker's evaluator and with the
// model of the helpers.
func exprs(name string, list func() []string) fw.Case {
	return fw.Case{Name: name, Timeout: 300e9, Run: func(c *fw.Ctx) {
		i, r := newWorld(true), newWorld(false)
		for _, e := range list() {
			a, ea := i.eval(e)
			b, eb := r.eval(e)
			c.Count("states", 1)
			c.Count("transitions", 1)
			x, y := exact(a, ea), exact(b, eb)
			if x != y {
				if len(x)+len(y) > 600 {
					k := 0
					for k < len(x) && k < len(y) && x[k] == y[k] {
						k++
					}
					k = max(0, k-60)
					x, y = "..."+cut(x[k:], 200), "..."+cut(y[k:], 200)
				}
				c.Fail("expr:"+strings.SplitN(e, "(", 2)[0], "%s is %s, should be %s", e, x, y)
			}
		}
	}}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func exact(v starlark.Value, err error) string {
	if err != nil {
		if strings.HasPrefix(err.Error(), "PANIC") {
			return err.Error()
		}
		return "error"
	}
	return canon.Val(v)
}

var (
	poolExprs = []string{"[]", "[1]", "[1, 2]", "[1, 1]", "[1, [2], \"x\"]", "(3, 1, 2)", "range(4)", "set([2, 1])", "{2: 1, \"k\": 3}", "bag([1, 2])", "genericset([[1], 2])", "genericmap({3: 1})", "(1,)", "[\"a\", \"b\", \"c\", \"d\", \"e\"]"}
	badPools  = []string{"1", "None", "\"ab\""}
)

func chooserExprs() []string {
	var out []string
	for _, f := range []string{"combinations", "permutations", "combinations_with_replacement"} {
		for _, p := range append(append([]string{}, poolExprs...), badPools...) {
			for r := 0; r <= 6; r++ {
				if r > 4 && len(p) > 20 {
					continue
				}
				out = append(out, fmt.Sprintf("itertools.%s(%s, %d)", f, p, r), fmt.Sprintf("itertools.%s(%s, r=%d)", f, p, r), fmt.Sprintf("itertools.%s(iterable=%s, r=%d)", f, p, r))
			}
			for _, r := range []string{"\"a\"", "[]", "1.5"} {
				out = append(out, fmt.Sprintf("itertools.%s(%s, %s)", f, p, r))
			}
			out = append(out, fmt.Sprintf("itertools.%s(%s)", f, p), fmt.Sprintf("itertools.%s(%s, 1, 2)", f, p))
			if f == "permutations" {
				out = append(out, fmt.Sprintf("itertools.%s(%s, None)", f, p), fmt.Sprintf("itertools.%s(%s, r=None)", f, p))
			}
		}
		out = append(out, fmt.Sprintf("itertools.%s()", f))
	}
	return out
}

func productExprs(n int) func() []string {
	return func() []string {
		small := []string{"[]", "[1]", "[1, 2]", "(1, 2, 3)", "set([5])", "bag([1, 2])", "{1: 2}", "7"}
		rows := []string{""}
		for k := 0; k < n; k++ {
			var next []string
			for _, r := range rows {
				for _, p := range small {
					if n > 3 && len(p) > 7 && p != "(1, 2, 3)" || n > 4 && (p == "[1]" || p == "{1: 2}" || p == "7" || n > 5 && p == "(1, 2, 3)") {
						continue
					}
					if k > 0 {
						next = append(next, r+", "+p)
					} else {
						next = append(next, p)
					}
				}
			}
			rows = next
		}
		var out []string
		for _, r := range rows {
			out = append(out, "itertools.chain("+r+")", "itertools.product("+r+")", "len(itertools.product("+r+"))")
			for rep := 0; rep <= 3; rep++ {
				if n*rep > 8 {
					break
				}
				a := fmt.Sprintf("repeat=%d", rep)
				if r != "" {
					a = r + ", " + a
				}
				out = append(out, "itertools.product("+a+")")
			}
			if n <= 2 {
				a := "other=1"
				if r != "" {
					a = r + ", " + a
				}
				out = append(out, "itertools.product("+a+")", "itertools.chain("+a+")")
			}
		}
		return out
	}
}

func sumExprs() []string {
	vals := []string{"0", "1", "-2", "2.5", "0.0", "100000000000000000000", "0.1", "True", "\"a\"", "None", "[1]"}
	var out []string
	rows := []string{""}
	for k := 0; k < 4; k++ {
		for _, r := range rows {
			l := "[" + r + "]"
			out = append(out, "sum("+l+")", "sum(tuple("+l+"))")
			if !strings.Contains(l, "0.1") { // the sum of rounded numbers depends on the order
				out = append(out, "sum(bag("+l+"))", "sum(genericset("+l+"))")
			}
			if k < 3 {
				for _, s := range vals {
					out = append(out, "sum("+l+", "+s+")", "sum("+l+", start="+s+")")
				}
			}
		}
		var next []string
		for _, r := range rows {
			for _, v := range vals {
				if k > 0 && (v == "None" || v == "[1]" || v == "True") {
					continue
				}
				next = append(next, strings.TrimPrefix(r+", "+v, ", "))
			}
		}
		rows = next
	}
	return append(out, "sum()", "sum(1)", "sum(range(5))", "sum({1: 2, 3: 4})", "sum(set([1, 2]))", "sum(genericmap({1: 2}))", "sum([1], 2, 3)")
}

func enumExprs() []string {
	var out []string
	names := []string{"A", "B", "C", "long_name"}
	for mask := 0; mask < 16; mask++ {
		var fw, bw []string
		for i, n := range names {
			if mask>>i&1 == 1 {
				fw = append(fw, "\""+n+"\"")
				bw = append([]string{"\"" + n + "\""}, bw...)
			}
		}
		e, f := "enum("+strings.Join(fw, ", ")+")", "enum("+strings.Join(bw, ", ")+")"
		out = append(out, "dir("+e+")", "dir("+f+")", e+" == "+f, "[x for x in dir("+e+")]", "{getattr("+f+", n): n for n in dir("+f+")}", "type("+e+")", "bool("+e+")")
		for _, n := range append(names, "Z") {
			out = append(out, e+"."+n, f+"."+n, "hasattr("+e+", \""+n+"\")", "getattr("+f+", \""+n+"\", 0)", e+"."+n+" == \""+n+"\"", "set(["+e+"."+n+"])")
		}
		for m := 0; m < 16; m++ {
			var o []string
			for i, n := range names {
				if m>>i&1 == 1 {
					o = append(o, "\""+n+"\"")
				}
			}
			out = append(out, e+" == enum("+strings.Join(o, ", ")+")")
		}
	}
	return append(out, "enum(A=1, B=2).B", "enum(\"A\", B=2)", "enum(A=1) == enum(\"A\")")
}

// nameExprs: every documented name exists.
func nameExprs() []string {
	var out []string
	for _, n := range strings.Fields("struct record enum genericset genericmap bag sum len range min max sorted reversed zip enumerate all print type int str bool float list dict set tuple") {
		out = append(out, "bool("+n+")")
	}
	for _, n := range strings.Fields("sqrt pow exp log fabs mod ceil floor round remainder sin cos tan asin acos atan atan2 sinh cosh tanh gamma hypot pi e") {
		out = append(out, "bool(math."+n+")")
	}
	for _, n := range strings.Fields("chain combinations combinations_with_replacement permutations product") {
		out = append(out, "bool(itertools."+n+")")
	}
	for _, u := range []string{"sqrt", "exp", "fabs", "ceil", "floor", "round", "sin", "atan"} {
		for _, x := range []string{"0", "1", "2.25", "4"} {
			out = append(out, "math."+u+"("+x+")")
		}
	}
	return append(out, "struct(a=1, b=2)", "struct(a=1) == struct(a=1)", "struct(a=1) in set([struct(a=1)])", "{struct(a=1): 2}", "{record(a=1): 2}", "set([record(a=1)])", "struct(a=[1])", "struct(1)", "record(1)")
}

// symValues: the values of symmetric_values(n) and symmetric_values(prefix, n)
// are n distinct values, the same ones in every call.
func symValues(c *fw.Ctx) {
	i := newWorld(true)
	is := func(code, want string) {
		v, err := i.eval(code)
		c.Count("states", 1)
		if got := exact(v, err); got != want {
			c.Fail("expr:symmetric_values", "%s is %s, should be %s", code, got, want)
		}
	}
	for n := 0; n < 5; n++ {
		for _, p := range []string{"", "'k', ", "'', "} {
			s := fmt.Sprintf("symmetric_values(%s%d)", p, n)
			is("len("+s+")", fmt.Sprint(n))
			is("len(set(list("+s+")))", fmt.Sprint(n))
			is("bool("+s+")", map[bool]string{true: "True", false: "False"}[n > 0])
			for m := 0; m < 5; m++ {
				// values of different domains are not comparable
				t := fmt.Sprintf("symmetric_values(%s%d)", p, m)
				same := map[bool]string{true: "True", false: "False"}
				is(s+" == "+t, same[n == m])
				is(s+" != "+t, same[n != m])
				is("len([x for x in "+s+" if x in list("+t+")])", fmt.Sprint(min(n, m)))
			}
		}
	}
}

func recordHistories() []histories {
	var out []histories
	out = append(out, histories{
		name:  "record/two",
		start: []string{"a = record(x=1, y=2)", "b = record(y=2, x=1)", "r = None", "l = [1]"},
		ops: ops("a.x = 2", "a.x = l", "a.y = a.x", "a.w = 0", "a.z = record(n=a.x)", "b.y += 1", "b = a", "a = a + b", "b = b + record(x=5, v=6)", "a = record()", "a = record(**{\"q\": 1, \"b\": 2, \"x\": 3})",
			"l.append(2)", "r = dir(a)", "r = [getattr(a, n) for n in dir(a)]", "a.x.append(3)", "r = a.missing", "r = a + struct(x=1)", "r = {a: 1}", "r = set([b])", "r = a < b", "r = len(a)", "b.a = 1"),
		obs: []string{"a", "b", "r", "l", "a == b", "a != b", "b == a", "dir(a)", "hasattr(a, \"w\")", "getattr(a, \"x\", 9)", "getattr(b, \"v\", 9)", "a.x", "b.y", "bool(a)", "type(a)", "a in [b]", "[a, b] == [b, a]", "genericset([a, b])",
			"a == struct(x=1, y=2)", "a == {}", "str(b) == str(b)"},
		depth: [2]int{3, 4},
	})
	return out
}

// collections: every sequence of operations on the queues and stacks behind
// the exploration orders.
type collection interface {
	Len() int
	Empty() bool
	Add(int)
	Remove() (int, bool)
	ClearAll()
	Clear(int)
	Retain(int)
}

func collectionCases(tier string) []fw.Case {
	depth := 7
	if tier == "thorough" {
		depth = 9
	}
	kinds := map[string]func() collection{
		"queue":  func() collection { return lib.NewQueue[int]() },
		"stack":  func() collection { return lib.NewStack[int]() },
		"random": func() collection { return lib.NewRandomQueue[int](*rand.New(rand.NewSource(1))) },
	}
	opNames := map[string][]string{
		"queue":  {"add", "add63", "remove", "remove64", "clearall"},
		"stack":  {"add", "add63", "remove", "remove64"},
		"random": {"add", "add63", "remove", "remove64", "clearall", "clear1", "clear9", "retain2"},
	}
	var out []fw.Case
	for _, kind := range []string{"queue", "stack", "random"} {
		d := depth
		if kind == "random" {
			d -= 2
		}
		out = append(out, fw.Case{Name: "collections/" + kind, Timeout: 600e9, Run: func(c *fw.Ctx) {
			var seq []string
			var rec func()
			rec = func() {
				if bad := collectionRun(kind, kinds[kind](), seq); bad != "" {
					c.Fail("collection:"+strings.Join(seq, ","), "%s after %s: %s", kind, strings.Join(seq, ", "), bad)
					return
				}
				c.Count("states", 1)
				c.Count("transitions", 1)
				if len(seq) == d {
					return
				}
				for _, o := range opNames[kind] {
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}})
	}
	return out
}

func collectionRun(kind string, q collection, seq []string) (bad string) {
	if err := guard(func() error {
		var model []int
		next := 0
		add := func() {
			q.Add(next)
			model = append(model, next)
			next++
		}
		remove := func() string {
			v, ok := q.Remove()
			if ok != (len(model) > 0) {
				return fmt.Sprintf("remove says %v with %d elements", ok, len(model))
			}
			if !ok {
				return ""
			}
			at := 0
			switch kind {
			case "stack":
				at = len(model) - 1
			case "random":
				at = -1
				for i, x := range model {
					if x == v {
						at = i
					}
				}
				if at < 0 {
					return fmt.Sprintf("removed %d, which is not there", v)
				}
			}
			if model[at] != v {
				return fmt.Sprintf("removed %d, should be %d", v, model[at])
			}
			model = append(append([]int{}, model[:at]...), model[at+1:]...)
			return ""
		}
		for _, o := range seq {
			n := 1
			switch o {
			case "add63":
				n = 63
				fallthrough
			case "add":
				for ; n > 0; n-- {
					add()
				}
			case "remove64":
				n = 64
				fallthrough
			case "remove":
				for ; n > 0; n-- {
					if s := remove(); s != "" {
						bad = s
						return nil
					}
				}
			case "clearall":
				q.ClearAll()
				model = nil
			case "clear1", "clear9":
				k := int(o[5] - '0')
				q.Clear(k)
				model = model[min(k, len(model)):]
			case "retain2":
				q.Retain(2)
				model = model[:min(2, len(model))]
			}
			if q.Len() != len(model) || q.Empty() != (len(model) == 0) {
				bad = fmt.Sprintf("length %d, empty %v, should be %d", q.Len(), q.Empty(), len(model))
				return nil
			}
		}
		if s, ok := q.(*lib.Stack[int]); ok {
			top, okT := s.Peek()
			bot, okB := s.Head()
			if okT != (len(model) > 0) || okB != okT || okT && (top != model[len(model)-1] || bot != model[0]) {
				bad = fmt.Sprintf("top %d %v bottom %d %v, should be of %v", top, okT, bot, okB, model)
				return nil
			}
			if fmt.Sprint(s.RawArray()) != fmt.Sprint(model) && len(model) > 0 {
				bad = "raw array differs"
				return nil
			}
		}
		for len(model) > 0 {
			if s := remove(); s != "" {
				bad = "draining: " + s
				return nil
			}
		}
		if bad = remove(); bad == "" && (q.Len() != 0 || !q.Empty()) {
			bad = "not empty in the end"
		}
		return nil
	}); err != nil {
		return err.Error()
	}
	return bad
}

// permutationCases: all permutations of all shapes of arrays of arrays.
func permutationCases() fw.Case {
	return fw.Case{Name: "permutations", Run: func(c *fw.Ctx) {
		fact := []int{1, 1, 2, 6, 24, 120, 720}
		var shapes [][]int
		for a := 1; a <= 6; a++ {
			shapes = append(shapes, []int{a})
			for b := 1; b <= 4; b++ {
				if a <= 4 {
					shapes = append(shapes, []int{a, b})
				}
				for d := 1; d <= 3 && a <= 3 && b <= 3; d++ {
					shapes = append(shapes, []int{a, b, d})
				}
			}
		}
		for _, sh := range shapes {
			var in [][]int
			total := 1
			for k, n := range sh {
				var l []int
				for i := 0; i < n; i++ {
					l = append(l, 10*k+i)
				}
				in = append(in, l)
				total *= fact[n]
			}
			before := fmt.Sprint(in)
			got := lib.GenerateAllPermutations(in)
			seen := map[string]bool{}
			for _, g := range got {
				c.Count("states", 1)
				seen[fmt.Sprint(g)] = true
				ok := len(g) == len(sh)
				for k := range g {
					has := map[int]bool{}
					for _, x := range g[k] {
						has[x] = true
					}
					ok = ok && len(g[k]) == sh[k] && len(has) == sh[k]
					for _, x := range in[k] {
						ok = ok && has[x]
					}
				}
				if !ok {
					c.Fail("permutation", "%v: %v is not a permutation", in, g)
				}
			}
			c.Count("transitions", len(got))
			if len(got) != total || len(seen) != total {
				c.Fail("permutations", "%v: %d permutations, %d different, should be %d", in, len(got), len(seen), total)
			}
			if fmt.Sprint(in) != before {
				c.Fail("permutations", "%s is changed to %v", before, in)
			}
			if len(sh) == 1 {
				if p := lib.GeneratePermutations(in[0]); len(p) != total || !reflect.DeepEqual(len(p), len(got)) {
					c.Fail("permutations", "%v: %d", in[0], len(p))
				}
			}
		}
	}}
}

// helperSpecs use the helpers in the statements of specifications.
func helperSpecs() []gen {
	uses := []struct {
		name string
		body func() []S
	}{
		{"choose pair", func() []S { return []S{AnyAssign("p", "itertools.combinations(q, 2)"), Py("x = list(p)")} }},
		{"choose order", func() []S { return []S{AnyAssign("p", "itertools.permutations(q, 2)"), Py("x = list(p)")} }},
		{"choose order of all", func() []S { return []S{AnyAssign("p", "itertools.permutations(q)"), Py("x = list(p)")} }},
		{"choose with replacement", func() []S {
			return []S{AnyAssign("p", "itertools.combinations_with_replacement(q, 2)"), Py("x = list(p)")}
		}},
		{"choose product", func() []S { return []S{AnyAssign("p", "itertools.product(q, [0, 1])"), Py("x = [p]")} }},
		{"choose repeat", func() []S { return []S{AnyAssign("p", "itertools.product([0, 1], repeat=3)"), Py("x = p")} }},
		{"choose chain", func() []S { return []S{AnyAssign("p", "itertools.chain(q, [7])"), Py("x = [p]")} }},
		{"loop", func() []S {
			return []S{Py("x = []"), For(ATOMIC, "p", "itertools.combinations(q, 2)", Py("x = x + [p[0] - p[1]]"))}
		}},
		{"grow", func() []S { return []S{Py("q = q + [len(q)] if len(q) < 4 else q")} }},
		{"sum", func() []S { return []S{Py("x = [sum(q), sum(q, 5), sum([0.5] + q)]")} }},
		{"record", func() []S { return []S{Py("x = record(a=q[0], b=record(c=1))"), Py("x.b.c = x.a"), Py("x.a = 5")} }},
		{"record plus", func() []S { return []S{Py("x = record(a=1) + record(b=len(q))")} }},
		{"enum", func() []S {
			return []S{AnyAssign("p", "dir(enum(\"B\", \"A\"))"), Py("x = getattr(enum(\"A\", \"B\"), p)")}
		}},
		{"require sum", func() []S { return []S{Require("sum(q) > 1"), Py("x = 0")} }},
		{"long product", func() []S {
			return []S{AnyAssign("p", "itertools.product([0, 1], [2], [3], [4, 5], [6, 7])"), Py("x = p")}
		}},
	}
	var out []gen
	for i, a := range uses {
		for _, b := range uses[i:] {
			for _, flow := range []ast.Flow{ATOMIC, SERIAL} {
				out = append(out, gen{name: fmt.Sprintf("engine/%s | %s/%v", a.name, b.name, flow), file: func() *ast.File {
					return File(Init(Py("q = [1, 0]"), Py("x = []"), Py("n = 0")), Act(flow, "Do", counted(a.body())...), Act(flow, "Also", counted(b.body())...))
				}, opt: func() *ast.StateSpaceOptions { return Opts(20, 1) }})
			}
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C22",
		Technique: "every call of the helpers over a grid of arguments and every sequence of operations on records, queues and stacks, executed by the checker's code and by a model; specifications which use the helpers explored and compared with the model",
		Rule:      "every helper × 14 iterables of eight kinds × every size argument and argument form; products and chains of up to 6 iterables; sums of up to 3 of 11 values in four containers; enums over all subsets of names; operation sequences on two records, queues, stacks and random queues; pairs of 15 uses in specifications",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "records 4 operations; queues and stacks 9 operations of up to 64 elements"
			}
			return "records 3 operations; queues and stacks 7 operations of up to 64 elements"
		},
		Cases: func(tier string) []fw.Case {
			out := []fw.Case{exprs("choosers", chooserExprs), exprs("sum", sumExprs), exprs("enum", enumExprs), exprs("names", nameExprs), {Name: "symmetric_values", Run: symValues}, permutationCases()}
			for n := 0; n <= 6; n++ {
				out = append(out, exprs(fmt.Sprintf("product/%d", n), productExprs(n)))
			}
			for _, h := range recordHistories() {
				out = append(out, h.cases(tier)...)
			}
			return cat(out, collectionCases(tier), genCases("", helperSpecs(), cmp))
		}})
}
