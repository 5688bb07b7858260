package checks

import (
	ast "fizz/proto"
	"fmt"
	"sort"

	"verif/bridge"
	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// oneStep rebuilds, for every explored state without running actions, the
// reference configuration (sharing included) and compares all its steps with
// the ones the checker explored from it. Merging of states plays no role.
func oneStep(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode) {
	r, err := impl.Run(f, opt, m)
	if err != nil {
		c.Fail("crash", "%v\n%s", err, specText(f))
		return
	}
	if r.Err != nil || r.Root == nil {
		c.Fail("error", "the checker reports an error on a valid specification: %v\n%s", r.Err, specText(f))
		return
	}
	oneStepGraph(c, f, opt, impl.Extract(r.Root))
}

func oneStepGraph(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, ig *impl.Graph) {
	spec := ref.NewSpec(f, opt)
	c.Count("impl_nodes", len(ig.Nodes)+ig.Inner)
	c.Count("programs", 1)
	for i := 1; i < len(ig.Nodes); i++ {
		cfg, err := bridge.FromProcess(spec, ig.Nodes[i].Process)
		if err != nil {
			c.Count("skipped_nodes", 1)
			continue
		}
		want, ok := succSet(cfg)
		if !ok {
			c.Count("skipped_nodes", 1)
			continue
		}
		got := map[string]bool{}
		for _, e := range ig.LTS.Out[i] {
			got[e.Label+" -> "+ig.LTS.Obs[e.To]] = true
		}
		c.Count("states", 1)
		c.Count("transitions", len(want))
		c.Count("traces", len(want))
		for _, k := range keys(want) {
			if !got[k] {
				c.Fail("step-missing", "from %s the step\n  %s\nwas not explored\n%s", ig.LTS.Obs[i], k, specText(f))
				return
			}
		}
		for _, k := range keys(got) {
			if !want[k] {
				c.Fail("step-spurious", "from %s the explored step\n  %s\nis not a step of the specification\n%s", ig.LTS.Obs[i], k, specText(f))
				return
			}
		}
	}
	if c.SampleV == nil {
		c.Sample(map[string]any{"spec": specText(f), "states": len(ig.Nodes)})
	}
}

func succSet(cfg *ref.Cfg) (m map[string]bool, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if x == ref.ErrUnsupported {
				ok = false
				return
			}
			panic(x)
		}
	}()
	m = map[string]bool{}
	for _, st := range cfg.Succ() {
		m[st.VisLabel()+" -> "+st.To.Obs()] = true
	}
	return m, true
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// histSpecs: two actions over a container that shares an inner mutable cell
// with the variable b. The variable h records the history, so that no two
// different executions lead to equal states.
func histSpecs() []gen {
	type cont struct {
		n    string
		init []string
		p    string // expression for the inner cell
		ab   string // `a` expression that can be re-bound to a copy with cell X
	}
	conts := []cont{
		{"list", []string{"a = [[0]]"}, "a[0]", "a = [X]"},
		{"dict", []string{"a = {'k': [0]}"}, "a['k']", "a['k'] = X"},
		{"record", []string{"a = record(f = [0])"}, "a.f", "a.f = X"},
		{"tuple", []string{"a = ([0], 5)"}, "a[0]", "a = (X, 5)"},
		{"struct", []string{"a = struct(f = [0])"}, "a.f", "a = struct(f = X)"},
		{"gset", []string{"a = genericset([[0]])"}, "list(a)[0]", "a = genericset([X])"},
		{"bag", []string{"a = bag([[0]])"}, "list(a)[0]", "a = bag([X])"},
		{"gmap", []string{"a = genericmap()", "a[[9]] = [0]"}, "a[[9]]", "a[[9]] = X"},
		{"field", []string{"a = R()", "a.f = [0]"}, "a.f", "a.f = X"},
		{"param", []string{"a = R(p = [0])"}, "a.p", "b = X"},
		{"deep", []string{"a = [{'k': record(f = [0])}]"}, "a[0]['k'].f", "a[0]['k'].f = X"},
		{"listtuple", []string{"a = [([0], [1])]"}, "a[0][0]", "a = [(X, [1])]"},
	}
	type form struct {
		n  string
		mk func(c cont, name string) *ast.Action
	}
	inc := func(cell, ch string) S {
		return Py(cell + "[0] = " + cell + "[0] + 1; h = h + '" + ch + "'")
	}
	lim := func() S { return Require("len(h) < 3") }
	forms := []form{
		{"viaA", func(c cont, n string) *ast.Action { return Act(ATOMIC, n, lim(), inc(c.p, n)) }},
		{"viaB", func(c cont, n string) *ast.Action { return Act(ATOMIC, n, lim(), inc("b", n)) }},
		{"copyB", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), Py("b = list(b); h = h + '"+n+"'"))
		}},
		{"share", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), Py(repl(c.ab, "b")), Py("h = h + '"+n+"'"))
		}},
		{"oneof", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), inc(c.p, n), Oneof(inc(c.p, "1"), inc("b", "2"), Py(repl(c.ab, "[7]")+"; h = h + '3'")))
		}},
		{"any", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), Any("e", "["+c.p+", b]", inc("e", n)))
		}},
		{"anyset", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), AnyAssign("b", "["+c.p+", b, [5]]"), inc("b", n))
		}},
		{"par", func(c cont, n string) *ast.Action {
			return Act(SERIAL, n, lim(), Parallel(inc(c.p, "1"), inc("b", "2")))
		}},
		{"parfor", func(c cont, n string) *ast.Action {
			return Act(SERIAL, n, lim(), For(PARALLEL, "e", "["+c.p+", b]", inc("e", n)))
		}},
		{"for", func(c cont, n string) *ast.Action {
			return Act(SERIAL, n, lim(), For(UNKNOWN, "e", "["+c.p+", b]", inc("e", n)))
		}},
		{"serial", func(c cont, n string) *ast.Action {
			return Act(SERIAL, n, lim(), Py("l = "+c.p), inc("l", "1"), inc("b", "2"))
		}},
		{"fnmut", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), Call("", "", "M", c.p), Py("h = h + '"+n+"'"))
		}},
		{"fnret", func(c cont, n string) *ast.Action {
			return Act(ATOMIC, n, lim(), Call("b", "", "I", c.p), inc("b", n))
		}},
	}
	var out []gen
	for _, c := range conts {
		for i, f1 := range forms {
			for _, f2 := range forms[i:] {
				if f1.n == "copyB" && f2.n == "parfor" {
					continue // states that differ only in sharing: a known finding of C07
				}
				out = append(out, gen{fmt.Sprintf("hist/%s/%s+%s", c.n, f1.n, f2.n), func() *ast.File {
					var in []S
					for _, x := range c.init {
						in = append(in, Py(x))
					}
					in = append(in, Py("b = "+c.p), Py("h = ''"))
					f := File(Init(in...), f1.mk(c, "P"), f2.mk(c, "Q"))
					f.Functions = []*ast.Function{
						Func(ATOMIC, "M", []string{"p"}, Py("p[0] = p[0] + 1")),
						Func(ATOMIC, "I", []string{"p"}, Return("p")),
					}
					if c.n == "field" || c.n == "param" {
						f.Roles = []*ast.Role{RoleDef("R", false, nil, nil)}
					}
					return f
				}, func() *ast.StateSpaceOptions { return Opts(100, 1) }})
			}
		}
	}
	return out
}

func repl(s, x string) string {
	out := ""
	for _, r := range s {
		if r == 'X' {
			out += x
		} else {
			out += string(r)
		}
	}
	return out
}
