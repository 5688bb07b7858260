package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"
	"time"

	"verif/fw"
	"verif/impl"
	"verif/ref"
	. "verif/sb"
)

// symCmp compares the explored graph with the reference's up to the
// symmetries, and says whether symmetric states were merged.
func symCmp(c *fw.Ctx, g gen) {
	f := g.file()
	rg, ig, r := runSym(c, f, g.opt(), impl.Mode{})
	if r == nil {
		return
	}
	ok := compareGraphs(c, rg.LTS, ig.LTS, 0, f)
	// states without running actions that only names distinguish
	doms := ref.NewSpec(f, g.opt()).Doms()
	seen := map[string]int{}
	for i, n := range ig.Nodes {
		if n == nil || len(impl.ThreadRoots(n.Process)) > 0 || !ok {
			continue
		}
		k := impl.SymState(n.Process, doms)
		if j, dup := seen[k]; dup {
			c.Fail("twice", "two states that differ only in the names of symmetric values are explored separately:\n%s\n%s\n%s", impl.Obs(ig.Nodes[j].Process), impl.Obs(n.Process), specText(f))
			break
		}
		seen[k] = i
	}
	if ok {
		sameReturns(c, rg, ig, f)
	}
	for _, d := range doms {
		if d.Kind == "interval" || d.Kind == "ordinal" {
			return // without the reduction values grow without bound
		}
	}
	// the same behaviours without the reduction
	rg2, ig2, r2 := runSym(c, f, g.opt(), impl.Mode{NoSym: true})
	if r2 != nil && ok {
		compareGraphs(c, rg2.LTS, ig2.LTS, 0, f)
	}
}

// sameReturns compares the pairs of a state and the values just returned, as
// assertions see them.
func sameReturns(c *fw.Ctx, rg *ref.Graph, ig *impl.Graph, f *ast.File) {
	want, got := map[string]bool{}, map[string]bool{}
	for _, sts := range rg.Steps {
		for _, st := range sts {
			if st.Returns != "" {
				want[st.VisLabel()[strings.Index(st.VisLabel(), " returns "):]] = true
			}
		}
	}
	for i, n := range ig.Nodes {
		if i > 0 && len(n.Process.Returns) > 0 {
			got[" returns "+impl.RetState(n.Process, rg.Doms)] = true
		}
	}
	if d := setDiff(want, got); d != "" {
		c.Fail("returns-lost", "no state is explored for: %s\n%s", d, specText(f))
	}
	if d := setDiff(got, want); d != "" {
		c.Fail("returns-wrong", "the state is explored but cannot occur: %s\n%s", d, specText(f))
	}
}

func runSym(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode) (*ref.Graph, *impl.Graph, *impl.Result) {
	rg, ig, r := runBoth(c, f, opt, m, false)
	if r == nil {
		return nil, nil, nil
	}
	return rg, ig, r
}

func assertions(exprs ...string) []*ast.Invariant {
	var out []*ast.Invariant
	for i, e := range exprs {
		if strings.Contains(e, "before.") {
			out = append(out, TransAssertion(fmt.Sprintf("T%d", i), Return(e)))
		} else {
			out = append(out, Assertion(fmt.Sprintf("I%d", i), []string{"always"}, Return(e)))
		}
	}
	return out
}

// symVerdicts decides assertions, transition assertions, exists assertions
// and deadlocks with the reduction on.
func symVerdicts(always, trans []string) func(c *fw.Ctx, g gen) {
	return func(c *fw.Ctx, g gen) {
		if j := judge(c, g.file(), g.opt(), assertions(always...)); j != nil {
			safety(c, j, impl.Mode{}, hash(c.Case)%5 == 0)
		}
		if j := transJudge(c, g.file(), g.opt(), assertions(trans...)); j != nil {
			transitions(c, j, impl.Mode{}, hash(c.Case)%5 == 1)
		}
		deadlock(false, []impl.Mode{{}, {Processed: true}, {NoGraph: true}}, hash(c.Case)%5 == 2)(c, g)
		opt := g.opt()
		var ex []*ast.Invariant
		for _, i := range assertions(always...) {
			if !strings.Contains(i.Block.Stmts[0].ReturnStmt.PyExpr, "__returns__") {
				i.TemporalOperators = []string{"exists"}
				ex = append(ex, i)
			}
		}
		existsIn(c, g.file(), opt, ex, hash(c.Case)%5 == 3)
	}
}

var nomAlways = []string{"len(s) < 2", "x == None or type(x) != 'symmetric_value' or x != y", "len(d) < 2 or n == 0", "type(x) == 'list' or x not in s or type(y) == 'list' or y in s", "len(l) < 2 or l[0] != l[1]", "r.a == None or r.a in d",
	"__returns__.get('B', None) == None or __returns__['B'] != x", "type(__returns__.get('A', None)) in ('NoneType', 'set', 'list', 'tuple') or __returns__['A'] in s", "len([k for k in d if k in s]) == 0"}
var nomTrans = []string{"before.x == after.x or before.x == None", "len(before.s) <= len(after.s)", "before.y == None or before.x != after.y", "len([k for k in after.d if k not in before.d]) == 0", "before.r.a == after.r.a or before.x != after.r.a"}

type frag struct {
	n     string
	stmts func() []S
}

func fr(n string, st ...func() S) frag {
	return frag{n, func() []S {
		var out []S
		for _, s := range st {
			out = append(out, s())
		}
		return out
	}}
}

func py(code string) func() S       { return func() S { return Py(code) } }
func req(code string) func() S      { return func() S { return Require(code) } }
func pick(v, it string) func() S    { return func() S { return AnyAssign(v, it) } }
func ret(code string) func() S      { return func() S { return Return(code) } }
func cond(co, code string) func() S { return func() S { return If(co, Py(code)) } }

// nominal values: every pair of uses.
var nomFrags = []frag{
	fr("flip", pick("k", "KEYS"), py("d[k] = 1 - d.get(k, 0)")),
	fr("put", pick("k", "KEYS"), req("len(d) < 2"), py("d[k] = len(d)")),
	fr("del", pick("k", "list(d.keys())"), py("d.pop(k)")),
	fr("add", pick("k", "KEYS"), py("s.add(k)")),
	fr("discard", pick("k", "KEYS"), py("s.discard(k)")),
	fr("bag", pick("k", "KEYS"), req("len(b) < 2"), py("b.add(k)")),
	fr("list", pick("k", "KEYS"), req("len(l) < 2"), py("l.append(k)")),
	fr("drop", req("len(l) > 0"), py("l = l[1:]")),
	fr("keep", pick("k", "KEYS"), py("x = k")),
	fr("other", pick("k", "KEYS"), req("k != x"), py("y = k")),
	fr("swap", py("x, y = y, x")),
	fr("tuple", pick("k", "KEYS"), py("y = (r.a, k)")),
	fr("rec", pick("k", "KEYS"), py("r.a = k")),
	fr("recs", pick("k", "KEYS"), req("r.a != None"), py("d[r.a] = k")),
	fr("ret", pick("k", "KEYS"), ret("k")),
	fr("retboth", pick("k", "KEYS"), ret("(k, x)")),
	fr("retset", ret("s")),
	fr("nest", pick("k", "KEYS"), req("type(y) != 'list'"), py("x = [set([k]), y]")),
	fr("inset", pick("k", "[e for e in s]"), py("x = k"), py("s.discard(k)")),
	fr("eq", pick("k", "KEYS"), py("n = 1 if k == x else 0")),

	fr("fair", func() S { return AnyAssignF(STRONG, "k", "KEYS") }, py("s.add(k)")),
	fr("fairkeep", func() S { return AnyAssignF(STRONG, "k", "KEYS") }, py("x = k")),
	fr("local", pick("k", "KEYS"), py("z = k"), py("n = 1 if z in s else 0")),
}

var nomFreshFrags = []frag{
	fr("fresh", py("x = D.fresh()")),
	fr("two", py("x = D.fresh()"), py("y = D.fresh()")),
	fr("oneline", py("x, y = D.fresh(), D.fresh()")),
	fr("choices", pick("k", "D.choices()"), py("s.add(k)")),
	fr("choicelist", pick("k", "D.choices()"), req("len(l) < 2"), py("l.append(k)")),
	fr("values", pick("k", "D.values()"), py("x = k")),
	fr("count", py("n = len(D.values())")),
	fr("free", py("x = None")),
	fr("freeset", pick("k", "[e for e in s]"), py("s.discard(k)")),
	fr("clear", py("s.clear()"), py("l = []")),
	fr("dict", pick("k", "D.choices()"), py("d[k] = 3 - d.get(k, 2)")),
	fr("val", py("d[D.fresh()] = 3")),
	fr("bag", py("b.add(D.fresh())")),
	fr("ret", ret("D.fresh()")),
	fr("hold", py("z = D.fresh()"), req("n == 0"), py("y = z")),
	fr("rec", py("r.a = D.fresh()")),
	fr("swap", py("x, y = y, x")),
	fr("req", req("D.fresh() != x"), py("n = 1 - n")),
	fr("ifelse", func() S {
		return IfElse(Br{Cond: "D.fresh() == x", Body: []S{Py("n = 1")}}, Br{Body: []S{Py("n = 0")}})
	}),
	fr("while", py("n = 0"), func() S { return While(UNKNOWN, "D.fresh() != x and n < 2", Py("n = n + 1")) }),
	fr("for", func() S { return For(UNKNOWN, "v", "[D.fresh(), x]", Py("x = v")) }),
	fr("any", pick("x", "[D.fresh(), None]")),
	fr("anyif", func() S { return AnyAssignIf("n", "[1]", "D.fresh() != x") }),
	fr("anyblock", func() S { return Any("v", "[D.fresh()]", Py("y = v")) }),
	fr("arg", func() S { return Call("x", "", "F", "D.fresh()") }),
	fr("args", func() S { return Call("x", "", "G", "D.fresh()", "D.fresh()") }),
	fr("named", func() S { return Call("x", "", "G", "q:=D.fresh()", "p:=D.fresh()") }),
	fr("default", func() S { return Call("x", "", "H", "D.fresh()") }),
	fr("inside", func() S { return Call("x", "", "K") }),
}

var domFuncs = func() []*ast.Function {
	return []*ast.Function{
		Func(ATOMIC, "F", []string{"p"}, Return("p")),
		Func(ATOMIC, "G", []string{"p", "q"}, Return("(p, q)")),
		Func(ATOMIC, "H", []string{"p", "q=D.fresh()"}, Return("(p, q)")),
		Func(ATOMIC, "K", nil, Py("z = D.fresh()"), Return("z")),
	}
}

func symFile(consts []S, a, b frag, fa, fb ast.Flow) *ast.File {
	f := File(Init(Py("x = None"), Py("y = None"), Py("n = 0"), Py("d = {}"), Py("s = set()"), Py("b = bag()"), Py("l = []"), Py("r = record(a = None)")),
		Act(fa, "A", a.stmts()...), Act(fb, "B", b.stmts()...))
	f.Stmts = consts
	f.Functions = domFuncs()
	return f
}

func fln(f ast.Flow) string { return strings.TrimPrefix(f.String(), "FLOW_")[:1] }

// nominalSpecs: pairs of uses of interchangeable values.
func nominalSpecs(tier string) []gen {
	n := 2
	if tier == "thorough" {
		n = 3
	}
	var out []gen
	flows := [][2]ast.Flow{{ATOMIC, ATOMIC}, {SERIAL, SERIAL}}
	add := func(pre string, consts []string, fs []frag) {
		for i, a := range fs {
			for j := i; j < len(fs); j++ {
				b := fs[j]
				for _, fl := range flows {
					out = append(out, gen{fmt.Sprintf("%s/%s%s,%s", pre, fln(fl[0]), a.n, b.n), func() *ast.File {
						var cs []S
						for _, k := range consts {
							cs = append(cs, Py(k))
						}
						return symFile(cs, a, b, fl[0], fl[1])
					}, func() *ast.StateSpaceOptions { return Opts(10000, 2) }})
				}
			}
		}
	}
	add("legacy", []string{fmt.Sprintf("KEYS = symmetric_values('k', %d)", n)}, nomFrags)
	add("noname", []string{fmt.Sprintf("KEYS = symmetric_values(%d)", n)}, nomFrags[:9])
	add("materialized", []string{fmt.Sprintf("D = symmetry.nominal(name = 'k', limit = %d, materialize = True)", n), "KEYS = D.values()"}, nomFrags)
	add("nominal", []string{fmt.Sprintf("D = symmetry.nominal(name = 'k', limit = %d)", n)}, nomFreshFrags)
	return out
}

// interchangeable roles: what an action of a role does.
var roleFrags = []frag{
	fr("flip", py("self.v = 1 - self.v")),
	fr("once", req("self.v == 0"), py("self.v = 1")),
	fr("lock", req("h == None"), py("h = self")),
	fr("unlock", req("h == self"), py("h = None")),
	fr("unlockid", req("h != None and h.__id__ == self.__id__"), py("h = None")),
	fr("join", py("m.add(self.__id__)")),
	fr("leave", req("self.__id__ in m"), py("m.remove(self.__id__)")),
	fr("peer", pick("p", "[q for q in ws]"), req("p != self"), py("self.p = p")),
	fr("write", pick("p", "[q for q in ws]"), req("p.v == 0"), py("p.v = 1")),
	fr("call", pick("p", "[q for q in ws]"), func() S { return Call("t", "p", "Get") }, py("self.v = t")),
	fr("poke", pick("p", "[q for q in ws]"), func() S { return Call("", "p", "Set", "1 - self.v") }),
	fr("send", req("n == 0"), py("n = 1"), pick("p", "[q for q in ws]"), py("st = ch.stub(p)"), func() S { return Call("", "st", "Set", "1") }),
	fr("sendme", req("n == 0"), py("n = 1"), pick("p", "[q for q in ws]"), py("st = ch.stub(p)"), func() S { return Call("", "st", "Meet", "self.__id__") }),
	fr("ret", ret("self.v")),
	fr("retid", ret("self.__id__")),
	fr("dict", py("dd[self.__id__] = 1 - dd.get(self.__id__, 0)")),
	fr("dictdel", req("self.__id__ in dd"), py("dd.pop(self.__id__)")),
	fr("queue", req("len(l) < 2 and self not in l"), py("l.append(self)")),
	fr("pop", req("len(l) > 0 and l[0] == self"), py("l = l[1:]"), py("self.v = 1")),
	fr("loop", func() S { return For(ATOMIC, "q", "ws", Py("q.v = 0")) }),
	fr("anypeer", func() S { return Any("q", "[e for e in ws if e != self]", Py("q.v = self.v")) }),
	fr("count", py("c = len([q for q in ws if q.v == 1]) % 2")),
	fr("sym", py("self.k = D.fresh()")),
	fr("symfree", req("self.k != None"), py("self.k = None")),
	fr("symgive", pick("p", "[q for q in ws]"), req("self.k != None"), py("p.k = self.k")),
	fr("locals", py("z = self.v"), py("self.v = 1 - z")),
	fr("pass", req("h == None or h == self"), pick("p", "[q for q in ws if q != self]"), py("h = p")),
	fr("new", req("len(ws) < 2"), py("z = W()"), py("ws.add(z)")),
}

// symRoleSpecs: pairs of actions of interchangeable roles.
func symRoleSpecs(tier string) []gen {
	var out []gen
	n := 2
	if tier == "thorough" {
		n = 3
	}
	for i, a := range roleFrags {
		for j := i; j < len(roleFrags); j++ {
			b := roleFrags[j]
			for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
				for _, kind := range []string{"set", "bag"} {
					if kind == "set" && tier == "quick" && (i+j)%3 != 0 {
						continue
					}
					out = append(out, gen{fmt.Sprintf("roles/%s%s/%s,%s", kind, fln(fl), a.n, b.n), func() *ast.File {
						init := []S{Py("h = None"), Py("m = set()"), Py("dd = {}"), Py("l = []"), Py("n = 0"), Py("c = 0"), Py("ch = " + chanDecl), Py("ws = " + kind + "()")}
						for k := 0; k < n && (k == 0 || a.n != "new" && b.n != "new"); k++ {
							init = append(init, Py("w = W()"), Py("ws.add(w)"))
						}
						init = append(init, Py("w = None"))
						f := File(Init(init...))
						f.Stmts = []S{Py("D = symmetry.nominal(name = 'k', limit = 2)")}
						f.Roles = []*ast.Role{RoleDef("W", true, []*ast.Action{
							Act(ATOMIC, "Init", Py("self.v = 0"), Py("self.p = None"), Py("self.k = None")),
							Act(fl, "A", a.stmts()...), Act(fl, "B", b.stmts()...)},
							[]*ast.Function{Func(ATOMIC, "Get", nil, Return("self.v")), Func(fl, "Set", []string{"d"}, Py("self.v = d")),
								Func(fl, "Meet", []string{"d"}, Py("self.p = d"), If("d == self.__id__", Py("self.v = 1")))})}
						return f
					}, func() *ast.StateSpaceOptions { return Opts(10000, 2) }})
				}
			}
		}
	}
	return out
}

var (
	nomLive   = both("x == None", "len(s) == 0", "len(d) == 1", "n == 0", "x == y")
	roleLive9 = both("len([w for w in ws if w.v == 1]) == 0", "len([w for w in ws if w.v == 1]) == 2", "len([w for w in ws if w.v == 1]) == 1", "h == None", "len(l) == 0")
)

var roleAlways = []string{"len([w for w in ws if w.v == 1]) < 2", "h == None or h.v == 0", "h == None or h.__id__ in m or n == 0", "len([w for w in ws if w.p == w]) == 0", "len([k for k in dd if k in m]) < 2", "len([w for w in ws if type(w.p) == 'role' and w.p.v == 1 and w.v == 1]) == 0", "l == [] or l[0] == h"}
var roleTrans = []string{"before.h == None or after.h == None or before.h == after.h", "len(before.m) <= len(after.m)", "before.n == after.n or len(after.m) > 0"}

// slower gives every case more time.
func slower(cs []fw.Case) []fw.Case {
	for i := range cs {
		cs[i].Timeout = 60 * time.Second
	}
	return cs
}

// third keeps, for the quick tier, one in six of the cases.
func third(gs []gen, tier string) []gen {
	if tier == "thorough" {
		return gs
	}
	var out []gen
	for _, g := range gs {
		if hash(g.name)%6 == 0 {
			out = append(out, g)
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C09",
		Technique: "exhaustive enumeration of bounded programs; the graph explored with symmetry reduction is compared with a reference interpreter's over all traces up to renaming, no two explored states may be renamings of each other, and verdicts are compared with those of the unreduced reference graph",
		Rule:      "every specification of the symmetry families",
		Bounds: func(tier string) string {
			return "2 (thorough 3) interchangeable values or roles; every pair of 23 uses of given values (three ways to declare them), of 29 uses of fresh values and of 28 actions of roles, atomic and serial, 2 concurrent actions; assertions, exists, deadlock, liveness under 3 fairness labellings, crashes on one in six of them (thorough all)"
		},
		Cases: func(tier string) []fw.Case {
			return slower(cat(genCases("", nominalSpecs(tier), symCmp), genCases("crash/", withCrashes(third(only(nominalSpecs("quick"), "legacy", "noname", "materialized"), tier)), crashCmp), genCases("crash/", withCrashes(third(without(symRoleSpecs("quick"), "new"), tier)), crashCmp), genCases("verdict/", third(symRoleSpecs("quick"), tier), symVerdicts(roleAlways, roleTrans)),
				genCases("live/", withFair(third(nominalSpecs("quick"), tier), "ws", "ss", "-w"), livenessAs(nomLive, false, false, true)),
				genCases("live/", withFair(third(symRoleSpecs("quick"), tier), "ws", "ss", "-w"), livenessAs(roleLive9, false, false, true)),
				genCases("verdict/", third(without(nominalSpecs("quick"), "noname"), tier), symVerdicts(nomAlways, nomTrans)), genCases("", symRoleSpecs(tier), symCmp)))
		}})
}
