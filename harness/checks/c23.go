package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	"verif/fw"
	. "verif/sb"
)

// domain: one way to declare the domain D.
type domain struct {
	n, decl string
	frags   []frag
}

func inAny(it string, st ...S) func() S { return func() S { return Any("g", it, st...) } }

// uses of values of every kind of domain.
var anyDom = []frag{
	fr("free", py("x = None")),
	fr("copy", py("y = x")),
	fr("swap", py("x, y = y, x")),
	fr("values", pick("k", "D.values()"), py("x = k")),
	fr("count", py("n = len(D.values())")),
	fr("add", req("x != None"), py("s.add(x)")),
	fr("take", pick("k", "[e for e in s]"), py("s.discard(k)"), py("y = k")),
	fr("dict", req("x != None"), py("d[x] = 1 - d.get(x, 0)")),
	fr("undict", py("d.clear()")),
	fr("eq", py("n = 1 if x == y else 0")),
	fr("in", py("n = 1 if x in D.values() else 0")),
	fr("list", req("x != None and len(l) < 2"), py("l.append(x)")),
	fr("unlist", py("l = l[1:]")),
	fr("ret", ret("x")),
}

var freshDom = []frag{
	fr("fresh", py("x = D.fresh()")),
	fr("freshy", py("y = D.fresh()")),
	fr("two", py("x, y = D.fresh(), D.fresh()")),
	fr("sadd", py("s.add(D.fresh())")),
	fr("append", req("len(l) < 2"), py("l.append(D.fresh())")),
	fr("retfresh", ret("D.fresh()")),
	fr("hold", py("z = D.fresh()"), req("n == 0"), py("y = z")),
}

var orderedDom = []frag{
	fr("min", py("y = D.min()")),
	fr("max", py("x = D.max()")),
	fr("lt", py("n = 1 if x != None and y != None and x < y else 0")),
	fr("le", py("n = 1 if x != None and y != None and x <= y else 0")),
	fr("gt", py("n = 1 if x != None and y != None and x > y else 0")),
	fr("ge", req("x != None and y != None and x >= y"), py("x = None")),
	fr("sort", py("l = sorted(l)")),
	fr("maxof", req("len(l) > 0"), py("x = max(l)")),
	fr("small", py("x = min([e for e in D.values() if e != y] + [D.max()])")),
}

var ordinalDom = []frag{
	fr("gap", inAny("D.segments()", Py("y = g.fresh()"))),
	fr("gapset", inAny("D.segments()", Py("s.add(g.fresh())"))),
	fr("after", req("x != None"), inAny("D.segments(after = x)", Py("y = g.fresh()"))),
	fr("before", req("x != None"), inAny("D.segments(before = x)", Py("y = g.fresh()"))),
	fr("between", req("x != None and y != None and x < y"), inAny("D.segments(after = x, before = y)", Py("s.add(g.fresh())"))),
	fr("gaps", py("n = len(D.segments())")),
}

var arith = []frag{
	fr("inc", req("x != None"), py("x = x + 1")),
	fr("dec", req("y != None"), py("y = y - 1")),
	fr("plus2", req("x != None"), py("x = x + 2")),
	fr("rev", req("y != None"), py("y = 1 + y")),
	fr("next", req("x != None"), py("y = x + 1")),
	fr("diff", py("n = (x - y) % 5 if x != None and y != None else 9")),
	fr("near", req("x != None and y != None and x - y == 1"), py("y = x")),
	fr("shift", py("s = set([e + 1 for e in s])")),
	fr("insets", req("x != None"), py("s.add(x + 1)")),
}

// symmetric under reflection
var mirror = []frag{
	fr("step", req("x != None"), pick("k", "[1, -1]"), py("x = x + k")),
	fr("stepy", req("y != None"), pick("k", "[2, -2]"), py("y = y + k")),
	fr("spread", req("x != None"), py("s = set([x - 1, x + 1])")),
	fr("dist", py("n = abs(x - y) if x != None and y != None else 9")),
}

func join(fs ...[]frag) []frag {
	var out []frag
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

func drop(fs []frag, names ...string) []frag {
	var out []frag
next:
	for _, f := range fs {
		for _, n := range names {
			if f.n == n {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

func domains(tier string) []domain {
	var out []domain
	add := func(n, decl string, fs ...[]frag) {
		out = append(out, domain{n, "D = symmetry." + decl, join(fs...)})
	}
	pool := []frag{fr("choices", pick("k", "D.choices()"), py("s.add(k)")), fr("choicex", pick("x", "D.choices()")),
		fr("alone", req("len(D.values()) < 2"), py("y = D.choose()"))}
	lims := []int{1, 2, 3}
	for _, l := range lims {
		add(fmt.Sprintf("nominal%d", l), fmt.Sprintf("nominal(name = 'k', limit = %d)", l), anyDom, freshDom, pool)
		add(fmt.Sprintf("ordinal%d", l), fmt.Sprintf("ordinal(name = 'k', limit = %d)", l), anyDom, freshDom, orderedDom, ordinalDom)
	}
	add("ordinalm", "ordinal(name = 'k', limit = 3, materialize = True)", anyDom, drop(orderedDom, "none"))
	add("interval2", "interval(name = 'k', limit = 2)", anyDom, freshDom, orderedDom, arith)
	add("intervald3", "interval(name = 'k', divergence = 3)", anyDom, freshDom, orderedDom, arith)
	add("intervald1", "interval(name = 'k', divergence = 1, start = 7)", anyDom, freshDom, orderedDom, arith)
	add("intervalboth", "interval(name = 'k', limit = 2, divergence = 3)", anyDom, freshDom, orderedDom, arith)
	add("intervalm", "interval(name = 'k', limit = 3, start = 4, materialize = True)", anyDom, orderedDom)
	add("intervalr", "interval(name = 'k', limit = 3, reflection = True)", drop(anyDom, "none"), mirror, []frag{fr("init", req("x == None and y == None"), py("x = D.fresh()"), py("y = x"))})
	for _, l := range []int{2, 3, 4} {
		add(fmt.Sprintf("rotationalm%d", l), fmt.Sprintf("rotational(name = 'k', limit = %d, materialize = True)", l), anyDom, arith)
		add(fmt.Sprintf("rotationalr%d", l), fmt.Sprintf("rotational(name = 'k', limit = %d, materialize = True, reflection = True)", l), anyDom, drop(mirror, "dist"))
	}
	// values that are never released
	keep := []frag{fr("add", req("x != None"), py("s.add(x)")), fr("sadd", py("s.add(D.fresh())")), fr("pick", pick("x", "[e for e in s]")), fr("eq", py("n = 1 if x == y else 0")), fr("copy", req("x in s and y in s"), py("y = x")),
		fr("diff", req("x != None and y != None"), py("n = x - y")), fr("nextin", req("x != None and x + 1 in s"), py("x = x + 1")), fr("count", py("n = len(D.values())"))}
	add("rotational3", "rotational(name = 'k', limit = 3)", keep)
	add("rotational4", "rotational(name = 'k', limit = 4)", keep)
	// values that are released and allocated again
	add("rotationalfree2", "rotational(name = 'k', limit = 2)", anyDom, freshDom, drop(pool, "alone"), arith)
	add("rotationalfree3", "rotational(name = 'k', limit = 3)", anyDom, freshDom, drop(pool, "alone"), arith)
	return out
}

func domSpecs(tier string) []gen {
	var out []gen
	for _, d := range domains(tier) {
		for i, a := range d.frags {
			for j := i; j < len(d.frags); j++ {
				b := d.frags[j]
				for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
					if fl == SERIAL && tier == "quick" && (i+j)%3 != 0 {
						continue
					}
					out = append(out, gen{fmt.Sprintf("%s/%s%s,%s", d.n, fln(fl), a.n, b.n), func() *ast.File {
						f := symFile([]S{Py(d.decl)}, a, b, fl, fl)
						f.Functions = nil
						return f
					}, func() *ast.StateSpaceOptions { return Opts(10000, 2) }})
				}
			}
		}
	}
	return out
}

// values held in fields of roles, running actions and messages.
func domRoleSpecs(tier string) []gen {
	type kind struct {
		n, decl string
		frags   []frag
	}
	base := []frag{
		fr("mint", py("self.k = D.fresh()")),
		fr("free", py("self.k = None")),
		fr("give", req("self.k != None"), func() S { return Call("", "q", "Take", "self.k") }),
		fr("send", req("n == 0"), req("self.k != None"), py("n = 1"), py("st = ch.stub(p)"), func() S { return Call("", "st", "Take", "self.k") }),
		fr("sendfresh", req("n == 0"), py("n = 1"), py("st = ch.stub(p)"), func() S { return Call("", "st", "Take", "D.fresh()") }),
		fr("get", func() S { return Call("t", "p", "Get") }, py("self.k = t")),
		fr("getfresh", func() S { return Call("t", "p", "Mint") }, py("x = t")),
		fr("pub", py("x = self.k")),
		fr("eq", py("c = 1 if x == self.k else 0")),
		fr("local", py("z = D.fresh()"), py("self.k = z")),
		fr("ret", ret("self.k")),
	}
	ord := []frag{
		fr("gtx", py("c = 1 if x != None and self.k != None and x > self.k else 0")),
		fr("max", py("self.k = D.max()")),
		fr("min", py("x = D.min()")),
	}
	ar := []frag{
		fr("inc", req("self.k != None"), py("self.k = self.k + 1")),
		fr("sendinc", req("n == 0"), req("self.k != None"), py("n = 1"), py("st = ch.stub(q)"), func() S { return Call("", "st", "Take", "self.k + 1") }),
		fr("diff", py("c = self.k - x if x != None and self.k != None else 0")),
	}
	var out []gen
	for _, k := range []kind{
		{"nominal2", "nominal(name = 'k', limit = 2)", base}, {"ordinal2", "ordinal(name = 'k', limit = 2)", join(base, ord)}, {"ordinal3", "ordinal(name = 'k', limit = 3)", join(base, ord)},
		{"intervald2", "interval(name = 'k', divergence = 2)", join(base, ord, ar)}, {"rotationalm3", "rotational(name = 'k', limit = 3, materialize = True)", join([]frag{fr("mint", pick("self.k", "D.values()"))}, drop(base, "mint", "sendfresh", "getfresh", "local"), ar)},
	} {
		for i, a := range k.frags {
			for j := i; j < len(k.frags); j++ {
				b := k.frags[j]
				for _, fl := range []ast.Flow{ATOMIC, SERIAL} {
					if tier == "quick" && (fl == SERIAL && (i+j)%2 != 0 || k.n == "ordinal2") {
						continue
					}
					out = append(out, gen{fmt.Sprintf("inroles/%s/%s%s,%s", k.n, fln(fl), a.n, b.n), func() *ast.File {
						f := File(Init(Py("x = None"), Py("n = 0"), Py("c = 0"), Py("ch = "+chanDecl), Py("p = R()"), Py("q = R()")))
						f.Stmts = []S{Py("D = symmetry." + k.decl)}
						mint := "D.fresh()"
						if k.n == "rotationalm3" {
							mint = "self.k"
						}
						f.Roles = []*ast.Role{RoleDef("R", false, []*ast.Action{
							Act(ATOMIC, "Init", Py("self.k = None")),
							Act(fl, "A", a.stmts()...), Act(fl, "B", b.stmts()...)},
							[]*ast.Function{Func(ATOMIC, "Get", nil, Return("self.k")), Func(fl, "Take", []string{"v"}, Py("self.k = v")), Func(fl, "Mint", nil, Py("v = "+mint), Return("v"))})}
						return f
					}, func() *ast.StateSpaceOptions { return Opts(10000, int64(1+(i+j)%2)) }})
				}
			}
		}
	}
	return out
}

// two domains at once.
func twoDomSpecs(tier string) []gen {
	decls := []string{"nominal(name = 'e', limit = 2)", "ordinal(name = 'e', limit = 2)", "interval(name = 'e', limit = 3)", "rotational(name = 'e', limit = 3, materialize = True)"}
	var out []gen
	for _, d := range domains("quick") {
		if len(only([]gen{{name: d.n}}, "nominal2", "ordinal3", "intervald1", "rotationalm3")) == 0 {
			continue
		}
		for k, e := range decls {
			others := []frag{fr("fresh", py("y = E.fresh()")), fr("values", pick("y", "E.values()")), fr("dict", pick("k", "E.values()"), py("d[k] = x")), fr("pair", pick("k", "E.values()"), req("x != None"), py("l = [(x, k)]"))}
			if k == 3 {
				others = others[1:]
			}
			for i, a := range d.frags {
				for j, b := range others {
					if tier == "quick" && (i+j)%2 != 0 {
						continue
					}
					out = append(out, gen{fmt.Sprintf("two/%s+%d/%s,%s", d.n, k, a.n, b.n), func() *ast.File {
						f := symFile([]S{Py(d.decl), Py("E = symmetry." + e)}, a, b, ATOMIC, ATOMIC)
						f.Functions = nil
						return f
					}, func() *ast.StateSpaceOptions { return Opts(10000, 1) }})
				}
			}
		}
	}
	return out
}

var domAlways = []string{"x == None or x != y", "len(s) < 2", "x == None or x not in d", "len(l) < 2 or l[0] != l[1]", "n == 0"}
var ordAlways = []string{"x == None or y == None or x <= y", "x == None or len([e for e in s if e > x]) == 0", "sorted(l) == l"}
var intAlways = []string{"x == None or y == None or x - y < 2", "x == None or y == None or y - x < 1", "x == None or x - 1 not in s"}
var domTrans = []string{"before.x == after.x or before.x == None", "len(before.s) <= len(after.s)", "before.y == None or before.x != after.y"}
var ordTrans = []string{"before.x == None or after.x == None or before.x <= after.x", "before.x == None or after.y == None or before.x < after.y"}
var intTrans = []string{"after.x == None or after.y == None or before.x == None or after.x - after.y < 2 and after.y - after.x < 2", "before.x == None or after.x == None or after.y == None or after.x - after.y < 4", "before.x == None or after.x == None or after.x - before.x < 2", "before.x == None or after.x == None or after.x == before.x"}

// domVerdicts decides assertions on values of domains.
func domVerdicts(tier string) []fw.Case {
	var out []fw.Case
	for _, k := range []struct {
		pre           []string
		always, trans []string
	}{
		{[]string{"nominal2", "nominal3", "rotationalm3"}, domAlways, domTrans},
		{[]string{"ordinal2", "ordinal3", "ordinalm"}, append(ordAlways, domAlways...), append(ordTrans, domTrans...)},
		{[]string{"interval2", "intervald3", "intervald1", "intervalboth"}, append(append(intAlways, ordAlways...), domAlways...), append(append(intTrans, ordTrans...), domTrans...)},
	} {
		gs := only(domSpecs("quick"), k.pre...)
		var few []gen
		for _, g := range gs {
			if tier == "thorough" || hash(g.name)%12 == 0 || strings.HasSuffix(g.name, "two,inc") || strings.HasSuffix(g.name, "two,plus2") {
				few = append(few, g)
			}
		}
		out = append(out, genCases("verdict/", few, symVerdicts(k.always, k.trans))...)
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C23",
		Technique: "exhaustive enumeration of bounded programs; the graph explored with symmetry reduction is compared with a reference interpreter's over all traces up to the symmetries of each kind of domain, and no two explored states may be symmetric",
		Rule:      "every specification of the domain families",
		Bounds: func(tier string) string {
			return "21 declarations (4 kinds, limits 1 to 4, divergence, start, reflection, materialized), every pair of the uses of each kind (up to 36), atomic and serial; values in fields, calls and messages of roles; two domains at once; assertions over values on one in twelve (thorough all)"
		},
		Cases: func(tier string) []fw.Case {
			return slower(cat(genCases("", domSpecs(tier), symCmp), genCases("", domRoleSpecs(tier), symCmp), genCases("", twoDomSpecs(tier), symCmp), domVerdicts(tier)))
		}})
}
