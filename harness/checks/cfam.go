package checks

import (
	"verif/fw"
	"verif/impl"
)

func genCases(pre string, gs []gen, run func(*fw.Ctx, gen)) []fw.Case {
	var out []fw.Case
	for _, g := range gs {
		out = append(out, fw.Case{Name: pre + g.name, Run: func(c *fw.Ctx) { run(c, g) }})
	}
	return out
}

func cmp(c *fw.Ctx, g gen)     { compareSpec(c, g.file(), g.opt(), impl.Mode{}) }
func stepOne(c *fw.Ctx, g gen) { oneStep(c, g.file(), g.opt(), impl.Mode{}) }

func cat(xs ...[]fw.Case) []fw.Case {
	var out []fw.Case
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

func init() {
	const tech = "exhaustive enumeration of bounded programs; explored graph compared with a reference interpreter by subset construction over all traces"
	fw.Register(&fw.Check{ID: "C08", Technique: "exhaustive enumeration of programs that share mutable values; every explored state is rebuilt in a reference interpreter, sharing included, and all its steps compared", Rule: "every pair of action forms over every kind of container", Cases: func(tier string) []fw.Case {
		return cat(genCases("full/", histSpecs(), cmp), genCases("step/", histSpecs(), stepOne), genCases("step/", dataSpecs(), stepOne), genCases("step/", roleSpecs(), stepOne))
	}})
	fw.Register(&fw.Check{ID: "C11", Technique: tech, Rule: "every specification of the role families", Cases: func(tier string) []fw.Case {
		return cat(genCases("", roleSpecs(), cmp), genCases("", callSpecs(), cmp), genCases("", refSpecs(), cmp))
	}})
	fw.Register(&fw.Check{ID: "C12", Technique: tech, Rule: "every specification of the channel families", Cases: func(tier string) []fw.Case { return cat(genCases("", chanSpecs(), cmp), genCases("", chanMore(), cmp)) }})
	fw.Register(&fw.Check{ID: "C07", Technique: tech, Rule: "every pair of 56 values in every place where a value can live (state, nested, local, choice variable, loop range, argument, role field, role parameter, message); every specification with one or two actions of the catalogue; sharing specifications", Cases: func(tier string) []fw.Case {
		return cat(genCases("", confSpecs(tier), cmp), genCases("", pairs(1, 2), cmp), genCases("", dataSpecs(), cmp))
	}})
}
