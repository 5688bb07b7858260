package checks

import (
	ast "fizz/proto"
	"fmt"
	"strings"

	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
)

const (
	ATOMIC   = ast.Flow_FLOW_ATOMIC
	SERIAL   = ast.Flow_FLOW_SERIAL
	ONEOF    = ast.Flow_FLOW_ONEOF
	PARALLEL = ast.Flow_FLOW_PARALLEL
	UNKNOWN  = ast.Flow_FLOW_UNKNOWN
)

const refLimit = 60000

func build(f *ast.File, opt *ast.StateSpaceOptions, crashes bool) (g *ref.Graph, err error) {
	return buildAs(f, opt, crashes, false)
}

// buildAs can keep the states apart that only names of symmetric values distinguish.
func buildAs(f *ast.File, opt *ast.StateSpaceOptions, crashes, concrete bool) (g *ref.Graph, err error) {
	defer func() {
		if x := recover(); x != nil {
			if x == ref.ErrUnsupported {
				err = ref.ErrUnsupported
				return
			}
			panic(x)
		}
	}()
	sp := ref.NewSpec(f, opt)
	sp.Concrete = concrete
	return sp.Build(refLimit, crashes)
}

// runBoth builds the reference graph and the explored graph of a spec.
func runBoth(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode, crashes bool) (*ref.Graph, *impl.Graph, *impl.Result) {
	rg, err := build(f, opt, crashes)
	if err == ref.ErrUnsupported {
		c.Count("unsupported", 1)
		return nil, nil, nil
	}
	if err != nil {
		panic(err)
	}
	r, err := impl.Run(f, opt, m)
	if err != nil {
		c.Fail("crash", "%v\n%s", err, specText(f))
		return rg, nil, nil
	}
	if r.Err != nil {
		c.Fail("error", "the checker reports an error on a valid specification: %v\n%s", r.Err, specText(f))
		return rg, nil, nil
	}
	if r.Root == nil {
		c.Fail("noroot", "no state explored\n%s", specText(f))
		return rg, nil, nil
	}
	ig := impl.Extract(r.Root, rg.Doms)
	c.Count("states", len(rg.Cfgs))
	c.Count("transitions", rg.LTS.Edges())
	c.Count("impl_nodes", len(ig.Nodes)+ig.Inner)
	c.Count("programs", 1)
	return rg, ig, r
}

// compareSpec checks that the implementation's graph has exactly the
// reference's behaviours.
func compareSpec(c *fw.Ctx, f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode) {
	rg, ig, r := runBoth(c, f, opt, m, false)
	if r == nil {
		return
	}
	compareGraphs(c, rg.LTS, ig.LTS, 0, f)
}

// compareGraphs reports the first difference; dir 1: only missing steps, 2: only spurious ones.
func compareGraphs(c *fw.Ctx, a, b *lts.LTS, dir int, f *ast.File) bool {
	d, st, err := lts.Compare(a, b, dir, 400000)
	if err != nil {
		panic(err)
	}
	c.Count("traces", st.Moves)
	if d != nil {
		sig := "missing"
		if d.Missing == "" {
			sig = "spurious"
		}
		c.Fail(sig, "%v\n%s", d, specText(f))
		if c.Verbose {
			dump("reference", a)
			dump("implementation", b)
		}
	}
	if c.SampleV == nil {
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(a.Obs), "explored_yield_points": len(b.Obs), "matched_trace_steps": st.Moves})
	}
	return d == nil
}

func dump(n string, l *lts.LTS) {
	fmt.Println("---", n)
	for i, o := range l.Out {
		if i > 60 {
			break
		}
		fmt.Println(i, l.Obs[i])
		for _, e := range o {
			fmt.Printf("    --%s (%v)--> %d %s\n", e.Label, e.Tau, e.To, l.Obs[e.To])
		}
	}
}

func specText(f *ast.File) string {
	var b strings.Builder
	for _, s := range f.Stmts {
		txStmt(&b, s, 0)
	}
	for _, i := range f.Invariants {
		fmt.Fprintf(&b, "%s assertion %s:\n", strings.Join(i.TemporalOperators, " "), i.Name)
		txBlock(&b, i.Block, 1)
	}
	for _, r := range f.Roles {
		fmt.Fprintf(&b, "%s role %s:\n", strings.Join(r.Modifiers, " "), r.Name)
		for _, d := range r.Decorators {
			fmt.Fprintf(&b, " @state(%s)\n", d.Args[0].PyExpr)
		}
		for _, a := range r.Actions {
			txAct(&b, a, 1)
		}
		for _, a := range r.Functions {
			txFn(&b, a, 1)
		}
	}
	for _, a := range f.Actions {
		txAct(&b, a, 0)
	}
	for _, a := range f.Functions {
		txFn(&b, a, 0)
	}
	return b.String()
}

func flowName(f ast.Flow) string {
	switch f {
	case ATOMIC:
		return "atomic "
	case SERIAL:
		return "serial "
	case ONEOF:
		return "oneof "
	case PARALLEL:
		return "parallel "
	}
	return ""
}

func ind(b *strings.Builder, n int) { b.WriteString(strings.Repeat("  ", n)) }

func txAct(b *strings.Builder, a *ast.Action, n int) {
	ind(b, n)
	f := ""
	if a.Fairness.GetLevel() != 0 {
		f = fmt.Sprintf("fair<%d> ", a.Fairness.GetLevel())
	}
	fmt.Fprintf(b, "%s%saction %s:\n", flowName(a.Flow), f, a.Name)
	txStmts(b, a.Block.Stmts, n+1)
}
func txFn(b *strings.Builder, a *ast.Function, n int) {
	ind(b, n)
	var ps []string
	for _, p := range a.Params {
		x := p.Name
		if p.DefaultPyExpr != "" {
			x += "=" + p.DefaultPyExpr
		}
		ps = append(ps, x)
	}
	fmt.Fprintf(b, "%sfunc %s(%s):\n", flowName(a.Flow), a.Name, strings.Join(ps, ", "))
	txStmts(b, a.Block.Stmts, n+1)
}
func txBlock(b *strings.Builder, x *ast.Block, n int) {
	if x != nil {
		txStmts(b, x.Stmts, n)
	}
}
func txStmts(b *strings.Builder, ss []*ast.Statement, n int) {
	for _, s := range ss {
		txStmt(b, s, n)
	}
}
func txStmt(b *strings.Builder, s *ast.Statement, n int) {
	ind(b, n)
	if s.Label != "" {
		b.WriteString("`" + s.Label + "` ")
	}
	switch {
	case s.PyStmt != nil:
		b.WriteString(s.PyStmt.Code + "\n")
	case s.Block != nil:
		b.WriteString(flowName(s.Block.Flow) + ":\n")
		txStmts(b, s.Block.Stmts, n+1)
	case s.IfStmt != nil:
		for i, br := range s.IfStmt.Branches {
			if i > 0 {
				ind(b, n)
				b.WriteString("elif ")
			} else {
				b.WriteString("if ")
			}
			b.WriteString(br.Condition + ":\n")
			txStmts(b, br.Block.Stmts, n+1)
		}
	case s.AnyStmt != nil:
		a := s.AnyStmt
		f := ""
		if a.Fairness.GetLevel() != 0 {
			f = fmt.Sprintf("fair<%d> ", a.Fairness.GetLevel())
		}
		cond := ""
		if a.Condition != "" {
			cond = " if " + a.Condition
		}
		if a.Block == nil {
			fmt.Fprintf(b, "%s = %soneof %s%s\n", a.LoopVars[0], f, a.PyExpr, cond)
		} else {
			fmt.Fprintf(b, "%s%soneof %s in %s%s:\n", flowName(a.Flow), f, a.LoopVars[0], a.PyExpr, cond)
			txStmts(b, a.Block.Stmts, n+1)
		}
	case s.ForStmt != nil:
		fmt.Fprintf(b, "%sfor %s in %s:\n", flowName(s.ForStmt.Flow), s.ForStmt.LoopVars[0], s.ForStmt.PyExpr)
		txStmts(b, s.ForStmt.Block.Stmts, n+1)
	case s.WhileStmt != nil:
		fmt.Fprintf(b, "%swhile %s:\n", flowName(s.WhileStmt.Flow), s.WhileStmt.PyExpr)
		txStmts(b, s.WhileStmt.Block.Stmts, n+1)
	case s.BreakStmt != nil:
		b.WriteString("break\n")
	case s.ContinueStmt != nil:
		b.WriteString("continue\n")
	case s.ReturnStmt != nil:
		b.WriteString("return " + s.ReturnStmt.PyExpr + "\n")
	case s.RequireStmt != nil:
		b.WriteString("require " + s.RequireStmt.Condition + "\n")
	case s.CallStmt != nil:
		c := s.CallStmt
		x := ""
		if len(c.Vars) > 0 {
			x = strings.Join(c.Vars, ", ") + " = "
		}
		if c.Receiver != "" {
			x += c.Receiver + "."
		}
		var as []string
		for _, a := range c.Args {
			y := a.PyExpr
			if a.Name != "" {
				y = a.Name + "=" + y
			}
			as = append(as, y)
		}
		fmt.Fprintf(b, "%s%s(%s)\n", x, c.Name, strings.Join(as, ", "))
	}
}
