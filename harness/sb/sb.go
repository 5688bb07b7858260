// Package sb builds specification ASTs (the input format of the checker) from Go.
package sb

import (
	ast "fizz/proto"
	"strings"
)

const FileName = "spec.fizz"

func src() *ast.SourceInfo {
	return &ast.SourceInfo{FileName: FileName, Start: &ast.Position{Line: 1, Column: 1}, End: &ast.Position{Line: 1, Column: 2}}
}

type S = *ast.Statement

func expr(s string) *ast.Expr { return &ast.Expr{PyExpr: s, SourceInfo: src()} }

func Py(code string) S {
	return &ast.Statement{SourceInfo: src(), PyStmt: &ast.PyStmt{Code: code, SourceInfo: src()}}
}
func Pass() S { return Py("pass") }
func Blk(flow ast.Flow, ss ...S) *ast.Block {
	return &ast.Block{Flow: flow, Stmts: ss, SourceInfo: src()}
}
func B(flow ast.Flow, ss ...S) S {
	return &ast.Statement{SourceInfo: src(), Block: Blk(flow, ss...)}
}
func Atomic(ss ...S) S   { return B(ast.Flow_FLOW_ATOMIC, ss...) }
func Serial(ss ...S) S   { return B(ast.Flow_FLOW_SERIAL, ss...) }
func Oneof(ss ...S) S    { return B(ast.Flow_FLOW_ONEOF, ss...) }
func Parallel(ss ...S) S { return B(ast.Flow_FLOW_PARALLEL, ss...) }

type Br struct {
	Cond string
	Body []S
}

func If(cond string, body ...S) S { return IfElse(Br{cond, body}) }
func IfElse(brs ...Br) S {
	st := &ast.IfStmt{SourceInfo: src()}
	for _, b := range brs {
		c := b.Cond
		if c == "" {
			c = "True"
		}
		st.Branches = append(st.Branches, &ast.Branch{Condition: c, ConditionExpr: expr(c), SourceInfo: src(), Block: Blk(ast.Flow_FLOW_UNKNOWN, b.Body...)})
	}
	return &ast.Statement{SourceInfo: src(), IfStmt: st}
}

// AnyAssign is `v = oneof it` (no block).
func AnyAssign(v, it string) S {
	return &ast.Statement{SourceInfo: src(), AnyStmt: &ast.AnyStmt{SourceInfo: src(), LoopVars: []string{v}, PyExpr: it, IterExpr: expr(it)}}
}

// AnyAssignF is `v = fair<level> oneof it`.
func AnyAssignF(f ast.FairnessLevel, v, it string) S {
	s := AnyAssign(v, it)
	s.AnyStmt.Fairness = &ast.Fairness{Level: f, SourceInfo: src()}
	return s
}
func AnyAssignIf(v, it, cond string) S {
	s := AnyAssign(v, it)
	s.AnyStmt.Condition = cond
	s.AnyStmt.ConditionExpr = expr(cond)
	return s
}

// Any is `oneof v in it: body`.
func Any(v, it string, body ...S) S {
	s := AnyAssign(v, it)
	s.AnyStmt.Block = Blk(ast.Flow_FLOW_UNKNOWN, body...)
	return s
}
func AnyFlow(f ast.Flow, v, it string, body ...S) S {
	s := Any(v, it, body...)
	s.AnyStmt.Flow = f
	return s
}
func For(f ast.Flow, v, it string, body ...S) S {
	return &ast.Statement{SourceInfo: src(), ForStmt: &ast.ForStmt{SourceInfo: src(), Flow: f, LoopVars: []string{v}, PyExpr: it, IterExpr: expr(it), Block: Blk(ast.Flow_FLOW_UNKNOWN, body...)}}
}
func While(f ast.Flow, cond string, body ...S) S {
	return &ast.Statement{SourceInfo: src(), WhileStmt: &ast.WhileStmt{SourceInfo: src(), Flow: f, PyExpr: cond, IterExpr: expr(cond), Block: Blk(ast.Flow_FLOW_UNKNOWN, body...)}}
}
func Break() S {
	return &ast.Statement{SourceInfo: src(), BreakStmt: &ast.BreakStmt{SourceInfo: src()}}
}
func Continue() S {
	return &ast.Statement{SourceInfo: src(), ContinueStmt: &ast.ContinueStmt{SourceInfo: src()}}
}
func Return(e string) S {
	r := &ast.ReturnStmt{SourceInfo: src()}
	if e != "" {
		r.PyExpr = e
		r.Expr = expr(e)
	}
	return &ast.Statement{SourceInfo: src(), ReturnStmt: r}
}
func Require(c string) S {
	return &ast.Statement{SourceInfo: src(), RequireStmt: &ast.RequireStmt{SourceInfo: src(), Condition: c, ConditionExpr: expr(c)}}
}

// Call builds `v = recv.name(args)`; an argument is "expr" or "name=expr" (use NamedArg).
func Call(v, recv, name string, args ...string) S {
	c := &ast.CallStmt{SourceInfo: src(), Name: name, Receiver: recv}
	if v != "" {
		c.Vars = []string{v}
	}
	for _, a := range args {
		if i := strings.Index(a, ":="); i > 0 {
			c.Args = append(c.Args, &ast.Argument{SourceInfo: src(), Name: a[:i], PyExpr: a[i+2:], Expr: expr(a[i+2:])})
		} else {
			c.Args = append(c.Args, &ast.Argument{SourceInfo: src(), PyExpr: a, Expr: expr(a)})
		}
	}
	return &ast.Statement{SourceInfo: src(), CallStmt: c}
}
func Label(l string, s S) S { s.Label = l; return s }

func Act(flow ast.Flow, name string, ss ...S) *ast.Action {
	return &ast.Action{SourceInfo: src(), Name: name, Flow: flow, Block: Blk(flow, ss...)}
}
func Fair(l ast.FairnessLevel, a *ast.Action) *ast.Action {
	a.Fairness = &ast.Fairness{Level: l, SourceInfo: src()}
	return a
}

// Func: params are "name" or "name=default".
func Func(flow ast.Flow, name string, params []string, ss ...S) *ast.Function {
	f := &ast.Function{SourceInfo: src(), Name: name, Flow: flow, Block: Blk(flow, ss...)}
	for _, p := range params {
		if i := strings.Index(p, "="); i > 0 {
			f.Params = append(f.Params, &ast.Parameter{SourceInfo: src(), Name: p[:i], DefaultPyExpr: p[i+1:], DefaultExpr: expr(p[i+1:])})
		} else {
			f.Params = append(f.Params, &ast.Parameter{SourceInfo: src(), Name: p})
		}
	}
	return f
}

// Assertion has a block body, e.g. Return("x > 0").
func Assertion(name string, ops []string, ss ...S) *ast.Invariant {
	return &ast.Invariant{SourceInfo: src(), Name: name, TemporalOperators: ops, Block: Blk(ast.Flow_FLOW_ATOMIC, ss...)}
}
func Always(name, expr string) *ast.Invariant {
	return Assertion(name, []string{"always"}, Return(expr))
}
func TransAssertion(name string, ss ...S) *ast.Invariant {
	i := Assertion(name, []string{"transition"}, ss...)
	i.Params = []*ast.Parameter{{SourceInfo: src(), Name: "before"}, {SourceInfo: src(), Name: "after"}}
	return i
}

func RoleDef(name string, symmetric bool, actions []*ast.Action, funcs []*ast.Function) *ast.Role {
	r := &ast.Role{SourceInfo: src(), Name: name, Actions: actions, Functions: funcs}
	if symmetric {
		r.Modifiers = []string{"symmetric"}
	}
	return r
}
func Durability(r *ast.Role, kind string, fields string) *ast.Role {
	e := kind + "=" + fields
	r.Decorators = []*ast.Decorator{{SourceInfo: src(), Name: "state", Args: []*ast.Argument{{SourceInfo: src(), PyExpr: e, Expr: expr(e)}}}}
	return r
}

func File(actions ...*ast.Action) *ast.File {
	return &ast.File{SourceInfo: src(), Actions: actions}
}
func Init(ss ...S) *ast.Action { return Act(ast.Flow_FLOW_ATOMIC, "Init", ss...) }

// Clone-free helpers for options.
func Opts(maxActions, maxConc int64) *ast.StateSpaceOptions {
	t := false
	return &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: maxActions, MaxConcurrentActions: maxConc, CrashOnYield: &t}}
}

// Flow sets the flow of the body of a loop or choice.
func Flow(f ast.Flow, s S) S {
	switch {
	case s.ForStmt != nil:
		s.ForStmt.Block.Flow = f
	case s.WhileStmt != nil:
		s.WhileStmt.Block.Flow = f
	case s.AnyStmt != nil:
		s.AnyStmt.Block.Flow = f
	}
	return s
}

// Block2 is a block that inherits the flow around it.
func Block2(ss ...S) S {
	return &ast.Statement{Block: &ast.Block{Flow: ast.Flow_FLOW_SERIAL, Stmts: ss}}
}
