package ref

import (
	"errors"
	ast "fizz/proto"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"

	"verif/canon"
)

var fileOpts = &syntax.FileOptions{Set: true, GlobalReassign: true, TopLevelControl: true, While: true, Recursion: true}

// Spec is a specification prepared for reference interpretation.
type Spec struct {
	File       *ast.File
	Opt        *ast.StateSpaceOptions
	TrackDepth bool // make the number of started actions part of the configuration
	Concrete   bool // tell states apart that differ only in the names of symmetric values
	NoBounds   bool // ignore all bounds (next_states semantics)
	Consts     starlark.StringDict
	DisableFn  func(error) bool // recognises errors that disable a transition

	funcs map[string]*ast.Function
	roles map[string]*ast.Role
	durab map[string]durability
	exprs map[string]syntax.Expr
	progs map[string]*syntax.File
	Extra starlark.StringDict // additional predeclared names
	doms  map[string]*canon.Dom
}

type durability struct {
	durable, ephemeral map[string]bool
}

type act struct {
	kind string // block, for, while, any
	blk  *ast.Block
	flow ast.Flow
	pos  int
	done uint64
	f    *ast.ForStmt
	w    *ast.WhileStmt
	v    string
	rem  []Value
	pend bool // parallel: the next statement still has to be chosen
	cont bool // this act is the statement body of a choice (any)
}

type frame struct {
	name   string
	kind   string // action, function, roleinit, invariant
	acts   []*act
	locals map[string]Value
	args   map[string]Value
	self   *Role
	ret    []string
	top    bool // the Init action of the specification
}

type thread struct {
	frames   []*frame
	root     string // action name: Act, Role#0.Act or the function of a message
	fairness ast.FairnessLevel
}

// Msg is an in-flight message.
type Msg struct {
	Chan *Chan
	To   *Role
	Fn   string
	Args map[string]Value
}

// Cfg is one complete configuration.
type Cfg struct {
	spec    *Spec
	State   map[string]Value
	threads []*thread
	Roles   []*Role
	Msgs    []*Msg
	Counts  map[string]int
	Depth   int
	nextCh  int
	roleN   map[string]int
	key     string
	last    map[string]int64   // value allocated last, of rotational domains
	fresh   map[string][]int64 // values allocated by the current statement
}

// Step is one step between yield points.
type Step struct {
	Label   string // visible name
	Kind    string // init, action, thread, message, crash, rolecrash
	Thread  int
	To      *Cfg
	Returns string
	Rets    map[string]Value
	Fair    ast.FairnessLevel
	Choices []Choice // choices made with `oneof`
	Msg     *Msg     // the message delivered
	Labels  []string // of the statements executed and the functions called
	Calls   []string // between roles, and their ends
}

type Choice struct {
	Fair ast.FairnessLevel
	Val  string
	Key  string // the statement, the role and the value
}

type run struct {
	c        *Cfg
	t        int
	enabled  bool
	progress bool
	returns  map[string]Value
	yielded  bool
	finished bool
	nested   bool
	choices  []Choice
	labels   []string
	calls    []string
	steps    int
}

func NewSpec(f *ast.File, opt *ast.StateSpaceOptions) *Spec {
	s := &Spec{File: f, Opt: opt, funcs: map[string]*ast.Function{}, roles: map[string]*ast.Role{}, durab: map[string]durability{},
		exprs: map[string]syntax.Expr{}, progs: map[string]*syntax.File{}}
	for _, fn := range f.Functions {
		s.funcs[fn.Name] = fn
	}
	for _, r := range f.Roles {
		s.roles[r.Name] = r
		for _, fn := range r.Functions {
			s.funcs[r.Name+"."+fn.Name] = fn
		}
		for _, d := range r.Decorators {
			if d.Name == "state" && len(d.Args) == 1 {
				p := strings.SplitN(d.Args[0].Expr.PyExpr, "=", 2)
				v, err := starlark.EvalOptions(fileOpts, &starlark.Thread{}, "d", strings.TrimSpace(p[1]), nil)
				if err != nil {
					panic(err)
				}
				m := map[string]bool{}
				it := v.(starlark.Iterable).Iterate()
				var x Value
				for it.Next(&x) {
					m[string(x.(starlark.String))] = true
				}
				it.Done()
				if strings.TrimSpace(p[0]) == "durable" {
					s.durab[r.Name] = durability{durable: m}
				} else {
					s.durab[r.Name] = durability{ephemeral: m}
				}
			}
		}
	}
	s.Consts = starlark.StringDict{}
	env := builtins()
	for _, st := range f.Stmts {
		if st.PyStmt != nil {
			s.execIn(env, st.PyStmt.Code)
		}
	}
	b := builtins()
	for k, v := range env {
		if old, ok := b[k]; ok && old.Type() == v.Type() && v.Type() == "builtin_function_or_method" {
			continue
		}
		if k == "math" || k == "symmetry" && v.Type() == "module" {
			continue
		}
		s.Consts[k] = v
	}
	return s
}

type disabled struct{ err error }

func (s *Spec) fail(err error, code string) {
	var nv *noValue
	if s.DisableFn != nil && s.DisableFn(err) || errors.As(err, &nv) {
		panic(disabled{err})
	}
	panic(fmt.Errorf("reference interpreter: %q: %w", code, err))
}

func (s *Spec) execIn(env starlark.StringDict, code string) {
	f := s.progs[code]
	var err error
	f, err = fileOpts.Parse("x", code, 0)
	if err != nil {
		s.fail(err, code)
	}
	if err := starlark.ExecREPLChunk(f, &starlark.Thread{Print: func(*starlark.Thread, string) {}}, env); err != nil {
		s.fail(err, code)
	}
}

func (s *Spec) evalIn(env starlark.StringDict, code string) Value {
	v, err := starlark.EvalOptions(fileOpts, &starlark.Thread{Print: func(*starlark.Thread, string) {}}, "x", code, env)
	if err != nil {
		s.fail(err, code)
	}
	return v
}

func (c *Cfg) copy() *Cfg { n, _ := c.copyWith(); return n }

func (c *Cfg) copyWith() (*Cfg, *copier) {
	cp := &copier{m: map[any]any{}}
	n := &Cfg{spec: c.spec, Depth: c.Depth, nextCh: c.nextCh, roleN: map[string]int{}, Counts: map[string]int{}}
	for k, v := range c.Counts {
		n.Counts[k] = v
	}
	for k, v := range c.roleN {
		n.roleN[k] = v
	}
	for _, r := range c.Roles {
		n.Roles = append(n.Roles, cp.val(r).(*Role))
	}
	n.State = cp.dict(c.State)
	for _, t := range c.threads {
		if t == nil {
			n.threads = append(n.threads, nil)
			continue
		}
		nt := &thread{root: t.root, fairness: t.fairness}
		for _, f := range t.frames {
			nf := &frame{name: f.name, kind: f.kind, ret: f.ret, top: f.top, locals: cp.dict(f.locals), args: cp.dict(f.args)}
			if f.self != nil {
				nf.self = cp.val(f.self).(*Role)
			}
			for _, a := range f.acts {
				na := *a
				na.rem = nil
				for _, x := range a.rem {
					na.rem = append(na.rem, cp.val(x))
				}
				nf.acts = append(nf.acts, &na)
			}
			nt.frames = append(nt.frames, nf)
		}
		n.threads = append(n.threads, nt)
	}
	n.last = maps.Clone(c.last)
	for _, m := range c.Msgs {
		n.Msgs = append(n.Msgs, &Msg{Chan: m.Chan, To: cp.val(m.To).(*Role), Fn: m.Fn, Args: cp.dict(m.Args)})
	}
	return n, cp
}

// Obs renders everything an observer of the state sees.
func (c *Cfg) Obs() string {
	if doms := c.spec.names(); len(doms) > 0 {
		return canon.Min(doms, false, c.obs)
	}
	return c.obs(&canon.R{})
}

func (c *Cfg) obs(r *canon.R) string {
	var b strings.Builder
	b.WriteString(r.Dict(c.State))
	var rs []string
	for _, ro := range c.Roles {
		rs = append(rs, fmt.Sprintf("|%s(%s){%s}", r.Name(ro.String()), r.Dict(ro.Params), r.Dict(ro.Fields)))
	}
	b.WriteString(strings.Join(sortRoles(rs, r), ""))
	var ms []string
	for _, m := range c.Msgs {
		ms = append(ms, fmt.Sprintf("%s.%s(%s)", r.Name(m.To.String()), m.Fn, r.Dict(m.Args)))
	}
	sort.Strings(ms)
	if len(ms) > 0 {
		b.WriteString("|msgs:" + strings.Join(ms, ";"))
	}
	return b.String()
}

// Merged renders the configuration without the order of the running actions and the
// limits used up.
func (c *Cfg) Merged() string {
	r := &canon.R{}
	var ts []string
	for _, t := range c.threads {
		if t == nil {
			continue
		}
		var b strings.Builder
		b.WriteString(t.root)
		for _, f := range t.frames {
			fmt.Fprintf(&b, "<%s %s %v", f.name, f.kind, f.ret)
			if f.self != nil {
				b.WriteString(" self=" + f.self.String())
			}
			b.WriteString(" L" + r.Dict(f.locals) + " A" + r.Dict(f.args))
			for _, a := range f.acts {
				fmt.Fprintf(&b, "[%s %p %p %p %d %d %d %v", a.kind, a.blk, a.f, a.w, a.flow, a.pos, a.done, a.pend)
				for _, x := range a.rem {
					b.WriteString(" " + r.Val(x))
				}
				b.WriteString("]")
			}
			b.WriteString(">")
		}
		ts = append(ts, b.String())
	}
	sort.Strings(ts)
	return c.Obs() + strings.Join(ts, "|")
}

// Key renders the complete configuration including aliasing.
func (c *Cfg) Key() string {
	if c.key == "" {
		if doms := c.spec.names(); len(doms) > 0 {
			c.key = canon.Min(doms, true, c.render)
		} else {
			c.key = c.render(&canon.R{Alias: true})
		}
	}
	return c.key
}

func (c *Cfg) render(r *canon.R) string {
	var b strings.Builder
	b.WriteString(r.Dict(c.State))
	roles := append([]*Role(nil), c.Roles...)
	if r.Ren != nil {
		sort.SliceStable(roles, func(i, j int) bool { return r.Name(roles[i].String()) < r.Name(roles[j].String()) })
	}
	for _, ro := range roles {
		fmt.Fprintf(&b, "|%s(%s){%s}", r.Name(ro.String()), r.Dict(ro.Params), r.Dict(ro.Fields))
		if len(ro.Init) > 0 && c.spec.Opt.Options.GetCrashOnYield() {
			b.WriteString("init" + r.Dict(ro.Init))
		}
	}
	for i, t := range c.threads {
		if t == nil {
			fmt.Fprintf(&b, "|t%d-", i)
			continue
		}
		fmt.Fprintf(&b, "|t%d %s", i, r.Name(t.root))
		for _, f := range t.frames {
			fmt.Fprintf(&b, "<%s %s %v", r.Name(f.name), f.kind, f.ret)
			if f.self != nil {
				b.WriteString(" self=" + r.Name(f.self.String()))
			}
			b.WriteString(" L" + r.Dict(f.locals) + " A" + r.Dict(f.args))
			for _, a := range f.acts {
				fmt.Fprintf(&b, "[%s %p %p %p %d %d %d %v", a.kind, a.blk, a.f, a.w, a.flow, a.pos, a.done, a.pend)
				for _, x := range a.rem {
					b.WriteString(" " + r.Val(x))
				}
				b.WriteString("]")
			}
			b.WriteString(">")
		}
	}
	for _, m := range c.Msgs {
		fmt.Fprintf(&b, "|m%d %s.%s(%s)", m.Chan.Id, r.Name(m.To.String()), m.Fn, r.Dict(m.Args))
	}
	if r.Used == nil {
		for _, n := range slices.Sorted(maps.Keys(c.last)) {
			d := c.spec.Doms()[n]
			if !d.Materialize {
				b.WriteString(fmt.Sprintf("|last %s:", n) + r.Val(&Sym{d, c.last[n]}))
			}
		}
	}
	if c.spec.TrackDepth {
		fmt.Fprintf(&b, "|d%d", c.Depth)
	}
	if c.spec.countsMatter() {
		for _, u := range c.used() {
			b.WriteString("|c" + u)
		}
	}
	return b.String()
}

func (s *Spec) countsMatter() bool {
	if s.NoBounds {
		return false
	}
	for _, o := range s.Opt.GetActionOptions() {
		if o.GetMaxActions() > 0 {
			return true
		}
	}
	return false
}

// used lists how much of every limit on the number of runs of an action is used up.
func (c *Cfg) used() []string {
	var out []string
	put := func(k string, n, max int64) {
		if n > 0 {
			out = append(out, fmt.Sprintf("%s=%d", k, min(n, max)))
		}
	}
	for key, o := range c.spec.Opt.GetActionOptions() {
		max := o.GetMaxActions()
		if max <= 0 {
			continue
		}
		role, act, dot := strings.Cut(key, ".")
		switch {
		case dot && strings.HasSuffix(role, "#"):
			for k, n := range c.Counts {
				if strings.HasPrefix(k, role) && strings.HasSuffix(k, "."+act) {
					put(key+":"+k, int64(n), max)
				}
			}
		case dot && !strings.Contains(role, "#"):
			sum := int64(0)
			for k, n := range c.Counts {
				if strings.HasPrefix(k, role+"#") && strings.HasSuffix(k, "."+act) {
					sum += int64(n)
				}
			}
			put(key, sum, max)
		default:
			put(key, int64(c.Counts[key]), max)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Cfg) ThreadCount() int {
	n := 0
	for _, t := range c.threads {
		if t != nil {
			n++
		}
	}
	return n
}

// ThreadRoots lists the running actions.
func (c *Cfg) ThreadRoots() []string {
	var out []string
	for _, t := range c.threads {
		if t != nil {
			out = append(out, t.root)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Cfg) env(f *frame) starlark.StringDict {
	e := builtins()
	for k, v := range c.spec.Extra {
		e[k] = v
	}
	for k, v := range c.spec.Consts {
		e[k] = c.bind(v)
	}
	for k, v := range c.State {
		e[k] = v
	}
	if f != nil {
		if f.self != nil {
			e["self"] = f.self
		}
		for k, v := range f.args {
			e[k] = v
		}
		for k, v := range f.locals {
			e[k] = c.bind(v)
		}
	}
	for _, r := range c.spec.File.Roles {
		e[r.Name] = c.roleBuiltin(r)
	}
	e["Channel"] = starlark.NewBuiltin("Channel", func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		ch := &Chan{Id: c.nextCh}
		c.nextCh++
		return ch, nil
	})
	return e
}

func (c *Cfg) roleBuiltin(r *ast.Role) *starlark.Builtin {
	return starlark.NewBuiltin(r.Name, func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		n := &Role{Name: r.Name, Id: c.roleN[r.Name], Sym: c.spec.Doms()[r.Name] != nil, Params: map[string]Value{}, Fields: map[string]Value{}, Init: map[string]Value{}, Funcs: map[string]bool{}}
		c.roleN[r.Name]++
		for _, k := range kw {
			n.Params[string(k[0].(starlark.String))] = k[1]
		}
		c.Roles = append(c.Roles, n)
		return n, nil
	})
}

func (c *Cfg) assign(f *frame, k string, v Value) {
	if _, ok := f.locals[k]; ok {
		f.locals[k] = v
		return
	}
	if _, ok := f.args[k]; ok {
		f.args[k] = v
		return
	}
	if _, ok := c.State[k]; ok {
		c.State[k] = v
		return
	}
	if _, ok := c.spec.Consts[k]; ok {
		return
	}
	if v.Type() == "builtin_function_or_method" || v.Type() == "module" {
		return
	}
	f.locals[k] = v
}

func (c *Cfg) execPy(f *frame, code string) {
	e := c.env(f)
	before := starlark.StringDict{}
	for k, v := range e {
		before[k] = v
	}
	c.spec.execIn(e, code)
	for _, k := range e.Keys() {
		if old, ok := before[k]; ok && same(old, e[k]) {
			continue
		}
		c.assign(f, k, e[k])
	}
}

func same(a, b Value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

func (c *Cfg) eval(f *frame, code string) Value { return c.spec.evalIn(c.env(f), code) }

// ---- running one thread to its next yield point

func (r *run) clone() *run {
	n := *r
	n.c = r.c.copy()
	n.returns = map[string]Value{}
	cp := &copier{m: map[any]any{}}
	for k, v := range r.returns {
		n.returns[k] = cp.val(v)
	}
	n.choices = append([]Choice(nil), r.choices...)
	n.labels = append([]string(nil), r.labels...)
	n.calls = append([]string(nil), r.calls...)
	return &n
}

func (r *run) th() *thread { return r.c.threads[r.t] }
func (r *run) fr() *frame  { t := r.th(); return t.frames[len(t.frames)-1] }

const maxStmts = 3000

// explore runs all alternatives of the current step; yields kept outcomes.
func (r *run) explore(out *[]*run) {
	for {
		r.steps++
		if r.steps > maxStmts {
			panic(fmt.Errorf("reference interpreter: step does not terminate"))
		}
		if r.finished || r.yielded {
			if r.enabled || r.progress {
				*out = append(*out, r)
			}
			return
		}
		alts, abort := r.advance()
		if abort {
			return
		}
		if alts != nil {
			for _, a := range alts {
				a.explore(out)
			}
			return
		}
	}
}

// advance executes one elementary piece. It returns alternatives, or
// abort=true when the path is disabled.
func (r *run) advance() (alts []*run, abort bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(disabled); ok {
				alts, abort = nil, true
				return
			}
			panic(x)
		}
	}()
	f := r.fr()
	if len(f.acts) == 0 {
		r.endFrame(starlark.None, false)
		return nil, false
	}
	a := f.acts[len(f.acts)-1]
	switch a.kind {
	case "block":
		switch a.flow {
		case ast.Flow_FLOW_ATOMIC, ast.Flow_FLOW_SERIAL:
			if a.pos >= len(a.blk.Stmts) {
				r.popBlock()
				return nil, false
			}
			s := a.blk.Stmts[a.pos]
			a.pos++
			return r.exec(s)
		case ast.Flow_FLOW_ONEOF:
			if a.pos == 1 {
				r.popBlock()
				return nil, false
			}
			for i := range a.blk.Stmts {
				n := r.clone()
				na := n.fr().acts[len(n.fr().acts)-1]
				na.pos = 1
				al, ab := n.execCatch(a.blk.Stmts[i])
				if ab {
					continue
				}
				if al != nil {
					alts = append(alts, al...)
				} else {
					alts = append(alts, n)
				}
			}
			if alts == nil {
				return nil, true
			}
			return alts, false
		case ast.Flow_FLOW_PARALLEL:
			left := 0
			for i := range a.blk.Stmts {
				if a.done&(1<<i) != 0 {
					continue
				}
				left++
				n := r.clone()
				na := n.fr().acts[len(n.fr().acts)-1]
				na.done |= 1 << i
				al, ab := n.execCatch(a.blk.Stmts[i])
				if ab {
					continue
				}
				if al != nil {
					alts = append(alts, al...)
				} else {
					alts = append(alts, n)
				}
			}
			if left == 0 {
				r.popBlock()
				return nil, false
			}
			if alts == nil {
				return nil, true
			}
			return alts, false
		}
		panic("unknown flow")
	case "for":
		if len(a.rem) == 0 {
			r.popAct()
			r.endOfStmt()
			return nil, false
		}
		if a.flow == ast.Flow_FLOW_PARALLEL {
			for i := range a.rem {
				n := r.clone()
				na := n.fr().acts[len(n.fr().acts)-1]
				n.fr().locals[na.v] = na.rem[i]
				na.rem = append(append([]Value(nil), na.rem[:i]...), na.rem[i+1:]...)
				n.pushBlock(na.f.Block)
				alts = append(alts, n)
			}
			return alts, false
		}
		f.locals[a.v] = a.rem[0]
		a.rem = a.rem[1:]
		r.pushBlock(a.f.Block)
		return nil, false
	case "while":
		if r.c.eval(f, a.w.PyExpr).Truth() {
			r.pushBlock(a.w.Block)
		} else {
			r.popAct()
			r.endOfStmt()
		}
		return nil, false
	case "any":
		r.popAct()
		r.nested = true
		r.endOfStmt()
		r.nested = false
		return nil, false
	}
	panic("unknown act " + a.kind)
}

func (r *run) execCatch(s *ast.Statement) (alts []*run, abort bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(disabled); ok {
				alts, abort = nil, true
				return
			}
			panic(x)
		}
	}()
	return r.exec(s)
}

func (r *run) flow() ast.Flow {
	f := r.fr()
	for i := len(f.acts) - 1; i >= 0; i-- {
		return f.acts[i].flow
	}
	return ast.Flow_FLOW_ATOMIC
}

func (r *run) pushBlock(b *ast.Block) {
	fl := b.Flow
	if fl == ast.Flow_FLOW_UNKNOWN {
		fl = r.flow()
	}
	f := r.fr()
	f.acts = append(f.acts, &act{kind: "block", blk: b, flow: fl})
}

func (r *run) popAct() {
	f := r.fr()
	f.acts = f.acts[:len(f.acts)-1]
}

func (r *run) popBlock() {
	r.popAct()
	if len(r.fr().acts) == 0 {
		return // end of frame handled by advance
	}
	// A loop or choice whose body ended: the body counts as one statement.
	r.nested = true
	r.endOfStmt()
	r.nested = false
}

// endOfStmt: a statement directly inside the current top act has ended.
func (r *run) endOfStmt() {
	f := r.fr()
	if len(f.acts) == 0 {
		return
	}
	a := f.acts[len(f.acts)-1]
	if a.kind == "any" { // body of `oneof v in ...`: ends with the statement itself
		return
	}
	switch a.flow {
	case ast.Flow_FLOW_SERIAL:
		if r.enabled {
			r.doYield()
		}
	case ast.Flow_FLOW_PARALLEL:
		// the block ends with its last statement, unless that is itself a block
		if r.enabled && (r.nested || !(a.kind == "block" && r.ended(a))) {
			r.doYield()
		}
	}
}

// doYield marks the yield and eagerly closes everything that has ended.
func (r *run) doYield() {
	r.yielded = true
	for {
		f := r.fr()
		if len(f.acts) == 0 {
			r.endFrame(starlark.None, true)
			if r.finished {
				return
			}
			continue
		}
		a := f.acts[len(f.acts)-1]
		if a.kind == "block" && r.ended(a) {
			r.popAct()
			continue
		}
		if a.kind == "any" {
			r.popAct()
			continue
		}
		return
	}
}

func (r *run) ended(a *act) bool {
	switch a.flow {
	case ast.Flow_FLOW_ONEOF:
		return a.pos == 1
	case ast.Flow_FLOW_PARALLEL:
		return a.done == 1<<len(a.blk.Stmts)-1
	}
	return a.pos >= len(a.blk.Stmts)
}

// endFrame returns from the current frame.
func (r *run) endFrame(val Value, yielding bool) {
	t := r.th()
	f := r.fr()
	if f.kind == "roleinit" {
		r.snapshotInit(f.self)
	}
	if f.top {
		for k, v := range f.locals {
			if r.topLevel(k) {
				r.c.State[k] = v
			}
		}
	}
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		if val != starlark.None {
			if f.kind != "function" { // nobody receives the result of a message
				r.returns[t.root] = val
			}
			r.enabled = true
		}
		r.c.threads[r.t] = nil
		r.finished = true
		return
	}
	caller := r.fr()
	if f.kind == "function" {
		r.message(caller, f.self, f.name, "return "+new(canon.R).Val(val))
	}
	for _, v := range f.ret {
		r.c.assign(caller, v, val)
		r.enabled = true
	}
	if !yielding {
		r.endOfStmt()
	}
}

func (r *run) topLevel(name string) bool { return r.c.spec.initVars()[name] }

// initVars: names declared by statements at the top level of Init (not inside
// nested blocks).
func (s *Spec) initVars() map[string]bool {
	m := map[string]bool{}
	for _, a := range s.File.Actions {
		if a.Name != "Init" {
			continue
		}
		for _, st := range a.Block.Stmts {
			switch {
			case st.PyStmt != nil:
				f, err := fileOpts.Parse("x", st.PyStmt.Code, 0)
				if err != nil {
					continue
				}
				for _, x := range f.Stmts {
					if as, ok := x.(*syntax.AssignStmt); ok {
						names(as.LHS, m)
					}
				}
			case st.AnyStmt != nil && st.AnyStmt.Block == nil:
				m[st.AnyStmt.LoopVars[0]] = true
			case st.CallStmt != nil:
				for _, v := range st.CallStmt.Vars {
					m[v] = true
				}
			}
		}
	}
	return m
}

func names(e syntax.Expr, m map[string]bool) {
	switch x := e.(type) {
	case *syntax.Ident:
		m[x.Name] = true
	case *syntax.ParenExpr:
		names(x.X, m)
	case *syntax.TupleExpr:
		for _, y := range x.List {
			names(y, m)
		}
	case *syntax.ListExpr:
		for _, y := range x.List {
			names(y, m)
		}
	}
}

func (s *Spec) isEphemeral(role, field string) bool {
	d, ok := s.durab[role]
	if !ok {
		return false
	}
	if len(d.durable) > 0 {
		return !d.durable[field]
	}
	if len(d.ephemeral) > 0 {
		return d.ephemeral[field]
	}
	return false
}
func (s *Spec) hasDurability(role string) bool {
	d, ok := s.durab[role]
	return ok && len(d.durable)+len(d.ephemeral) > 0
}

func (r *run) snapshotInit(ro *Role) {
	cp := &copier{m: map[any]any{}}
	for _, x := range r.c.Roles {
		cp.m[x] = x
	}
	ro.Init = map[string]Value{}
	for k, v := range ro.Fields {
		if r.c.spec.isEphemeral(ro.Name, k) {
			ro.Init[k] = cp.val(v)
		}
	}
}

func (r *run) exec(s *ast.Statement) ([]*run, bool) {
	f := r.fr()
	c := r.c
	c.fresh = nil
	rolesBefore := len(c.Roles)
	if s.Label != "" {
		r.labels = append(r.labels, f.short()+"."+s.Label)
	}
	switch {
	case s.PyStmt != nil:
		r.enabled = true
		if s.PyStmt.Code != "pass" {
			c.execPy(f, s.PyStmt.Code)
		}
		if r.roleCreated(rolesBefore) {
			return nil, false
		}
		r.endOfStmt()
	case s.Block != nil:
		r.pushBlock(s.Block)
	case s.IfStmt != nil:
		for _, b := range s.IfStmt.Branches {
			if c.eval(f, b.Condition).Truth() {
				r.pushBlock(b.Block)
				return nil, false
			}
		}
		r.endOfStmt()
	case s.AnyStmt != nil:
		r.progress = false
		a := s.AnyStmt
		v := c.eval(f, a.PyExpr)
		n := 0
		it := v.(starlark.Iterable).Iterate()
		var x Value
		for it.Next(&x) {
			n++
		}
		it.Done()
		if n > 0 && a.Block == nil {
			r.enabled = true
		}
		var alts []*run
		for i := 0; i < n; i++ {
			k := r.clone()
			kf := k.fr()
			// evaluate in the copy so that the element belongs to the copy
			var xs Value
			kv := k.c.eval(kf, a.PyExpr)
			kit := kv.(starlark.Iterable).Iterate()
			for j := 0; j <= i; j++ {
				kit.Next(&xs)
			}
			kit.Done()
			k.choices = append(k.choices, Choice{Fair: a.GetFairness().GetLevel(), Val: canon.Val(xs), Key: fmt.Sprintf("%p|%v|%s", a, kf.self, canon.Val(xs))})
			if a.Block == nil {
				k.c.assign(kf, a.LoopVars[0], xs)
			} else {
				kf.locals[a.LoopVars[0]] = xs
			}
			if a.Condition != "" && !k.c.eval(kf, a.Condition).Truth() {
				continue
			}
			if a.Block != nil {
				fl := a.Flow
				if fl == ast.Flow_FLOW_UNKNOWN {
					fl = k.flow()
				}
				kf.acts = append(kf.acts, &act{kind: "any", flow: fl})
				k.pushBlock(a.Block)
			}
			alts = append(alts, k)
		}
		if len(alts) == 0 {
			if a.Block == nil {
				return nil, true
			}
			r.endOfStmt()
			return nil, false
		}
		return alts, false
	case s.ForStmt != nil:
		v := c.eval(f, s.ForStmt.PyExpr)
		a := &act{kind: "for", f: s.ForStmt, flow: s.ForStmt.Flow, v: s.ForStmt.LoopVars[0]}
		if a.flow == ast.Flow_FLOW_UNKNOWN {
			a.flow = r.flow()
		}
		it := v.(starlark.Iterable).Iterate()
		var x Value
		for it.Next(&x) {
			a.rem = append(a.rem, x)
		}
		it.Done()
		f.acts = append(f.acts, a)
	case s.WhileStmt != nil:
		a := &act{kind: "while", w: s.WhileStmt, flow: s.WhileStmt.Flow}
		if a.flow == ast.Flow_FLOW_UNKNOWN {
			a.flow = r.flow()
		}
		f.acts = append(f.acts, a)
	case s.BreakStmt != nil:
		for f.acts[len(f.acts)-1].kind != "for" && f.acts[len(f.acts)-1].kind != "while" {
			r.popAct()
		}
		r.popAct()
		r.endOfStmt()
	case s.ContinueStmt != nil:
		for f.acts[len(f.acts)-1].kind != "for" && f.acts[len(f.acts)-1].kind != "while" {
			r.popAct()
		}
		r.endOfStmt()
	case s.RequireStmt != nil:
		r.progress = false
		if !c.eval(f, s.RequireStmt.Condition).Truth() {
			return nil, true
		}
		r.endOfStmt()
	case s.ReturnStmt != nil:
		var v Value = starlark.None
		if s.ReturnStmt.PyExpr != "" {
			v = c.eval(f, s.ReturnStmt.PyExpr)
		}
		f.acts = nil
		r.endFrame(v, false)
	case s.CallStmt != nil:
		return r.call(s.CallStmt)
	default:
		panic("unknown statement")
	}
	return nil, false
}

func (r *run) roleCreated(before int) bool {
	if len(r.c.Roles) == before {
		return false
	}
	if len(r.c.Roles) > before+1 {
		panic(fmt.Errorf("reference interpreter: several roles in one statement"))
	}
	n := r.c.Roles[before]
	for _, a := range r.c.spec.roles[n.Name].Actions {
		if a.Name == "Init" {
			f := &frame{name: n.Name + ".Init", kind: "roleinit", self: n, locals: map[string]Value{}, args: map[string]Value{}}
			r.th().frames = append(r.th().frames, f)
			r.pushBlock(a.Block)
			return true
		}
	}
	return false
}

func (r *run) call(cs *ast.CallStmt) ([]*run, bool) {
	f := r.fr()
	c := r.c
	e := c.env(f)
	name := cs.Name
	var self *Role
	var stub *Stub
	if cs.Receiver != "" {
		rv, ok := e[cs.Receiver]
		if !ok {
			panic(fmt.Errorf("reference interpreter: receiver %s unknown", cs.Receiver))
		}
		switch x := rv.(type) {
		case *Role:
			self = x
			name = x.Name + "." + name
		case *Stub:
			self, stub = x.R, x
			name = x.R.Name + "." + name
		default:
			name = ""
		}
	}
	fn := c.spec.funcs[name]
	if fn == nil {
		code := ""
		if len(cs.Vars) > 0 {
			code = strings.Join(cs.Vars, ", ") + " = "
		}
		if cs.Receiver != "" {
			code += cs.Receiver + "."
		}
		var as []string
		for _, a := range cs.Args {
			if a.Name != "" {
				as = append(as, a.Name+"="+a.PyExpr)
			} else {
				as = append(as, a.PyExpr)
			}
		}
		r.enabled = true
		before := len(c.Roles)
		c.execPy(f, code+cs.Name+"("+strings.Join(as, ", ")+")")
		if r.roleCreated(before) {
			return nil, false
		}
		r.endOfStmt()
		return nil, false
	}
	nf := &frame{name: name, kind: "function", self: self, locals: map[string]Value{}, args: map[string]Value{}, ret: cs.Vars}
	for i, a := range cs.Args {
		v := c.eval(f, a.PyExpr)
		if a.Name != "" {
			nf.args[a.Name] = v
		} else {
			nf.args[fn.Params[i].Name] = v
		}
	}
	for _, p := range fn.Params {
		if _, ok := nf.args[p.Name]; !ok {
			nf.args[p.Name] = c.eval(f, p.DefaultPyExpr)
		}
	}
	r.labels = append(r.labels, cs.Name+".call")
	lossy := ""
	if r.callFlow() != ast.Flow_FLOW_ATOMIC {
		lossy = " lossy"
	}
	r.message(f, self, name, new(canon.R).Dict(nf.args)+lossy)
	if stub != nil {
		r.enabled = true
		cp := &copier{m: map[any]any{}}
		_ = cp
		c.Msgs = append(c.Msgs, &Msg{Chan: stub.C, To: self, Fn: cs.Name, Args: nf.args})
		r.endOfStmt()
		return nil, false
	}
	if f.self == nil && r.callFlow() != ast.Flow_FLOW_ATOMIC {
		panic(ErrUnsupported)
	}
	r.th().frames = append(r.th().frames, nf)
	r.pushBlock(fn.Block)
	return nil, false
}

// message records a call between a role and another or the environment.
func (r *run) message(caller *frame, to *Role, fn, what string) {
	if caller.self == to {
		return
	}
	id := func(ro *Role) string {
		if ro == nil {
			return ""
		}
		return ro.String()
	}
	r.calls = append(r.calls, fmt.Sprintf("%s>%s %s(%s)", id(caller.self), id(to), fn[strings.Index(fn, ".")+1:], what))
}

// short is the name of the action, with its role, or of the function.
func (f *frame) short() string {
	name := f.name[strings.Index(f.name, ".")+1:]
	if f.kind == "action" && f.self != nil {
		return f.self.Name + "." + name
	}
	return name
}

// ErrUnsupported: top-level functions may be called only in atomic context.
var ErrUnsupported = fmt.Errorf("unsupported specification")

func (r *run) callFlow() ast.Flow {
	f := r.fr()
	for i := len(f.acts) - 1; i >= 0; i-- {
		if f.acts[i].flow != ast.Flow_FLOW_ONEOF {
			return f.acts[i].flow
		}
	}
	return ast.Flow_FLOW_ATOMIC
}

// ---- steps of a configuration

// Init returns the steps that run the Init action from the empty state.
func (s *Spec) Init() []*Step {
	c := &Cfg{spec: s, State: map[string]Value{}, Counts: map[string]int{}, roleN: map[string]int{}}
	var init *ast.Action
	for _, a := range s.File.Actions {
		if a.Name == "Init" {
			init = a
		}
	}
	if init == nil {
		panic("no Init")
	}
	t := &thread{root: "Init", fairness: init.GetFairness().GetLevel()}
	c.threads = []*thread{t}
	t.frames = []*frame{{name: "Init", kind: "action", top: true, locals: map[string]Value{}, args: map[string]Value{}}}
	r := &run{c: c, t: 0, returns: map[string]Value{}}
	r.pushBlock(init.Block)
	return r.outcomes("Init", "init", t.fairness)
}

func (r *run) outcomes(label, kind string, fair ast.FairnessLevel) []*Step {
	var outs []*run
	r.explore(&outs)
	var st []*Step
	for _, o := range outs {
		rr := &canon.R{}
		if len(o.c.spec.Doms()) > 0 {
			o.c.fresh = nil
			if kind != "init" && !o.c.allowed() {
				continue
			}
			o.c.dropRoles()
		}
		st = append(st, &Step{Label: label, Kind: kind, Thread: r.t, To: o.c, Returns: rr.Dict(o.returns), Rets: o.returns, Fair: fair, Choices: o.choices, Labels: o.labels, Calls: o.calls})
	}
	return st
}

func (s *Spec) limit(name string) *ast.Options { return s.Opt.GetActionOptions()[name] }

// exceeds applies the configured per-action limits.
func (c *Cfg) exceeds(role *Role, a *ast.Action) bool {
	s := c.spec
	if s.NoBounds {
		return false
	}
	inst := a.Name
	if role != nil {
		inst = role.String() + "." + a.Name
	}
	conc := func(match func(string) bool) int {
		n := 0
		for _, t := range c.threads {
			if t != nil && match(t.root) {
				n++
			}
		}
		return n
	}
	cnt := func(match func(string) bool) int {
		n := 0
		for k, v := range c.Counts {
			if match(k) {
				n += v
			}
		}
		return n
	}
	check := func(o *ast.Options, match func(string) bool) bool {
		if o == nil {
			return false
		}
		if o.MaxActions > 0 && cnt(match) >= int(o.MaxActions) {
			return true
		}
		return o.MaxConcurrentActions > 0 && conc(match) >= int(o.MaxConcurrentActions)
	}
	one := func(k string) bool { return k == inst }
	if check(s.limit(inst), one) {
		return true
	}
	if role == nil {
		return false
	}
	if check(s.limit(role.Name+"#."+a.Name), one) {
		return true
	}
	all := func(k string) bool {
		return strings.HasPrefix(k, role.Name+"#") && strings.HasSuffix(k, "."+a.Name)
	}
	return check(s.limit(role.Name+"."+a.Name), all)
}

// Succ lists every step the configuration allows within the bounds.
// Crash steps are included when crashes is set.
func (c *Cfg) Succ() []*Step {
	s := c.spec
	var out []*Step
	for i, t := range c.threads {
		if t == nil {
			continue
		}
		n := c.copy()
		r := &run{c: n, t: i, progress: true, returns: map[string]Value{}}
		out = append(out, r.outcomes("thread:"+t.root, "thread", t.fairness)...)
	}
	for j := range c.Msgs {
		n := c.copy()
		m := n.Msgs[j]
		n.Msgs = append(append([]*Msg(nil), n.Msgs[:j]...), n.Msgs[j+1:]...)
		fn := s.funcs[m.To.Name+"."+m.Fn]
		t := &thread{root: m.Fn}
		t.frames = []*frame{{name: m.Fn, kind: "function", self: m.To, locals: map[string]Value{}, args: m.Args}}
		i := n.addThread(t)
		r := &run{c: n, t: i, returns: map[string]Value{}}
		r.pushBlock(fn.Block)
		for _, st := range r.outcomes("message:"+m.To.String()+"."+m.Fn, "message", 0) {
			st.Msg = c.Msgs[j]
			out = append(out, st)
		}
	}
	if !s.NoBounds && (c.Depth >= int(s.Opt.Options.MaxActions) || c.ThreadCount() >= int(s.Opt.Options.MaxConcurrentActions)) {
		return out
	}
	for _, a := range s.File.Actions {
		if a.Name != "Init" {
			out = append(out, c.start(nil, a)...)
		}
	}
	for k, ro := range c.Roles {
		_ = ro
		for _, a := range s.roles[ro.Name].Actions {
			if a.Name != "Init" {
				out = append(out, c.startRole(k, a)...)
			}
		}
	}
	return out
}

func (n *Cfg) addThread(t *thread) int {
	for i, x := range n.threads {
		if x == nil {
			n.threads[i] = t
			return i
		}
	}
	n.threads = append(n.threads, t)
	return len(n.threads) - 1
}

func (c *Cfg) startRole(k int, a *ast.Action) []*Step {
	if c.exceeds(c.Roles[k], a) {
		return nil
	}
	n := c.copy()
	return n.launch(n.Roles[k], a)
}

func (c *Cfg) start(_ *Role, a *ast.Action) []*Step {
	if c.exceeds(nil, a) {
		return nil
	}
	return c.copy().launch(nil, a)
}

func (n *Cfg) launch(ro *Role, a *ast.Action) []*Step {
	name := a.Name
	if ro != nil {
		name = ro.String() + "." + a.Name
	}
	n.Depth++
	n.Counts[name]++
	t := &thread{root: name, fairness: a.GetFairness().GetLevel()}
	t.frames = []*frame{{name: name, kind: "action", self: ro, locals: map[string]Value{}, args: map[string]Value{}}}
	i := n.addThread(t)
	r := &run{c: n, t: i, returns: map[string]Value{}}
	r.pushBlock(a.Block)
	return r.outcomes(name, "action", t.fairness)
}

// Crash lists the crash steps possible right after a step of thread i
// (i<0: only role crashes).
func (c *Cfg) CrashThread(i int) *Cfg {
	if i < 0 || i >= len(c.threads) || c.threads[i] == nil {
		return nil
	}
	s := c.spec
	if !s.Opt.Options.GetCrashOnYield() {
		return nil
	}
	root := c.threads[i].root
	key := root
	if k := strings.Index(root, "#"); k >= 0 {
		if d := strings.Index(root, "."); d > k {
			key = root[:k] + root[d:]
		}
	}
	if o := s.limit(key); o != nil && o.CrashOnYield != nil && !o.GetCrashOnYield() {
		return nil
	}
	n := c.copy()
	n.threads[i] = nil
	return n
}

// CrashRole is the configuration after role k stops: its ephemeral fields are
// back at their initial values and whatever runs in it is gone. A role that
// waits for a call it made to another role does not stop meanwhile.
func (c *Cfg) CrashRole(k int) *Cfg {
	s := c.spec
	if !s.Opt.Options.GetCrashOnYield() || !s.hasDurability(c.Roles[k].Name) {
		return nil
	}
	for _, t := range c.threads {
		if t == nil {
			continue
		}
		top := len(t.frames) - 1
		for _, f := range t.frames[:top] {
			if f.self == c.Roles[k] && t.frames[top].self != c.Roles[k] {
				return nil
			}
		}
	}
	n := c.copy()
	ro := n.Roles[k]
	for i, t := range n.threads {
		if t != nil && t.frames[len(t.frames)-1].self == ro {
			n.threads[i] = nil
		}
	}
	cp := &copier{m: map[any]any{}}
	for _, x := range n.Roles {
		cp.m[x] = x
	}
	for f, v := range ro.Init {
		ro.Fields[f] = cp.val(v)
	}
	return n
}

// CheckAssertion evaluates a block-bodied assertion over the state.
func (c *Cfg) CheckAssertion(inv *ast.Invariant, args map[string]Value) Value {
	n := c.copy()
	t := &thread{root: inv.Name}
	t.frames = []*frame{{name: inv.Name, kind: "invariant", locals: map[string]Value{}, args: args}}
	if args == nil {
		t.frames[0].args = map[string]Value{}
	}
	n.threads = append(n.threads, t)
	r := &run{c: n, t: len(n.threads) - 1, returns: map[string]Value{}}
	r.pushBlock(inv.Block)
	for !r.finished {
		alts, abort := r.advance()
		if abort || alts != nil {
			panic("choice in assertion")
		}
	}
	if v, ok := r.returns[inv.Name]; ok {
		return v
	}
	return starlark.None
}

// NewCfg is a configuration without running actions.
func NewCfg(s *Spec, st map[string]Value, roles []*Role, msgs []*Msg) *Cfg {
	c := &Cfg{spec: s, State: st, Roles: roles, Msgs: msgs, Counts: map[string]int{}, roleN: map[string]int{}}
	for _, r := range roles {
		if r.Id+1 > c.roleN[r.Name] {
			c.roleN[r.Name] = r.Id + 1
		}
	}
	return c
}

// Roots names the running actions.
func (c *Cfg) Roots() []string {
	var out []string
	for _, t := range c.threads {
		if t != nil {
			out = append(out, stripID(t.root))
		}
	}
	return out
}
