package ref

import (
	"errors"
	"fmt"
	"slices"
	"sort"

	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
	"go.starlark.net/syntax"

	"verif/canon"
)

// SymDom is a symmetry domain, bound to a configuration while a statement runs.
type SymDom struct {
	canon.Dom
	cfg *Cfg
}

// noValue disables the transition: no value of a domain is available.
type noValue struct{ dom string }

func (e *noValue) Error() string { return "no value of " + e.dom + " is available" }

func (d *SymDom) String() string        { return "domain " + d.Name }
func (d *SymDom) Type() string          { return "symmetry_domain" }
func (d *SymDom) Freeze()               {}
func (d *SymDom) Truth() starlark.Bool  { return true }
func (d *SymDom) Hash() (uint32, error) { return starlark.String(d.Name).Hash() }

// Sym is a value of a domain.
type Sym struct {
	D  *canon.Dom
	Id int64
}

func (s *Sym) GetPrefix() string     { return s.D.Name }
func (s *Sym) GetId() int64          { return s.Id }
func (s *Sym) String() string        { return fmt.Sprintf("%s%d", s.D.Name, s.Id) }
func (s *Sym) Type() string          { return "symmetric_value" }
func (s *Sym) Freeze()               {}
func (s *Sym) Truth() starlark.Bool  { return true }
func (s *Sym) Hash() (uint32, error) { return starlark.String(s.String()).Hash() }

func (s *Sym) CompareSameType(op syntax.Token, y_ Value, _ int) (bool, error) {
	y := y_.(*Sym)
	if s.D.Name != y.D.Name {
		return false, fmt.Errorf("values of different domains")
	}
	switch op {
	case syntax.EQL:
		return s.Id == y.Id, nil
	case syntax.NEQ:
		return s.Id != y.Id, nil
	}
	if s.D.Kind == "nominal" || s.D.Kind == "rotational" {
		return false, fmt.Errorf("%s values are not ordered", s.D.Kind)
	}
	switch op {
	case syntax.LT:
		return s.Id < y.Id, nil
	case syntax.LE:
		return s.Id <= y.Id, nil
	case syntax.GT:
		return s.Id > y.Id, nil
	case syntax.GE:
		return s.Id >= y.Id, nil
	}
	return false, fmt.Errorf("%s not supported", op)
}

func (s *Sym) Binary(op syntax.Token, y Value, side starlark.Side) (Value, error) {
	if s.D.Kind != "interval" && s.D.Kind != "rotational" {
		return nil, nil
	}
	mod := func(i int64) int64 {
		if s.D.Kind == "rotational" {
			l := int64(s.D.Limit)
			return (i%l + l) % l
		}
		return i
	}
	if i, ok := y.(starlark.Int); ok {
		n, _ := i.Int64()
		switch {
		case op == syntax.PLUS:
			return &Sym{s.D, mod(s.Id + n)}, nil
		case op == syntax.MINUS && side == starlark.Left:
			return &Sym{s.D, mod(s.Id - n)}, nil
		}
		return nil, nil
	}
	if o, ok := y.(*Sym); ok && op == syntax.MINUS && side == starlark.Left {
		if o.D.Name != s.D.Name {
			return nil, fmt.Errorf("values of different domains")
		}
		return starlark.MakeInt64(mod(s.Id - o.Id)), nil
	}
	return nil, nil
}

func (d *SymDom) full() []int64 {
	var out []int64
	for k := 0; k < d.Limit; k++ {
		i := int64(k)
		if d.Kind == "interval" {
			i += int64(d.Start)
		}
		out = append(out, i)
	}
	return out
}

// used lists the values in use, in order.
func (d *SymDom) used() []int64 {
	c := d.cfg
	u := canon.Used{}
	r := &canon.R{Used: u}
	c.render(r)
	m := map[int64]bool{}
	for i := range u[d.Name] {
		m[i] = true
	}
	for _, i := range c.fresh[d.Name] {
		m[i] = true
	}
	var out []int64
	for i := range m {
		out = append(out, i)
	}
	slices.Sort(out)
	return out
}

// active adds the values that exist from the start.
func (d *SymDom) active() []int64 {
	u := d.used()
	if d.Materialize {
		u = append(u, d.full()...)
		slices.Sort(u)
		u = slices.Compact(u)
	}
	return u
}

func (d *SymDom) take(i int64) *Sym {
	if d.cfg.fresh == nil {
		d.cfg.fresh = map[string][]int64{}
	}
	d.cfg.fresh[d.Name] = append(d.cfg.fresh[d.Name], i)
	return d.val(i)
}

func (d *SymDom) val(i int64) *Sym {
	dom := d.Dom
	return &Sym{&dom, i}
}

const ordGap = 1 << 24

func (d *SymDom) freshVal() (Value, error) {
	if d.Materialize {
		return nil, fmt.Errorf("all values of %s exist already", d.Name)
	}
	u := d.used()
	if len(u) >= d.Limit {
		return nil, &noValue{d.Name}
	}
	var next int64
	switch d.Kind {
	case "nominal":
		for slices.Contains(u, next) {
			next++
		}
	case "ordinal":
		if len(u) > 0 {
			next = u[len(u)-1] + ordGap
		}
	case "interval":
		next = int64(d.Start)
		if len(u) > 0 {
			next = u[len(u)-1] + 1
			if next-u[0] > int64(d.Divergence) {
				return nil, &noValue{d.Name}
			}
		}
	case "rotational":
		last, ok := d.cfg.last[d.Name]
		if !ok {
			last = -1
		}
		for k := int64(1); ; k++ {
			next = (last + k) % int64(d.Limit)
			if !slices.Contains(u, next) {
				break
			}
		}
		if d.cfg.last == nil {
			d.cfg.last = map[string]int64{}
		}
		d.cfg.last[d.Name] = next
	}
	return d.take(next), nil
}

func (d *SymDom) list(ids []int64) Value {
	var out []Value
	for _, i := range ids {
		out = append(out, d.val(i))
	}
	return starlark.NewList(out)
}

func (d *SymDom) AttrNames() []string { return nil }
func (d *SymDom) Attr(n string) (Value, error) {
	if d.cfg == nil {
		if d.Materialize && n == "values" {
			return starlark.NewBuiltin(n, func(*starlark.Thread, *starlark.Builtin, starlark.Tuple, []starlark.Tuple) (Value, error) {
				return d.list(d.full()), nil
			}), nil
		}
		return nil, fmt.Errorf("the domain is used outside an action")
	}
	ext := func(last bool) (Value, error) {
		u := d.active()
		if len(u) == 0 {
			return d.freshVal()
		}
		if last {
			return d.val(u[len(u)-1]), nil
		}
		return d.val(u[0]), nil
	}
	unordered := d.Kind == "nominal" || d.Kind == "rotational"
	f := func(g func(a starlark.Tuple, kw []starlark.Tuple) (Value, error)) (Value, error) {
		return starlark.NewBuiltin(n, func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			return g(a, kw)
		}), nil
	}
	switch {
	case n == "fresh":
		return f(func(starlark.Tuple, []starlark.Tuple) (Value, error) { return d.freshVal() })
	case n == "values":
		return f(func(starlark.Tuple, []starlark.Tuple) (Value, error) { return d.list(d.active()), nil })
	case n == "choices" && unordered:
		return f(func(starlark.Tuple, []starlark.Tuple) (Value, error) {
			if !d.Materialize {
				var nv *noValue
				if _, err := d.freshVal(); err != nil && !errors.As(err, &nv) {
					return nil, err
				}
			}
			return d.list(d.active()), nil
		})
	case n == "choose" && unordered, n == "min" && !unordered:
		return f(func(starlark.Tuple, []starlark.Tuple) (Value, error) { return ext(false) })
	case n == "max" && !unordered:
		return f(func(starlark.Tuple, []starlark.Tuple) (Value, error) { return ext(true) })
	case n == "segments" && d.Kind == "ordinal":
		return f(func(a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			var after, before Value
			if err := starlark.UnpackArgs("segments", a, kw, "after?", &after, "before?", &before); err != nil {
				return nil, err
			}
			u := d.active()
			lim := func(v Value) *int64 {
				if s, ok := v.(*Sym); ok {
					return &s.Id
				}
				return nil
			}
			lo, hi := lim(after), lim(before)
			var out []Value
			for k := 0; k <= len(u); k++ {
				g := &gap{d: d}
				if k > 0 {
					g.left = &u[k-1]
				}
				if k < len(u) {
					g.right = &u[k]
				}
				if lo != nil && (g.left == nil || *g.left < *lo) || hi != nil && (g.right == nil || *g.right > *hi) {
					continue
				}
				out = append(out, g)
			}
			return starlark.NewList(out), nil
		})
	}
	return nil, nil
}

// gap is a segment of an ordinal domain.
type gap struct {
	d           *SymDom
	left, right *int64
}

func (g *gap) String() string        { return "segment" }
func (g *gap) Type() string          { return "symmetry_segment" }
func (g *gap) Freeze()               {}
func (g *gap) Truth() starlark.Bool  { return true }
func (g *gap) Hash() (uint32, error) { return 0, fmt.Errorf("unhashable") }
func (g *gap) AttrNames() []string   { return nil }
func (g *gap) Attr(n string) (Value, error) {
	if n != "fresh" {
		return nil, nil
	}
	return starlark.NewBuiltin(n, func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		if u := g.d.used(); len(u) >= g.d.Limit {
			return nil, &noValue{g.d.Name}
		}
		switch {
		case g.left == nil && g.right == nil:
			return g.d.take(0), nil
		case g.left == nil:
			return g.d.take(*g.right - ordGap), nil
		case g.right == nil:
			return g.d.take(*g.left + ordGap), nil
		}
		if *g.right-*g.left < 2 {
			return nil, fmt.Errorf("reference interpreter: the segment is exhausted")
		}
		return g.d.take(*g.left + (*g.right-*g.left)/2), nil
	}), nil
}

// bind gives the domain methods access to the configuration.
func (c *Cfg) bind(v Value) Value {
	switch x := v.(type) {
	case *SymDom:
		return &SymDom{x.Dom, c}
	case *gap:
		return &gap{&SymDom{x.d.Dom, c}, x.left, x.right}
	}
	return v
}

func mkDom(kind string) *starlark.Builtin {
	return starlark.NewBuiltin(kind, func(_ *starlark.Thread, b *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		d := &SymDom{Dom: canon.Dom{Kind: kind}}
		var div, lim Value
		if err := starlark.UnpackArgs(kind, a, kw, "name", &d.Name, "limit?", &lim, "divergence?", &div, "start?", &d.Start, "reflection?", &d.Reflection, "materialize?", &d.Materialize); err != nil {
			return nil, err
		}
		num := func(v Value) (int, bool) {
			if i, ok := v.(starlark.Int); ok {
				n, _ := i.Int64()
				return int(n), true
			}
			return 0, false
		}
		l, okL := num(lim)
		g, okG := num(div)
		switch {
		case okL && okG:
		case okL:
			g = l - 1
		case okG:
			l = g + 1
		default:
			return nil, fmt.Errorf("limit or divergence required")
		}
		d.Limit, d.Divergence = l, g
		return d, nil
	})
}

func symBuiltins() starlark.StringDict {
	m := starlark.StringDict{}
	for _, k := range []string{"nominal", "ordinal", "interval", "rotational"} {
		m[k] = mkDom(k)
	}
	return starlark.StringDict{
		"symmetry": &starlarkstruct.Module{Name: "symmetry", Members: m},
		"symmetric_values": starlark.NewBuiltin("symmetric_values", func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			d := &canon.Dom{Kind: "nominal", Materialize: true}
			if len(a) == 2 {
				d.Name = string(a[0].(starlark.String))
			}
			n, _ := a[len(a)-1].(starlark.Int).Int64()
			d.Limit = int(n)
			var t starlark.Tuple
			for i := int64(0); i < n; i++ {
				t = append(t, &Sym{d, i})
			}
			return t, nil
		}),
	}
}

// Doms lists the symmetry domains and symmetric roles of the specification.
func (s *Spec) Doms() map[string]*canon.Dom {
	if s.doms != nil {
		return s.doms
	}
	s.doms = map[string]*canon.Dom{}
	for _, v := range s.Consts {
		switch x := v.(type) {
		case *SymDom:
			d := x.Dom
			s.doms[d.Name] = &d
		case starlark.Indexable:
			for i := 0; i < x.Len(); i++ {
				if y, ok := x.Index(i).(*Sym); ok {
					s.doms[y.D.Name] = y.D
				}
			}
		}
	}
	for _, r := range s.File.Roles {
		if slices.Contains(r.Modifiers, "symmetric") {
			s.doms[r.Name] = &canon.Dom{Name: r.Name, Kind: "nominal", Role: true}
		}
	}
	return s.doms
}

// names lists the domains and roles whose names don't matter.
func (s *Spec) names() map[string]*canon.Dom {
	if s.Concrete {
		return nil
	}
	return s.Doms()
}

// allowed applies the limits of interval and ordinal domains to a state.
func (c *Cfg) allowed() bool {
	var u canon.Used
	for n, d := range c.spec.Doms() {
		if d.Kind != "interval" && d.Kind != "ordinal" {
			continue
		}
		if u == nil {
			u = canon.Used{}
			c.render(&canon.R{Used: u})
		}
		var ids []int64
		for i := range u[n] {
			ids = append(ids, i)
		}
		slices.Sort(ids)
		if len(ids) > d.Limit || d.Kind == "interval" && len(ids) > 0 && ids[len(ids)-1]-ids[0] > int64(d.Divergence) {
			return false
		}
	}
	return true
}

// dropRoles forgets the symmetric roles that nothing refers to any more.
func (c *Cfg) dropRoles() {
	sym := false
	for _, d := range c.spec.Doms() {
		sym = sym || d.Role
	}
	if !sym {
		return
	}
	seen := map[*Role]bool{}
	var val func(v Value)
	dict := func(m map[string]Value) {
		for _, v := range m {
			val(v)
		}
	}
	val = func(v Value) {
		switch x := v.(type) {
		case *Role:
			if !seen[x] {
				seen[x] = true
				dict(x.Fields)
				dict(x.Params)
			}
		case *Stub:
			val(x.R)
		case *Record:
			dict(x.F)
		case *starlarkstruct.Struct:
			for _, n := range x.AttrNames() {
				e, _ := x.Attr(n)
				val(e)
			}
		case *Coll:
			for _, e := range x.E {
				val(e)
			}
			for _, e := range x.V {
				val(e)
			}
		case *starlark.Dict:
			for _, t := range x.Items() {
				val(t[0])
				val(t[1])
			}
		case starlark.Iterable:
			it := x.Iterate()
			defer it.Done()
			var e Value
			for it.Next(&e) {
				val(e)
			}
		}
	}
	dict(c.State)
	for _, t := range c.threads {
		if t == nil {
			continue
		}
		for _, f := range t.frames {
			dict(f.locals)
			dict(f.args)
			if f.self != nil {
				val(f.self)
			}
			for _, a := range f.acts {
				for _, e := range a.rem {
					val(e)
				}
			}
		}
	}
	for _, m := range c.Msgs {
		val(m.To)
		dict(m.Args)
	}
	for _, r := range c.Roles {
		if d := c.spec.Doms()[r.Name]; d == nil {
			val(r)
		}
	}
	var keep []*Role
	for _, r := range c.Roles {
		if seen[r] {
			keep = append(keep, r)
		}
	}
	c.Roles = keep
}

// sortRoles puts the rendered roles in an order that names do not determine.
func sortRoles(l []string, r *canon.R) []string {
	if r.Ren != nil || r.Used != nil {
		sort.Strings(l)
	}
	return l
}
