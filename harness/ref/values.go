// Package ref is an independent reference interpreter of the specification
// language. It works on the AST directly, shares no code with the checker
// (only the third-party starlark expression evaluator), copies the complete
// configuration for every alternative and never merges or reduces anything
// except configurations that are structurally identical, aliasing included.
package ref

import (
	"fmt"
	"sort"
	"strings"

	"go.starlark.net/lib/math"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
	"go.starlark.net/syntax"

	"verif/canon"
)

type Value = starlark.Value

// Role is the reference's role instance.
type Role struct {
	Name   string
	Id     int
	Sym    bool
	Params map[string]Value
	Fields map[string]Value
	Init   map[string]Value // values of ephemeral fields when Init finished
	Funcs  map[string]bool
}

func (r *Role) String() string        { return r.Name + "#" + fmt.Sprint(r.Id) }
func (r *Role) Type() string          { return "role" }
func (r *Role) Freeze()               {}
func (r *Role) Truth() starlark.Bool  { return true }
func (r *Role) Hash() (uint32, error) { return starlark.String(r.String()).Hash() }
func (r *Role) Attr(n string) (Value, error) {
	if n == "__id__" && r.Sym {
		return &Sym{&canon.Dom{Name: r.Name, Kind: "nominal", Role: true}, int64(r.Id)}, nil
	}
	if n == "__id__" {
		return starlark.String(r.String()), nil
	}
	if v, ok := r.Fields[n]; ok {
		return v, nil
	}
	if v, ok := r.Params[n]; ok {
		return v, nil
	}
	return nil, nil
}
func (r *Role) AttrNames() []string { return sortedKeys(r.Fields) }
func (r *Role) SetField(n string, v Value) error {
	if _, ok := r.Params[n]; ok {
		return fmt.Errorf("immutable param %s", n)
	}
	r.Fields[n] = v
	return nil
}

// Record is a mutable record.
type Record struct{ F map[string]Value }

func (r *Record) String() string {
	var b strings.Builder
	b.WriteString("record(")
	for i, k := range sortedKeys(r.F) {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(k + " = " + r.F[k].String())
	}
	b.WriteString(")")
	return b.String()
}
func (r *Record) Type() string          { return "record" }
func (r *Record) Freeze()               {}
func (r *Record) Truth() starlark.Bool  { return true }
func (r *Record) Hash() (uint32, error) { return 0, fmt.Errorf("unhashable: record") }
func (r *Record) Attr(n string) (Value, error) {
	if v, ok := r.F[n]; ok {
		return v, nil
	}
	return nil, nil
}
func (r *Record) AttrNames() []string              { return sortedKeys(r.F) }
func (r *Record) SetField(n string, v Value) error { r.F[n] = v; return nil }
func (r *Record) CompareSameType(op syntax.Token, y_ Value, depth int) (bool, error) {
	y := y_.(*Record)
	eq := len(r.F) == len(y.F)
	if eq {
		for k, v := range r.F {
			w, ok := y.F[k]
			if !ok {
				eq = false
				break
			}
			e, err := starlark.EqualDepth(v, w, depth-1)
			if err != nil {
				return false, err
			}
			if !e {
				eq = false
				break
			}
		}
	}
	switch op {
	case syntax.EQL:
		return eq, nil
	case syntax.NEQ:
		return !eq, nil
	}
	return false, fmt.Errorf("record: %s not supported", op)
}

// Coll is a list-backed generic set / bag / generic map.
type Coll struct {
	Kind string // genericset, bag, genericmap
	E    []Value
	V    []Value // values for genericmap
}

func (c *Coll) String() string        { return c.Kind }
func (c *Coll) Type() string          { return c.Kind }
func (c *Coll) Freeze()               {}
func (c *Coll) Truth() starlark.Bool  { return len(c.E) > 0 }
func (c *Coll) Hash() (uint32, error) { return 0, fmt.Errorf("unhashable: %s", c.Kind) }
func (c *Coll) Len() int              { return len(c.E) }
func (c *Coll) find(v Value) int {
	for i, e := range c.E {
		if eq, err := starlark.Equal(e, v); err == nil && eq {
			return i
		}
	}
	return -1
}

type collIter struct {
	e []Value
	i int
}

func (it *collIter) Next(p *Value) bool {
	if it.i < len(it.e) {
		*p = it.e[it.i]
		it.i++
		return true
	}
	return false
}
func (it *collIter) Done() {}
func (c *Coll) Iterate() starlark.Iterator {
	return &collIter{e: append([]Value(nil), c.E...)}
}
func (c *Coll) Binary(op syntax.Token, y Value, side starlark.Side) (Value, error) {
	if op == syntax.IN && side == starlark.Right {
		return starlark.Bool(c.find(y) >= 0), nil
	}
	return nil, nil
}
func (c *Coll) Get(k Value) (Value, bool, error) {
	i := c.find(k)
	if i < 0 {
		return nil, false, nil
	}
	if c.Kind != "genericmap" {
		return starlark.None, true, nil
	}
	return c.V[i], true, nil
}
func (c *Coll) SetKey(k, v Value) error {
	if c.Kind != "genericmap" {
		return fmt.Errorf("not a map")
	}
	if i := c.find(k); i >= 0 {
		c.V[i] = v
	} else {
		c.E = append(c.E, k)
		c.V = append(c.V, v)
	}
	return nil
}

// Chan and Stub model message channels.
type Chan struct{ Id int }

func (c *Chan) String() string        { return fmt.Sprintf("channel#%d", c.Id) }
func (c *Chan) Type() string          { return "Channel" }
func (c *Chan) Freeze()               {}
func (c *Chan) Truth() starlark.Bool  { return true }
func (c *Chan) Hash() (uint32, error) { return 0, fmt.Errorf("unhashable: Channel") }
func (c *Chan) AttrNames() []string   { return []string{"stub"} }
func (c *Chan) Attr(n string) (Value, error) {
	if n == "stub" {
		return starlark.NewBuiltin("stub", func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, _ []starlark.Tuple) (Value, error) {
			return &Stub{R: a[0].(*Role), C: c}, nil
		}), nil
	}
	return nil, nil
}

type Stub struct {
	R *Role
	C *Chan
}

func (s *Stub) String() string               { return "stub(" + s.R.String() + "," + s.C.String() + ")" }
func (s *Stub) Type() string                 { return "RoleStub" }
func (s *Stub) Freeze()                      {}
func (s *Stub) Truth() starlark.Bool         { return true }
func (s *Stub) Hash() (uint32, error)        { return 0, fmt.Errorf("unhashable: RoleStub") }
func (s *Stub) Attr(n string) (Value, error) { return s.R.Attr(n) }
func (s *Stub) AttrNames() []string          { return s.R.AttrNames() }

func sortedKeys(m map[string]Value) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func first(a starlark.Tuple) Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func mkColl(kind string) *starlark.Builtin {
	return starlark.NewBuiltin(kind, func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		c := &Coll{Kind: kind}
		if o, ok := first(args).(*Coll); ok && kind == "genericmap" && o.Kind == kind {
			c = o.copied()
			args = nil
		}
		if m, ok := first(args).(starlark.IterableMapping); ok && kind == "genericmap" {
			for _, t := range m.Items() {
				_ = c.SetKey(t[0], t[1])
			}
		} else if len(args) == 1 {
			l, err := elems(args[0])
			if err != nil {
				return nil, err
			}
			for _, x := range l {
				if kind == "genericmap" {
					t := x.(starlark.Indexable)
					_ = c.SetKey(t.Index(0), t.Index(1))
				} else {
					c.put(x)
				}
			}
		}
		for _, t := range kw {
			if kind != "genericmap" {
				return nil, fmt.Errorf("%s: no such parameter", kind)
			}
			_ = c.SetKey(t[0], t[1])
		}
		return c, nil
	})
}

func builtins() starlark.StringDict {
	m := symBuiltins()
	for k, v := range plainBuiltins() {
		m[k] = v
	}
	return m
}

func plainBuiltins() starlark.StringDict {
	return starlark.StringDict{
		"struct": starlark.NewBuiltin("struct", starlarkstruct.Make),
		"record": starlark.NewBuiltin("record", func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			if len(args) > 0 {
				return nil, fmt.Errorf("record: unexpected positional arguments")
			}
			r := &Record{F: map[string]Value{}}
			for _, k := range kw {
				r.F[string(k[0].(starlark.String))] = k[1]
			}
			return r, nil
		}),
		"genericset": mkColl("genericset"),
		"genericmap": mkColl("genericmap"),
		"bag":        mkColl("bag"),
		"math":       math.Module,
		"sum":        starlark.NewBuiltin("sum", sum),
		"itertools":  itertools(),
		"enum":       starlark.NewBuiltin("enum", enum),
		"deepcopy": starlark.NewBuiltin("deepcopy", func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			return (&copier{m: map[any]any{}}).val(args[0]), nil
		}),
	}
}

// copier deep-copies values, preserving sharing inside one configuration.
type copier struct{ m map[any]any }

func (c *copier) val(v Value) Value {
	switch x := v.(type) {
	case *starlark.List:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := starlark.NewList(nil)
		c.m[x] = n
		for i := 0; i < x.Len(); i++ {
			_ = n.Append(c.val(x.Index(i)))
		}
		return n
	case starlark.Tuple:
		n := make(starlark.Tuple, len(x))
		for i := range x {
			n[i] = c.val(x[i])
		}
		return n
	case *starlark.Dict:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := starlark.NewDict(x.Len())
		c.m[x] = n
		for _, it := range x.Items() {
			_ = n.SetKey(c.val(it[0]), c.val(it[1]))
		}
		return n
	case *starlark.Set:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := starlark.NewSet(x.Len())
		c.m[x] = n
		it := x.Iterate()
		defer it.Done()
		var e Value
		for it.Next(&e) {
			_ = n.Insert(c.val(e))
		}
		return n
	case *starlarkstruct.Struct:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		d := starlark.StringDict{}
		x.ToStringDict(d)
		for k, w := range d {
			d[k] = c.val(w)
		}
		n := starlarkstruct.FromStringDict(x.Constructor(), d)
		c.m[x] = n
		return n
	case *Record:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := &Record{F: map[string]Value{}}
		c.m[x] = n
		for k, w := range x.F {
			n.F[k] = c.val(w)
		}
		return n
	case *Coll:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := &Coll{Kind: x.Kind}
		c.m[x] = n
		for _, w := range x.E {
			n.E = append(n.E, c.val(w))
		}
		for _, w := range x.V {
			n.V = append(n.V, c.val(w))
		}
		return n
	case *Role:
		if y, ok := c.m[x]; ok {
			return y.(Value)
		}
		n := &Role{Name: x.Name, Id: x.Id, Sym: x.Sym, Funcs: x.Funcs, Params: map[string]Value{}, Fields: map[string]Value{}, Init: map[string]Value{}}
		c.m[x] = n
		for k, w := range x.Params {
			n.Params[k] = c.val(w)
		}
		for k, w := range x.Fields {
			n.Fields[k] = c.val(w)
		}
		ic := &copier{m: map[any]any{}}
		for k, r := range c.m { // roles keep their identity inside the snapshot
			if _, ok := k.(*Role); ok {
				ic.m[k] = r
			}
		}
		for k, w := range x.Init {
			n.Init[k] = ic.val(w)
		}
		return n
	case *Stub:
		return &Stub{R: c.val(x.R).(*Role), C: x.C}
	default:
		return v // None, bool, int, float, string, bytes, range, function, Chan
	}
}

func (c *copier) dict(m map[string]Value) map[string]Value {
	if m == nil {
		return nil
	}
	n := make(map[string]Value, len(m))
	for _, k := range sortedKeys(m) {
		n[k] = c.val(m[k])
	}
	return n
}
