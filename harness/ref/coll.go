package ref

import (
	"fmt"

	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
)

// This file is the mathematical model of the collection types: sets, multisets
// and maps as plain lists of elements compared with ==.

func elems(v Value) ([]Value, error) {
	it, ok := v.(starlark.Iterable)
	if !ok {
		return nil, fmt.Errorf("%s is not iterable", v.Type())
	}
	var out []Value
	i := it.Iterate()
	defer i.Done()
	var x Value
	for i.Next(&x) {
		out = append(out, x)
	}
	return out, nil
}

func (c *Coll) put(v Value) {
	if c.Kind == "bag" || c.find(v) < 0 {
		c.E = append(c.E, v)
	}
}

func (c *Coll) drop(v Value) (Value, bool) {
	i := c.find(v)
	if i < 0 {
		return nil, false
	}
	c.E = append(append([]Value(nil), c.E[:i]...), c.E[i+1:]...)
	var w Value = starlark.None
	if c.Kind == "genericmap" {
		w = c.V[i]
		c.V = append(append([]Value(nil), c.V[:i]...), c.V[i+1:]...)
	}
	return w, true
}

func (c *Coll) copied() *Coll {
	return &Coll{Kind: c.Kind, E: append([]Value(nil), c.E...), V: append([]Value(nil), c.V...)}
}

func (c *Coll) subset(l []Value) bool {
	d := &Coll{Kind: "genericset", E: l}
	for _, e := range c.E {
		if d.find(e) < 0 {
			return false
		}
	}
	return true
}

// Items lists the entries of a generic map.
func (c *Coll) items() []starlark.Tuple {
	var out []starlark.Tuple
	for i := range c.E {
		out = append(out, starlark.Tuple{c.E[i], c.V[i]})
	}
	return out
}

type collFn func(c *Coll, a []Value, kw []starlark.Tuple) (Value, error)

func one(f func(c *Coll, v Value) (Value, error)) collFn {
	return func(c *Coll, a []Value, kw []starlark.Tuple) (Value, error) {
		if len(a) != 1 || len(kw) > 0 {
			return nil, fmt.Errorf("want one argument")
		}
		return f(c, a[0])
	}
}

func none(f func(c *Coll) (Value, error)) collFn {
	return func(c *Coll, a []Value, kw []starlark.Tuple) (Value, error) {
		if len(a) != 0 || len(kw) > 0 {
			return nil, fmt.Errorf("want no argument")
		}
		return f(c)
	}
}

func dflt(f func(c *Coll, k, d Value) (Value, error)) collFn {
	return func(c *Coll, a []Value, kw []starlark.Tuple) (Value, error) {
		switch {
		case len(kw) > 0 || len(a) == 0 || len(a) > 2:
			return nil, fmt.Errorf("want one or two arguments")
		case len(a) == 1:
			return f(c, a[0], nil)
		}
		return f(c, a[0], a[1])
	}
}

func withList(f func(c *Coll, l []Value) (Value, error)) collFn {
	return one(func(c *Coll, v Value) (Value, error) {
		l, err := elems(v)
		if err != nil {
			return nil, err
		}
		return f(c, l)
	})
}

var clear = none(func(c *Coll) (Value, error) {
	c.E, c.V = nil, nil
	return starlark.None, nil
})

// Ambiguous is set when an element is removed of which the collection holds
// several that are equal and not the same: which one goes is not specified.
var Ambiguous bool

func remove(strict bool) collFn {
	return one(func(c *Coll, v Value) (Value, error) {
		var first Value
		for _, e := range c.E {
			if ok, _ := starlark.Equal(e, v); !ok {
				continue
			}
			if _, changes := e.(*starlark.List); changes && first != nil && first != e {
				Ambiguous = true
			}
			first = e
		}
		if _, ok := c.drop(v); !ok && strict {
			return nil, fmt.Errorf("missing element")
		}
		return starlark.None, nil
	})
}

var add = one(func(c *Coll, v Value) (Value, error) {
	c.put(v)
	return starlark.None, nil
})

func list(l []Value) Value { return starlark.NewList(append([]Value(nil), l...)) }

var collMethods = map[string]map[string]collFn{
	"genericset": {
		"add": add, "clear": clear, "discard": remove(false), "remove": remove(true),
		"union": withList(func(c *Coll, l []Value) (Value, error) {
			d := c.copied()
			for _, v := range l {
				d.put(v)
			}
			return d, nil
		}),
		"difference": withList(func(c *Coll, l []Value) (Value, error) {
			d := c.copied()
			for _, v := range l {
				d.drop(v)
			}
			return d, nil
		}),
		"intersection": withList(func(c *Coll, l []Value) (Value, error) {
			d := &Coll{Kind: c.Kind}
			o := &Coll{Kind: c.Kind, E: l}
			for _, v := range c.E {
				if o.find(v) >= 0 {
					d.put(v)
				}
			}
			return d, nil
		}),
		"symmetric_difference": withList(func(c *Coll, l []Value) (Value, error) {
			d := &Coll{Kind: c.Kind}
			o := &Coll{Kind: c.Kind, E: l}
			for _, v := range c.E {
				if o.find(v) < 0 {
					d.put(v)
				}
			}
			for _, v := range l {
				if c.find(v) < 0 {
					d.put(v)
				}
			}
			return d, nil
		}),
		"issubset": withList(func(c *Coll, l []Value) (Value, error) { return starlark.Bool(c.subset(l)), nil }),
		"issuperset": withList(func(c *Coll, l []Value) (Value, error) {
			return starlark.Bool((&Coll{Kind: c.Kind, E: l}).subset(c.E)), nil
		}),
	},
	"bag": {
		"add": add, "clear": clear, "discard": remove(false), "remove": remove(true),
		"add_all": withList(func(c *Coll, l []Value) (Value, error) {
			for _, v := range l {
				c.put(v)
			}
			return starlark.None, nil
		}),
		"count": one(func(c *Coll, v Value) (Value, error) {
			n := 0
			for _, e := range c.E {
				if eq, err := starlark.Equal(e, v); err == nil && eq {
					n++
				}
			}
			return starlark.MakeInt(n), nil
		}),
	},
	"genericmap": {
		"clear": clear,
		"get": dflt(func(c *Coll, k, d Value) (Value, error) {
			if i := c.find(k); i >= 0 {
				return c.V[i], nil
			}
			if d == nil {
				d = starlark.None
			}
			return d, nil
		}),
		"pop": dflt(func(c *Coll, k, d Value) (Value, error) {
			if v, ok := c.drop(k); ok {
				return v, nil
			}
			if d == nil {
				return nil, fmt.Errorf("missing key")
			}
			return d, nil
		}),
		"setdefault": dflt(func(c *Coll, k, d Value) (Value, error) {
			if i := c.find(k); i >= 0 {
				return c.V[i], nil
			}
			if d == nil {
				d = starlark.None
			}
			return d, c.SetKey(k, d)
		}),
		"items": none(func(c *Coll) (Value, error) {
			var l []Value
			for _, t := range c.items() {
				l = append(l, t)
			}
			return list(l), nil
		}),
		"keys":   none(func(c *Coll) (Value, error) { return list(c.E), nil }),
		"values": none(func(c *Coll) (Value, error) { return list(c.V), nil }),
		"update": func(c *Coll, a []Value, kw []starlark.Tuple) (Value, error) {
			if len(a) > 0 {
				return nil, fmt.Errorf("update with a map: not modelled")
			}
			for _, t := range kw {
				if err := c.SetKey(t[0], t[1]); err != nil {
					return nil, err
				}
			}
			return starlark.None, nil
		},
	},
}

func (c *Coll) AttrNames() []string {
	var out []string
	for n := range collMethods[c.Kind] {
		out = append(out, n)
	}
	return out
}

func (c *Coll) Attr(n string) (Value, error) {
	f := collMethods[c.Kind][n]
	if f == nil {
		return nil, nil
	}
	return starlark.NewBuiltin(n, func(_ *starlark.Thread, _ *starlark.Builtin, a starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		return f(c, a, kw)
	}), nil
}

// CompareSameType: collections are equal when they hold equal elements,
// regardless of the order; generic sets are ordered by inclusion.
func (c *Coll) CompareSameType(op syntax.Token, y_ Value, depth int) (bool, error) {
	y := y_.(*Coll)
	if c.Kind == "genericset" && y.Kind == c.Kind {
		le, ge := c.subset(y.E), y.subset(c.E)
		switch op {
		case syntax.LE:
			return le, nil
		case syntax.GE:
			return ge, nil
		case syntax.LT:
			return le && !ge, nil
		case syntax.GT:
			return ge && !le, nil
		}
	}
	eq := c.Kind == y.Kind && len(c.E) == len(y.E)
	used := make([]bool, len(y.E))
	for i := 0; eq && i < len(c.E); i++ {
		found := false
		for j := range y.E {
			if used[j] {
				continue
			}
			e, err := starlark.EqualDepth(c.E[i], y.E[j], depth-1)
			if err != nil {
				return false, err
			}
			if e && c.Kind == "genericmap" {
				if e, err = starlark.EqualDepth(c.V[i], y.V[j], depth-1); err != nil {
					return false, err
				}
			}
			if e {
				used[j], found = true, true
				break
			}
		}
		eq = found
	}
	switch op {
	case syntax.EQL:
		return eq, nil
	case syntax.NEQ:
		return !eq, nil
	}
	return false, fmt.Errorf("%s: %s not supported", c.Kind, op)
}

// Plain are the built-in functions that need no model state.
func Plain() starlark.StringDict { return plainBuiltins() }
