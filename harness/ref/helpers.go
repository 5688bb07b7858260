package ref

import (
	"fmt"
	"math/big"

	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
	"go.starlark.net/syntax"
)

// This file is the model of the helper functions: what their Python
// counterparts compute.

// tuples lists in lexicographic order of the indices all r-tuples of l that
// keep says.
func tuples(l []Value, r int, keep func(ix []int) bool) []Value {
	var out []Value
	n := len(l)
	total := 1
	for i := 0; i < r; i++ {
		total *= n
	}
	ix := make([]int, r)
	for k := 0; k < total; k++ {
		x := k
		for i := r - 1; i >= 0; i-- {
			ix[i] = x % n
			x /= n
		}
		if keep(ix) {
			t := make(starlark.Tuple, r)
			for i := range ix {
				t[i] = l[ix[i]]
			}
			out = append(out, t)
		}
	}
	return out
}

func chooser(name string, optional bool, keep func(a, b int, adjacent bool) bool) *starlark.Builtin {
	return starlark.NewBuiltin(name, func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
		var it, rv Value
		rname := "r"
		if optional {
			rname = "r?"
		}
		if err := starlark.UnpackArgs(name, args, kw, "iterable", &it, rname, &rv); err != nil {
			return nil, err
		}
		l, err := elems(it)
		if err != nil {
			return nil, err
		}
		r := len(l)
		if rv != nil && !(optional && rv == starlark.None) {
			if r, err = starlark.AsInt32(rv); err != nil {
				return nil, err
			}
			if _, ok := rv.(starlark.Int); !ok {
				return nil, fmt.Errorf("r: want int")
			}
		}
		if r < 0 {
			return nil, fmt.Errorf("r must be non-negative")
		}
		return list(tuples(l, r, func(ix []int) bool {
			for i := range ix {
				for j := 0; j < i; j++ {
					if !keep(ix[j], ix[i], j == i-1) {
						return false
					}
				}
			}
			return true
		})), nil
	})
}

func itertools() Value {
	m := starlark.StringDict{
		"combinations":                  chooser("combinations", false, func(a, b int, _ bool) bool { return a < b }),
		"combinations_with_replacement": chooser("combinations_with_replacement", false, func(a, b int, _ bool) bool { return a <= b }),
		"permutations":                  chooser("permutations", true, func(a, b int, _ bool) bool { return a != b }),
		"chain": starlark.NewBuiltin("chain", func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			if len(kw) > 0 {
				return nil, fmt.Errorf("chain takes no keyword arguments")
			}
			var out []Value
			for _, a := range args {
				l, err := elems(a)
				if err != nil {
					return nil, err
				}
				out = append(out, l...)
			}
			return list(out), nil
		}),
		"product": starlark.NewBuiltin("product", func(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
			repeat := 1
			for _, k := range kw {
				if string(k[0].(starlark.String)) != "repeat" {
					return nil, fmt.Errorf("product: unexpected %v", k[0])
				}
				var err error
				if repeat, err = starlark.AsInt32(k[1]); err != nil {
					return nil, err
				}
			}
			if repeat < 0 {
				return nil, fmt.Errorf("repeat must not be negative")
			}
			var pools [][]Value
			for _, a := range args {
				l, err := elems(a)
				if err != nil {
					return nil, err
				}
				pools = append(pools, l)
			}
			rows := []Value{starlark.Tuple{}}
			for k := 0; k < repeat; k++ {
				for _, l := range pools {
					var next []Value
					for _, r := range rows {
						for _, x := range l {
							next = append(next, append(append(starlark.Tuple{}, r.(starlark.Tuple)...), x))
						}
					}
					rows = next
				}
			}
			return list(rows), nil
		}),
	}
	return &starlarkstruct.Module{Name: "itertools", Members: m}
}

func enum(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
	m := starlark.StringDict{}
	for _, a := range args {
		s, ok := a.(starlark.String)
		if !ok {
			return nil, fmt.Errorf("enum: want names")
		}
		m[string(s)] = a
	}
	for _, k := range kw {
		m[string(k[0].(starlark.String))] = k[1]
	}
	return starlarkstruct.FromStringDict(starlark.String("enum"), m), nil
}

// sum adds exactly in int as long as there is no float.
func sum(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (Value, error) {
	var it Value
	var start Value = starlark.MakeInt(0)
	if err := starlark.UnpackArgs("sum", args, kw, "iterable", &it, "start?", &start); err != nil {
		return nil, err
	}
	l, err := elems(it)
	if err != nil {
		return nil, err
	}
	acc := new(big.Int)
	var f float64
	float := false
	for _, x := range append([]Value{start}, l...) {
		switch v := x.(type) {
		case starlark.Int:
			if float {
				f += float64(v.Float())
			} else {
				acc.Add(acc, v.BigInt())
			}
		case starlark.Float:
			if !float {
				f = float64(starlark.MakeBigInt(acc).Float())
			}
			float = true
			f += float64(v)
		default:
			return nil, fmt.Errorf("sum: %s is not a number", x.Type())
		}
	}
	if float {
		return starlark.Float(f), nil
	}
	return starlark.MakeBigInt(acc), nil
}

// Binary: the sum of two records has the fields of both.
func (r *Record) Binary(op syntax.Token, y Value, side starlark.Side) (Value, error) {
	o, ok := y.(*Record)
	if !ok || op != syntax.PLUS {
		return nil, nil
	}
	if side == starlark.Right {
		r, o = o, r
	}
	z := &Record{F: map[string]Value{}}
	for k, v := range r.F {
		z.F[k] = v
	}
	for k, v := range o.F {
		z.F[k] = v
	}
	return z, nil
}
