// Package canon renders values of both interpreters in one typed canonical form.
package canon

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"go.starlark.net/starlark"
)

type R struct {
	Alias bool // number shared mutable objects
	Ren   Ren  // renames symmetric values and roles
	Used  Used // collects the symmetric values and roles
	ids   map[any]int
	depth int
}

func (r *R) ref(v any) (string, bool) {
	if !r.Alias {
		return "", false
	}
	if r.ids == nil {
		r.ids = map[any]int{}
	}
	if id, ok := r.ids[v]; ok {
		return fmt.Sprintf("^%d", id), true
	}
	r.ids[v] = len(r.ids)
	return "", false
}

type shortRef interface{ RefStringShort() string }

// Val renders one value.
func Val(v starlark.Value) string { return (&R{}).Val(v) }

func (r *R) Val(v starlark.Value) string {
	if v == nil {
		return "<nil>"
	}
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 60 {
		return "<deep>"
	}
	switch v.Type() {
	case "NoneType":
		return "None"
	case "bool":
		return v.String()
	case "int":
		return v.String()
	case "float":
		return "f" + v.String()
	case "string":
		return v.String()
	case "bytes":
		return "b" + v.String()
	case "list":
		if s, ok := r.ref(v); ok {
			return s
		}
		return "[" + strings.Join(r.iter(v.(starlark.Iterable)), ",") + "]"
	case "tuple", "symmetric_values":
		return "(" + strings.Join(r.iter(v.(starlark.Iterable)), ",") + ")"
	case "set", "genericset", "bag":
		if s, ok := r.ref(v); ok {
			return s
		}
		l := r.sorted(v.(starlark.Iterable))
		return v.Type() + "{" + strings.Join(l, ",") + "}"
	case "dict", "genericmap":
		if s, ok := r.ref(v); ok {
			return s
		}
		var l []string
		its := items(v)
		if r.Alias {
			// numbers of shared objects must not depend on the insertion order
			sort.SliceStable(its, func(i, j int) bool {
				a, b := r.plain(its[i][0]), r.plain(its[j][0])
				return a < b || a == b && r.plain(its[i][1]) < r.plain(its[j][1])
			})
		}
		for _, it := range its {
			l = append(l, r.Val(it[0])+":"+r.Val(it[1]))
		}
		sort.Strings(l)
		return v.Type() + "{" + strings.Join(l, ",") + "}"
	case "struct", "record":
		if v.Type() == "record" {
			if s, ok := r.ref(v); ok {
				return s
			}
		}
		h := v.(starlark.HasAttrs)
		ns := append([]string(nil), h.AttrNames()...)
		sort.Strings(ns)
		var l []string
		for _, n := range ns {
			a, _ := h.Attr(n)
			l = append(l, n+"="+r.Val(a))
		}
		return v.Type() + "(" + strings.Join(l, ",") + ")"
	case "role":
		if s, ok := v.(shortRef); ok {
			return "@" + r.Name(s.RefStringShort())
		}
		return "@" + r.Name(v.String())
	case "symmetric_value":
		if s, ok := v.(symmetric); ok {
			return fmt.Sprintf("$%s:%d", s.GetPrefix(), r.id(s.GetPrefix(), s.GetId()))
		}
	case "RoleStub":
		if s, ok := v.(interface{ StubRef() string }); ok {
			return s.StubRef()
		}
		return "stub"
	case "Channel":
		return "chan"
	case "builtin_function_or_method", "function", "module":
		return "fn"
	}
	return v.Type() + ":" + v.String()
}

func (r *R) iter(it starlark.Iterable) []string {
	var out []string
	i := it.Iterate()
	defer i.Done()
	var x starlark.Value
	for i.Next(&x) {
		out = append(out, r.Val(x))
	}
	return out
}

// sorted renders the elements of an unordered collection.
func (r *R) sorted(it starlark.Iterable) []string {
	var vs []starlark.Value
	i := it.Iterate()
	defer i.Done()
	var x starlark.Value
	for i.Next(&x) {
		vs = append(vs, x)
	}
	if r.Alias {
		// numbers of shared objects must not depend on the insertion order
		sort.SliceStable(vs, func(i, j int) bool { return r.plain(vs[i]) < r.plain(vs[j]) })
	}
	var out []string
	for _, v := range vs {
		out = append(out, r.Val(v))
	}
	sort.Strings(out)
	return out
}

func items(v starlark.Value) []starlark.Tuple {
	if im, ok := v.(interface{ Items() []starlark.Tuple }); ok {
		return im.Items()
	}
	// reference generic map
	rv := reflect.ValueOf(v).Elem()
	e := rv.FieldByName("E")
	w := rv.FieldByName("V")
	var out []starlark.Tuple
	for i := 0; i < e.Len(); i++ {
		out = append(out, starlark.Tuple{e.Index(i).Interface().(starlark.Value), w.Index(i).Interface().(starlark.Value)})
	}
	return out
}

// Dict renders a name->value map in name order.
func (r *R) Dict(m map[string]starlark.Value) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		l = append(l, k+"="+r.Val(m[k]))
	}
	return strings.Join(l, ";")
}
