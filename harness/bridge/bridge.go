// Package bridge rebuilds a reference configuration from a state that the
// checker explored, sharing of mutable values included.
package bridge

import (
	"fmt"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"

	"verif/impl"
	"verif/ref"
)

type conv struct {
	m   map[any]starlark.Value
	err error
}

func (c *conv) vals(it starlark.Iterable) []starlark.Value {
	var out []starlark.Value
	i := it.Iterate()
	defer i.Done()
	var x starlark.Value
	for i.Next(&x) {
		out = append(out, c.val(x))
	}
	return out
}

func attrs(h starlark.HasAttrs) map[string]starlark.Value {
	m := map[string]starlark.Value{}
	for _, n := range h.AttrNames() {
		if v, err := h.Attr(n); err == nil {
			m[n] = v
		}
	}
	return m
}

func (c *conv) dict(m map[string]starlark.Value) map[string]starlark.Value {
	n := map[string]starlark.Value{}
	for k, v := range m {
		n[k] = c.val(v)
	}
	return n
}

func (c *conv) val(v starlark.Value) starlark.Value {
	switch x := v.(type) {
	case starlark.NoneType, starlark.Bool, starlark.Int, starlark.Float, starlark.String, starlark.Bytes:
		return v
	case starlark.Tuple:
		return starlark.Tuple(c.vals(x))
	}
	if y, ok := c.m[v]; ok {
		return y
	}
	switch x := v.(type) {
	case *starlark.List:
		n := starlark.NewList(nil)
		c.m[x] = n
		for _, e := range c.vals(x) {
			_ = n.Append(e)
		}
		return n
	case *starlark.Dict:
		n := starlark.NewDict(x.Len())
		c.m[x] = n
		for _, it := range x.Items() {
			_ = n.SetKey(c.val(it[0]), c.val(it[1]))
		}
		return n
	case *starlark.Set:
		n := starlark.NewSet(x.Len())
		c.m[x] = n
		for _, e := range c.vals(x) {
			_ = n.Insert(e)
		}
		return n
	case *starlarkstruct.Struct:
		d := starlark.StringDict{}
		for k, e := range attrs(x) {
			d[k] = c.val(e)
		}
		n := starlarkstruct.FromStringDict(x.Constructor(), d)
		c.m[x] = n
		return n
	case *lib.Struct:
		n := &ref.Record{F: map[string]starlark.Value{}}
		c.m[x] = n
		n.F = c.dict(attrs(x))
		return n
	case *lib.GenericSet:
		n := &ref.Coll{Kind: "genericset"}
		c.m[x] = n
		n.E = c.vals(x)
		return n
	case *lib.Bag:
		n := &ref.Coll{Kind: "bag"}
		c.m[x] = n
		n.E = c.vals(x)
		return n
	case *lib.GenericMap:
		n := &ref.Coll{Kind: "genericmap"}
		c.m[x] = n
		for _, it := range x.Items() {
			n.E = append(n.E, c.val(it[0]))
			n.V = append(n.V, c.val(it[1]))
		}
		return n
	case *lib.Role:
		n := &ref.Role{Name: x.Name, Id: int(x.GetRef()), Sym: x.Symmetric, Funcs: map[string]bool{}}
		c.m[x] = n
		n.Params = c.dict(attrs(x.Params))
		n.Fields = c.dict(attrs(x.Fields))
		n.Init = map[string]starlark.Value{}
		return n
	case *lib.Channel:
		n := &ref.Chan{Id: x.Id}
		c.m[x] = n
		return n
	case *lib.RoleStub:
		n := &ref.Stub{R: c.val(x.Role).(*ref.Role), C: c.val(x.Channel).(*ref.Chan)}
		c.m[x] = n
		return n
	}
	if c.err == nil {
		c.err = fmt.Errorf("cannot convert %s", v.Type())
	}
	return v
}

// FromProcess converts a state without running actions.
func FromProcess(s *ref.Spec, p *mc.Process) (*ref.Cfg, error) {
	for _, t := range p.Threads {
		if t != nil {
			return nil, fmt.Errorf("running action")
		}
	}
	c := &conv{m: map[any]starlark.Value{}}
	st := c.dict(impl.HeapMap(p.Heap))
	var roles []*ref.Role
	for _, r := range p.Roles {
		roles = append(roles, c.val(r).(*ref.Role))
	}
	var msgs []*ref.Msg
	for _, l := range p.ChannelMessages {
		for _, m := range l {
			var to *ref.Role
			for _, r := range roles {
				if m.Receiver() == r.String() || strings.TrimPrefix(m.Receiver(), "role ") == r.String() {
					to = r
				}
			}
			if to == nil {
				return nil, fmt.Errorf("message to unknown role %s", m.Receiver())
			}
			msgs = append(msgs, &ref.Msg{Chan: &ref.Chan{}, To: to, Fn: m.Function(), Args: c.dict(m.Params())})
		}
	}
	if c.err != nil {
		return nil, c.err
	}
	return ref.NewCfg(s, st, roles, msgs), nil
}
