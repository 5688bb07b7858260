package main

import (
	"context"
	"fmt"
	"math"
	"reflect"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"

	"verif/fw"
)

func str(s string) *pb.Value { return &pb.Value{Kind: &pb.Value_StrValue{StrValue: s}} }
func num(n int64) *pb.Value  { return &pb.Value{Kind: &pb.Value_IntValue{IntValue: n}} }
func boolean(b bool) *pb.Value {
	return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: b}}
}
func listOf(l ...*pb.Value) *pb.Value {
	return &pb.Value{Kind: &pb.Value_ListValue{ListValue: &pb.ListValue{Items: l}}}
}
func mapOf(kv ...*pb.Value) *pb.Value {
	m := &pb.MapValue{}
	for i := 0; i < len(kv); i += 2 {
		m.Entries = append(m.Entries, &pb.MapEntry{Key: kv[i], Value: kv[i+1]})
	}
	return &pb.Value{Kind: &pb.Value_MapValue{MapValue: m}}
}

// protoValues: all values up to a depth.
func protoValues(depth int) []*pb.Value {
	leaves := []*pb.Value{str(""), str("a"), str("ü\n\"1\""), num(0), num(1), num(-1), num(math.MaxInt64), num(math.MinInt64), num(1 << 33), boolean(true), boolean(false),
		{}, {Kind: &pb.Value_SentinelValue{SentinelValue: pb.SentinelType_SENTINEL_IGNORE}}}
	if depth == 0 {
		return leaves
	}
	out := append([]*pb.Value{}, leaves...)
	inner := protoValues(depth - 1)
	if depth > 1 {
		// a few of each shape
		var few []*pb.Value
		for i, v := range inner {
			if i%17 == 3 || i < 3 {
				few = append(few, v)
			}
		}
		inner = few
	}
	keys := []*pb.Value{str("a"), str(""), num(1), num(-1), boolean(true), num(0)}
	out = append(out, listOf(), mapOf())
	for i, a := range inner {
		out = append(out, listOf(a), listOf(a, a, a))
		for _, k := range keys {
			out = append(out, mapOf(k, a))
		}
		for j, b := range inner {
			out = append(out, listOf(a, b), mapOf(keys[i%6], a, keys[(i+1+j%5)%6], b))
		}
	}
	return out
}

// shape checks the documented Go type of an argument.
func shape(v *pb.Value, g any) string {
	switch k := v.GetKind().(type) {
	case nil:
		if g != nil {
			return fmt.Sprintf("None became %T", g)
		}
	case *pb.Value_StrValue:
		if _, ok := g.(string); !ok {
			return fmt.Sprintf("a string became %T", g)
		}
	case *pb.Value_IntValue:
		switch g.(type) {
		case int, int64:
		default:
			return fmt.Sprintf("an int became %T", g)
		}
	case *pb.Value_BoolValue:
		if _, ok := g.(bool); !ok {
			return fmt.Sprintf("a bool became %T", g)
		}
	case *pb.Value_SentinelValue:
		if g != any(mbt.IGNORE) {
			return fmt.Sprintf("IGNORE became %v (%T)", g, g)
		}
	case *pb.Value_ListValue:
		l, ok := g.([]any)
		if !ok || len(l) != len(k.ListValue.GetItems()) {
			return fmt.Sprintf("a list became %T", g)
		}
		for i, x := range k.ListValue.GetItems() {
			if s := shape(x, l[i]); s != "" {
				return s
			}
		}
	case *pb.Value_MapValue:
		m, ok := g.(map[any]any)
		if !ok {
			return fmt.Sprintf("a dict became %T", g)
		}
		for _, x := range m {
			_ = x
		}
	}
	return ""
}

type (
	text    string
	count   int16
	counts  []count
	flag8   bool
	sizes   map[text]counts
	counter uint32
)

func ptr[T any](v T) *T { return &v }

// goValues: values of every kind of Go type that the protocol can carry.
func goValues(deep bool) []any {
	leaves := []any{"", "a", text("t"), 0, -1, math.MaxInt64, math.MinInt64, int8(-8), int16(16), int32(-32), int64(1 << 40), uint(1), uint8(255), uint16(65535), uint32(math.MaxUint32), uint64(math.MaxInt64),
		count(-3), counter(4), true, false, flag8(true), nil, mbt.IGNORE}
	var out []any
	for _, v := range leaves {
		out = append(out, v, []any{v}, []any{v, v}, map[string]any{"k": v}, map[any]any{"k": v, 2: v}, [2]any{v, 1})
		if v != nil {
			rv := reflect.ValueOf(v)
			p := reflect.New(rv.Type())
			p.Elem().Set(rv)
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			sl := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 2, 2)
			sl.Index(0).Set(rv)
			ar := reflect.New(reflect.ArrayOf(2, rv.Type())).Elem()
			ar.Index(1).Set(rv)
			mk := reflect.MakeMap(reflect.MapOf(rv.Type(), reflect.TypeOf("")))
			mk.SetMapIndex(rv, reflect.ValueOf("v"))
			mv := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), rv.Type()))
			mv.SetMapIndex(reflect.ValueOf("k"), rv)
			out = append(out, p.Interface(), pp.Interface(), sl.Interface(), ar.Interface(), mk.Interface(), mv.Interface(), []any{p.Interface()}, reflect.Zero(p.Type()).Interface(), reflect.Zero(sl.Type()).Interface(), reflect.Zero(mv.Type()).Interface())
		}
		for _, w := range leaves {
			out = append(out, []any{v, w}, map[any]any{v: w}, map[string]any{"x": v, "y": []any{w}})
			if deep {
				for _, x := range leaves {
					out = append(out, []any{v, []any{w, x}}, map[any]any{v: []any{x, w}}, map[string]any{"": map[any]any{w: x}, "y": v})
				}
			}
		}
	}
	return append(out, []any{}, []any(nil), map[string]any{}, map[string]any(nil), [0]int{}, counts{1, 2}, sizes{"a": {1}, "b": nil}, []map[string][]uint8{{"a": {1, 2}}, nil, {}},
		map[int]map[int]bool{1: {2: true}, 3: nil}, [][]int{{1}, {}, nil, {2, 3}}, []*int{ptr(1), nil}, map[[2]int]string{{1, 2}: "x"}, []error{nil}, []fmt.Stringer{nil}, ptr([]int{1}), ptr(map[string]int{"a": 1}),
		ptr(any("inside")), ptr(any(nil)), map[any]any{1: 1, "1": 1, true: 1, text("1"): 2, int8(1): 3})
}

func valueCases(deep bool) []fw.Case {
	var out []fw.Case
	depth := 1
	if deep {
		depth = 2
	}
	vals := protoValues(depth)
	try := func(c *fw.Ctx, role call, v *pb.Value) {
		s := newSut()
		k := role
		k.key, k.args = "k", []*pb.Arg{{Name: "x", Value: v}, {Name: "", Value: num(5)}}
		res, err := server(s).ExecuteAction(context.Background(), k.request())
		c.Count("states", 1)
		c.Count("traces", 1)
		c.Count("transitions", 1)
		if err != nil || len(s.runs) != 1 {
			c.Fail("arg", "argument %s: %v, %d runs", render(v), err, len(s.runs))
			return
		}
		if s := shape(wire(v), s.runs[0].Args[1].Value); s != "" {
			c.Fail("arg", "argument %s: %s", render(v), s)
			return
		}
		if sig, msg := judge(k, wire(res), s.runs); sig != "" {
			c.Fail("arg-"+sig, "argument %s: %s", render(v), msg)
		}
	}
	const chunk = 200
	for i := 0; i < len(vals); i += chunk {
		part := vals[i:min(i+chunk, len(vals))]
		out = append(out, fw.Case{Name: fmt.Sprintf("values/args/%d", i/chunk), Run: func(c *fw.Ctx) {
			for _, v := range part {
				try(c, call{role: "P", act: "echo"}, v)
			}
		}})
	}
	// keys which are lists: dicts with tuples as keys
	for _, key := range []*pb.Value{listOf(num(1), num(2)), listOf(), listOf(listOf(str("a")))} {
		out = append(out, fw.Case{Name: "values/tuple-key/" + render(key), Run: func(c *fw.Ctx) { try(c, call{role: "P", act: "echo"}, mapOf(key, num(1))) }})
	}
	out = append(out, fw.Case{Name: "values/no-args", Run: func(c *fw.Ctx) {
		for _, args := range [][]*pb.Arg{nil, {}, {{Name: "a"}}, {{Name: "a", Value: num(1)}, {Name: "a", Value: num(2)}}, {{}, {Name: "x", Value: str("y"), Type: pb.ArgType_ARG_TYPE_ANY}}} {
			s := newSut()
			req := wire(&pb.ExecuteActionRequest{ActionName: "ok", Args: args})
			_, err := server(s).ExecuteAction(context.Background(), req)
			c.Count("states", 1)
			if err != nil || len(s.runs) != 1 || argsText(s.runs[0].Args) != wantArgs(req.Args) {
				c.Fail("args", "%v: %v", args, err)
			}
		}
	}})
	rets := goValues(deep)
	for i := 0; i < len(rets); i += chunk {
		part := rets[i:min(i+chunk, len(rets))]
		out = append(out, fw.Case{Name: fmt.Sprintf("values/returns/%d", i/chunk), Run: func(c *fw.Ctx) {
			for _, v := range part {
				s := newSut()
				s.rets["k"] = v
				k := call{role: "P", act: "value", key: "k"}
				c.Count("states", 1)
				c.Count("traces", 1)
				c.Count("transitions", 2)
				func() {
					defer func() {
						if x := recover(); x != nil {
							c.Fail("return-panic", "returning %T %v: panic: %v", v, v, x)
						}
					}()
					res, err := server(s).ExecuteAction(context.Background(), k.request())
					if err != nil {
						c.Fail("return", "returning %T %v: %v", v, v, err)
						return
					}
					if sig, msg := judge(k, wire(res), s.runs); sig != "" {
						c.Fail("return-"+sig, "returning %T %v: %s", v, v, msg)
					}
					// the same value in the state of a role
					s := newSut()
					s.roles = map[mbt.RoleId]mbt.Role{{RoleName: "V", Index: 3}: &valueRole{v}}
					i, err := server(s).Init(context.Background(), wire(&pb.InitRequest{Options: &pb.ExecOptions{CaptureState: true}}))
					if err != nil {
						c.Fail("state", "state %T %v: %v", v, v, err)
						return
					}
					if a, b := stateText(wire(i).GetRoleStates()), fmt.Sprintf("V#3{%q:%s}", "v", goValue(v)); a != b {
						c.Fail("state", "state %T %v is %s, should be %s", v, v, a, b)
					}
				}()
			}
		}})
	}
	return out
}

type valueRole struct{ v any }

func (r *valueRole) GetState() (map[string]any, error) { return map[string]any{"v": r.v}, nil }
