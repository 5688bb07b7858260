package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
	"google.golang.org/protobuf/proto"
)

// A run is one execution of an action, as seen by the system under test.
type run struct {
	Key        string // the name of the argument "key", which identifies the request
	Role, Act  string
	Args       []mbt.Arg
	start, end time.Time
	ret        any
	err        error
}

// sut is the system under test: it records what is called.
type sut struct {
	mu      sync.Mutex
	runs    []*run
	calls   []string
	roles   map[mbt.RoleId]mbt.Role
	initErr error
	endErr  error
	roleErr error
	gate    func(key, at string) // called inside actions
	rets    map[string]any       // values returned by the action "value"
}

// Three kinds of roles: without state, with a state, with a snapshot.
type plainRole struct {
	s    *sut
	name string
	n    int
}
type stateRole struct {
	plainRole
	err error
}
type snapRole struct{ stateRole }

func (r *plainRole) label() string { return r.name }

func (r *stateRole) GetState() (map[string]any, error) {
	if r.err != nil {
		return nil, r.err
	}
	return map[string]any{"n": r.n, "kind": "state", "l": []any{r.n, nil}}, nil
}

func (r *snapRole) SnapshotState() (map[string]any, error) {
	if r.err != nil {
		return nil, r.err
	}
	return map[string]any{"n": r.n, "kind": "snapshot"}, nil
}

type labelled interface{ label() string }

func (s *sut) label() string                     { return "" }
func (s *sut) Init() error                       { s.calls = append(s.calls, "Init"); return s.initErr }
func (s *sut) Cleanup() error                    { s.calls = append(s.calls, "Cleanup"); return s.endErr }
func (s *sut) GetState() (map[string]any, error) { return nil, mbt.ErrNotImplemented }
func (s *sut) GetRoles() (map[mbt.RoleId]mbt.Role, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.roleErr != nil {
		return nil, s.roleErr
	}
	out := map[mbt.RoleId]mbt.Role{}
	for k, v := range s.roles {
		out[k] = v
	}
	return out, nil
}

func newSut() *sut {
	s := &sut{roles: map[mbt.RoleId]mbt.Role{}, rets: map[string]any{}}
	s.roles[mbt.RoleId{RoleName: "P", Index: 0}] = &plainRole{s, "P#0", 0}
	s.roles[mbt.RoleId{RoleName: "S", Index: 0}] = &stateRole{plainRole: plainRole{s, "S#0", 0}}
	s.roles[mbt.RoleId{RoleName: "S", Index: 1}] = &stateRole{plainRole: plainRole{s, "S#1", 0}}
	s.roles[mbt.RoleId{RoleName: "N", Index: 7}] = &snapRole{stateRole{plainRole: plainRole{s, "N#7", 0}}}
	return s
}

var (
	errPlain   = errors.New("plain failure")
	errWrapped = fmt.Errorf("later: %w", mbt.ErrNotImplemented)
)

// behaviours: what an action returns.
var behaviours = map[string]func(s *sut, key string) (any, error){
	"ok":      func(s *sut, key string) (any, error) { return "did " + key, nil },
	"none":    func(*sut, string) (any, error) { return nil, nil },
	"fail":    func(*sut, string) (any, error) { return nil, errPlain },
	"both":    func(*sut, string) (any, error) { return "value of a failure", errPlain },
	"todo":    func(*sut, string) (any, error) { return nil, mbt.ErrNotImplemented },
	"wrapped": func(*sut, string) (any, error) { return "x", errWrapped },
	"echo":    func(*sut, string) (any, error) { return nil, nil },
	"value":   func(s *sut, key string) (any, error) { return s.rets[key], nil },
	"new": func(s *sut, key string) (any, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		for i := 1; ; i++ {
			id := mbt.RoleId{RoleName: "P", Index: i}
			if s.roles[id] == nil {
				s.roles[id] = &plainRole{s, fmt.Sprintf("P#%d", i), 0}
				return i, nil
			}
		}
	},
	"drop": func(s *sut, key string) (any, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		delete(s.roles, mbt.RoleId{RoleName: "S", Index: 1})
		return true, nil
	},
}

func (s *sut) registry() map[string]map[string]mbt.ActionFunc {
	out := map[string]map[string]mbt.ActionFunc{}
	for _, role := range []string{"", "P", "S", "N"} {
		out[role] = map[string]mbt.ActionFunc{}
		for name, f := range behaviours {
			out[role][name] = func(inst any, args []mbt.Arg) (any, error) {
				r := &run{Act: role + "." + name, Args: args, start: time.Now()}
				if len(args) > 0 {
					r.Key = args[0].Name
				}
				if l, ok := inst.(labelled); ok {
					r.Role = l.label()
				} else {
					r.Role = fmt.Sprintf("%T", inst)
				}
				s.mu.Lock()
				s.runs = append(s.runs, r)
				switch x := inst.(type) {
				case *plainRole:
					x.n++
				case *stateRole:
					x.n++
				case *snapRole:
					x.n++
				}
				s.mu.Unlock()
				if s.gate != nil {
					s.gate(r.Key, "in")
				}
				r.ret, r.err = f(s, r.Key)
				if name == "echo" {
					r.ret = args[1].Value
				}
				if s.gate != nil {
					s.gate(r.Key, "out")
				}
				r.end = time.Now()
				return r.ret, r.err
			}
		}
	}
	return out
}

func (s *sut) byKey() map[string][]*run {
	out := map[string][]*run{}
	for _, r := range s.runs {
		out[r.Key] = append(out[r.Key], r)
	}
	return out
}

// A call is one requested action.
type call struct {
	role  string
	id    int
	act   string
	key   string
	args  []*pb.Arg
	state bool
}

func (k call) request() *pb.ExecuteActionRequest {
	r := &pb.ExecuteActionRequest{ActionName: k.act, Args: append([]*pb.Arg{{Name: k.key, Value: &pb.Value{Kind: &pb.Value_StrValue{StrValue: k.key}}}}, k.args...)}
	if k.role != "" {
		r.Role = &pb.RoleRef{RoleName: k.role, RoleId: int32(k.id)}
	}
	if k.state {
		r.Options = &pb.ExecOptions{CaptureState: true}
	}
	return wire(r)
}

func (k call) label() string {
	if k.role == "" {
		return ""
	}
	return fmt.Sprintf("%s#%d", k.role, k.id)
}

func (k call) String() string { return k.label() + "." + k.act }

// wire sends a message through its serialized form.
func wire[T proto.Message](m T) T {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(fmt.Sprintf("cannot be sent: %v", err))
	}
	out := m.ProtoReflect().New().Interface().(T)
	if err := proto.Unmarshal(b, out); err != nil {
		panic(fmt.Sprintf("cannot be received: %v", err))
	}
	return out
}

// render writes a value of the protocol; the order of the entries of a map
// has no meaning.
func render(v *pb.Value) string {
	switch k := v.GetKind().(type) {
	case nil:
		return "None"
	case *pb.Value_StrValue:
		return fmt.Sprintf("%q", k.StrValue)
	case *pb.Value_IntValue:
		return fmt.Sprint(k.IntValue)
	case *pb.Value_BoolValue:
		return fmt.Sprint(k.BoolValue)
	case *pb.Value_SentinelValue:
		return k.SentinelValue.String()
	case *pb.Value_ListValue:
		var l []string
		for _, x := range k.ListValue.GetItems() {
			l = append(l, render(x))
		}
		return "[" + strings.Join(l, ",") + "]"
	case *pb.Value_MapValue:
		var l []string
		for _, e := range k.MapValue.GetEntries() {
			l = append(l, render(e.GetKey())+":"+render(e.GetValue()))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprintf("%T", v.GetKind())
}

// goValue renders a Go value as the protocol value it stands for.
func goValue(v any) string {
	if v == nil {
		return "None"
	}
	if s, ok := v.(mbt.Sentinel); ok {
		if s == mbt.IGNORE {
			return "SENTINEL_IGNORE"
		}
		return "SENTINEL_UNSPECIFIED"
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", rv.String())
	case reflect.Bool:
		return fmt.Sprint(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if rv.Uint() > math.MaxInt64 {
			return "too large"
		}
		return fmt.Sprint(rv.Uint())
	case reflect.Slice, reflect.Array:
		var l []string
		for i := 0; i < rv.Len(); i++ {
			l = append(l, goValue(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(l, ",") + "]"
	case reflect.Map:
		var l []string
		for _, k := range rv.MapKeys() {
			l = append(l, goValue(k.Interface())+":"+goValue(rv.MapIndex(k).Interface()))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	case reflect.Pointer, reflect.Interface:
		if rv.IsNil() {
			return "None"
		}
		return goValue(rv.Elem().Interface())
	}
	return fmt.Sprintf("%T", v)
}

// argsText renders the arguments an action got.
func argsText(l []mbt.Arg) string {
	var out []string
	for _, a := range l {
		out = append(out, a.Name+"="+goValue(a.Value))
	}
	return strings.Join(out, ", ")
}

func wantArgs(l []*pb.Arg) string {
	var out []string
	for _, a := range l {
		out = append(out, a.GetName()+"="+render(a.GetValue()))
	}
	return strings.Join(out, ", ")
}
