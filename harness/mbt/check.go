package main

import (
	"context"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"

	"verif/fw"
)

func server(s *sut) *mbt.FizzBeeMbtPluginServer {
	return mbt.NewFizzBeeMbtPluginServer(nil, s, s.registry())
}

// valid reports whether the request addresses an existing role and action.
func (s *sut) valid(k call) bool {
	if behaviours[k.act] == nil {
		return false
	}
	return k.role == "" || s.roles[mbt.RoleId{RoleName: k.role, Index: k.id}] != nil
}

// roleText lists the roles of the system.
func (s *sut) roleText() string {
	var l []string
	for id := range s.roles {
		l = append(l, fmt.Sprintf("%s#%d", id.RoleName, id.Index))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func refText(l []*pb.RoleRef) string {
	var out []string
	for _, r := range l {
		out = append(out, fmt.Sprintf("%s#%d", r.GetRoleName(), r.GetRoleId()))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (s *sut) stateText(capture bool) string {
	if !capture {
		return ""
	}
	var l []string
	for id, r := range s.roles {
		var m map[string]any
		switch x := r.(type) {
		case *snapRole:
			m, _ = x.SnapshotState()
		case *stateRole:
			m, _ = x.GetState()
		default:
			continue
		}
		l = append(l, fmt.Sprintf("%s#%d%s", id.RoleName, id.Index, goValue(m)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func stateText(l []*pb.RoleState) string {
	var out []string
	for _, r := range l {
		var m []string
		for k, v := range r.GetState() {
			m = append(m, fmt.Sprintf("%q:%s", k, render(v)))
		}
		sort.Strings(m)
		out = append(out, fmt.Sprintf("%s#%d{%s}", r.GetRole().GetRoleName(), r.GetRole().GetRoleId(), strings.Join(m, ",")))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// judge compares the answer for one request with the runs it caused.
func judge(k call, res *pb.ExecuteActionResponse, runs []*run) (sig, msg string) {
	code := res.GetStatus().GetCode()
	if len(runs) > 1 {
		return "twice", fmt.Sprintf("%v ran %d times", k, len(runs))
	}
	if len(runs) == 0 {
		if code == pb.StatusCode_STATUS_OK {
			return "not-run-ok", fmt.Sprintf("%v did not run and is reported OK", k)
		}
		if code == pb.StatusCode_STATUS_NOT_IMPLEMENTED {
			return "not-run-todo", fmt.Sprintf("%v did not run and is reported as not implemented", k)
		}
		if code == pb.StatusCode_STATUS_UNKNOWN {
			return "no-status", fmt.Sprintf("%v has no status", k)
		}
		return "", ""
	}
	r := runs[0]
	if r.Role != k.label() {
		return "role", fmt.Sprintf("%v ran on %s", k, r.Role)
	}
	if r.Act != k.role+"."+k.act {
		return "action", fmt.Sprintf("%v ran as %s", k, r.Act)
	}
	if a, b := argsText(r.Args), wantArgs(k.request().Args); a != b {
		return "args", fmt.Sprintf("%v got %s, should get %s", k, a, b)
	}
	want := pb.StatusCode_STATUS_OK
	switch {
	case r.err == errWrapped || r.err == mbt.ErrNotImplemented:
		want = pb.StatusCode_STATUS_NOT_IMPLEMENTED
	case r.err != nil:
		want = pb.StatusCode_STATUS_EXECUTION_FAILED
	}
	if code != want {
		return "status", fmt.Sprintf("%v returned %v and is reported %v", k, r.err, code)
	}
	got, exp := []string{}, []string{}
	for _, v := range res.GetReturnValues() {
		got = append(got, render(v))
	}
	if r.err == nil && r.ret != nil {
		exp = append(exp, goValue(r.ret))
	}
	if !slices.Equal(got, exp) {
		return "value", fmt.Sprintf("%v returned %v, reported %v", k, exp, got)
	}
	return "", ""
}

// interval checks the reported times of actions that ran to their end: they
// enclose the time for which the actions really ran, by one clock.
func intervals(c *fw.Ctx, what string, runs []*run, res []*pb.ExecuteActionResponse) {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	zero := start
	for i, r := range runs {
		t := res[i].GetExecTime()
		if t.GetStartUnixNano() > t.GetEndUnixNano() {
			c.Fail("interval", "%s: %s ended before it started", what, r.Act)
		}
		lo = max(lo, int64(r.end.Sub(zero))-t.GetEndUnixNano())
		hi = min(hi, int64(r.start.Sub(zero))-t.GetStartUnixNano())
	}
	if len(runs) > 0 && lo > hi {
		c.Fail("interval", "%s: the reported times do not enclose the times for which the actions ran", what)
	}
}

var start = time.Now()

// single executes a history of ExecuteAction requests.
func single(c *fw.Ctx, h []call) {
	s := newSut()
	srv := server(s)
	var runs []*run
	var oks []*pb.ExecuteActionResponse
	for i, k := range h {
		k.key = fmt.Sprint(i)
		what := fmt.Sprint(h[:i+1])
		valid := s.valid(k)
		before := len(s.runs)
		res, err := srv.ExecuteAction(context.Background(), k.request())
		c.Count("transitions", 1)
		now := s.runs[before:]
		if err != nil {
			if valid && (len(now) == 0 || now[0].err == nil) {
				c.Fail("rpc-error", "%s: %v", what, err)
			}
			continue
		}
		res = wire(res)
		if valid && len(now) == 0 {
			c.Fail("skipped", "%s: the action did not run", what)
			return
		}
		if !valid && len(now) > 0 {
			c.Fail("ran", "%s: %s ran on %s", what, now[0].Act, now[0].Role)
			return
		}
		if sig, msg := judge(k, res, now); sig != "" {
			c.Fail(sig, "%s: %s", what, msg)
			return
		}
		if len(now) > 0 && now[0].err == nil {
			runs, oks = append(runs, now[0]), append(oks, res)
			if a, b := refText(res.GetRoles()), s.roleText(); a != b {
				c.Fail("roles", "%s: roles %s, should be %s", what, a, b)
			}
			if a, b := stateText(res.GetRoleStates()), s.stateText(k.state); a != b {
				c.Fail("states", "%s: states %s, should be %s", what, a, b)
			}
		}
	}
	intervals(c, fmt.Sprint(h), runs, oks)
	c.Count("states", 1)
	c.Count("traces", 1)
}

// sequences executes one ExecuteActionSequences request.
func sequences(c *fw.Ctx, seqs [][]call, schedule []int) {
	s := newSut()
	srv := server(s)
	req := &pb.ExecuteActionSequencesRequest{}
	mustFail, noFail := false, true
	for i, seq := range seqs {
		q := &pb.ActionSequence{}
		for j := range seq {
			seq[j].key = fmt.Sprintf("%d.%d", i, j)
			q.Requests = append(q.Requests, seq[j].request())
			if !s.valid(seq[j]) {
				mustFail = true
			}
			if seq[j].act == "fail" || seq[j].act == "both" {
				noFail = false
			}
		}
		req.ActionSequence = append(req.ActionSequence, q)
	}
	what := fmt.Sprint(seqs)
	if schedule != nil {
		what += fmt.Sprint(" schedule ", schedule)
	}
	var order []string
	finished := make(chan bool, 1)
	if schedule != nil {
		s.gate = steer(c, what, seqs, schedule, &order, finished)
	}
	res, err := srv.ExecuteActionSequences(context.Background(), wire(req))
	finished <- true
	c.Count("states", 1)
	c.Count("traces", 1)
	c.Count("transitions", len(s.runs))
	runs := s.byKey()
	// in order, each at most once
	for i, seq := range seqs {
		var got []string
		for _, r := range s.runs {
			if strings.HasPrefix(r.Key, fmt.Sprintf("%d.", i)) {
				got = append(got, r.Key)
			}
		}
		if !sort.StringsAreSorted(got) || len(slices.Compact(slices.Clone(got))) != len(got) {
			c.Fail("order", "%s: sequence %d ran as %v", what, i, got)
			return
		}
		if noFail && !mustFail && len(got) != len(seq) {
			c.Fail("skipped", "%s: of sequence %d only %v ran", what, i, got)
			return
		}
	}
	if err != nil {
		if noFail && !mustFail {
			c.Fail("rpc-error", "%s: %v", what, err)
		}
		return
	}
	res = wire(res)
	if len(res.GetResults()) != len(seqs) {
		c.Fail("results", "%s: %d results", what, len(res.GetResults()))
		return
	}
	var rs []*run
	var oks []*pb.ExecuteActionResponse
	for i, seq := range seqs {
		l := res.GetResults()[i].GetResponses()
		if len(l) != len(seq) {
			c.Fail("results", "%s: %d responses for sequence %d", what, len(l), i)
			return
		}
		for j, k := range seq {
			r := runs[k.key]
			if sig, msg := judge(k, l[j], r); sig != "" {
				c.Fail(sig, "%s: %s: %s", what, k.key, msg)
				return
			}
			if len(r) > 0 && r[0].err == nil {
				rs, oks = append(rs, r[0]), append(oks, l[j])
				if a, b := refText(l[j].GetRoles()), s.roleText(); a != b {
					c.Fail("roles", "%s: %s: roles %s, should be %s", what, k.key, a, b)
				}
			}
		}
	}
	intervals(c, what, rs, oks)
}

// steer returns the gate through which the actions of the sequences pass, at
// their start and at their end, in exactly the order of the schedule (a list
// of sequence numbers). A sequence is let through only after all sequences
// have arrived at their next gate: they must run concurrently.
func steer(c *fw.Ctx, what string, seqs [][]call, schedule []int, order *[]string, finished chan bool) func(key, at string) {
	type arrival struct {
		seq int
		ok  chan bool
	}
	arrive := make(chan arrival)
	left := make([]int, len(seqs))
	for _, i := range schedule {
		left[i]++
	}
	go func() {
		waiting := map[int]chan bool{}
		free := false
		for _, next := range schedule {
			for !free {
				all := true
				for i := range seqs {
					if left[i] > 0 && waiting[i] == nil {
						all = false
					}
				}
				if all {
					break
				}
				select {
				case a := <-arrive:
					waiting[a.seq] = a.ok
				case <-time.After(20 * time.Second):
					c.Fail("sequential", "%s: the sequences do not run concurrently", what)
					free = true
				}
			}
			if free {
				break
			}
			left[next]--
			close(waiting[next])
			delete(waiting, next)
		}
		for _, w := range waiting {
			close(w)
		}
		for {
			select {
			case a := <-arrive:
				close(a.ok)
			case <-finished:
				return
			}
		}
	}()
	return func(key, at string) {
		var i, j int
		fmt.Sscanf(key, "%d.%d", &i, &j)
		a := arrival{i, make(chan bool)}
		arrive <- a
		<-a.ok
	}
}

// schedules lists all orders in which the gates can be passed.
func schedules(left []int, prefix []int, use func([]int)) {
	done := true
	for i := range left {
		if left[i] > 0 {
			done = false
			left[i]--
			schedules(left, append(prefix[:len(prefix):len(prefix)], i), use)
			left[i]++
		}
	}
	if done {
		use(prefix)
	}
}

var alphabet = []call{
	{role: "P", act: "ok"}, {role: "S", id: 1, act: "ok", state: true}, {act: "ok"}, {role: "N", id: 7, act: "none", state: true},
	{role: "P", act: "todo"}, {role: "S", act: "wrapped"}, {act: "todo"}, {role: "P", act: "fail"}, {act: "both"},
	{role: "S", id: 9, act: "ok"}, {role: "Q", act: "ok"}, {role: "P", act: "missing"}, {act: "missing"},
}

func lists(alpha []call, n int, prefix []call, use func([]call)) {
	use(prefix)
	if len(prefix) == n {
		return
	}
	for _, k := range alpha {
		lists(alpha, n, append(prefix[:len(prefix):len(prefix)], k), use)
	}
}

func clone(l [][]call) [][]call {
	var out [][]call
	for _, q := range l {
		out = append(out, slices.Clone(q))
	}
	return out
}

func cases(tier string) []fw.Case {
	deep := tier == "thorough"
	var out []fw.Case
	add := func(name string, run func(c *fw.Ctx)) {
		out = append(out, fw.Case{Name: name, Run: run, Timeout: 300e9})
	}
	// histories of single actions
	n := 4
	if deep {
		n = 5
	}
	alpha := append(slices.Clone(alphabet), call{role: "P", act: "new", state: true}, call{act: "drop"}, call{role: "P", id: 1, act: "ok", state: true}, call{role: "N", id: 7, act: "fail", state: true})
	for _, first := range alpha {
		for _, second := range alpha {
			add(fmt.Sprintf("single/%v,%v", first, second), func(c *fw.Ctx) {
				lists(alpha, n, []call{first, second}, func(h []call) { single(c, slices.Clone(h)) })
			})
		}
	}
	// one sequence, two sequences
	m := 3
	if deep {
		m = 4
	}
	add("sequences/none", func(c *fw.Ctx) {
		sequences(c, nil, nil)
		sequences(c, [][]call{{}}, nil)
		sequences(c, [][]call{{}, {}}, nil)
	})
	for _, first := range alphabet {
		add(fmt.Sprintf("sequences/one/%v", first), func(c *fw.Ctx) {
			lists(alphabet, m+1, []call{first}, func(h []call) { sequences(c, clone([][]call{h}), nil) })
		})
		for _, second := range alphabet {
			add(fmt.Sprintf("sequences/two/%v,%v", first, second), func(c *fw.Ctx) {
				lists(alphabet, 2, []call{first}, func(a []call) {
					lists(alphabet, m, []call{second}, func(b []call) { sequences(c, clone([][]call{a, b}), nil) })
				})
			})
			if first.act == "missing" || first.id == 9 || first.role == "Q" {
				continue
			}
			if deep {
				add(fmt.Sprintf("sequences/three/%v,%v", first, second), func(c *fw.Ctx) {
					lists(alphabet, 1, nil, func(b []call) {
						lists(alphabet, 2, nil, func(d []call) { sequences(c, clone([][]call{{first, second}, b, d}), nil) })
					})
				})
			}
		}
	}
	// every schedule
	good := []call{{role: "P", act: "ok"}, {role: "P", act: "todo"}, {role: "S", act: "ok", state: true}, {role: "N", id: 7, act: "value"}, {role: "P", act: "fail"}}
	shapes := [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}}
	if deep {
		shapes = append(shapes, []int{3, 2}, []int{2, 1, 1}, []int{2, 2, 1})
	}
	for _, shape := range shapes {
		total := 0
		for _, k := range shape {
			total += k
		}
		// every action is one of the good ones; the failing one at most once
		var fill func(l []call)
		fill = func(l []call) {
			if len(l) < total {
				for _, k := range good {
					if k.act == "fail" && slices.ContainsFunc(l, func(k call) bool { return k.act == "fail" }) {
						continue
					}
					if (total > 4 || total > 3 && !deep) && (k.act == "value" || k.state) {
						continue
					}
					fill(append(l[:len(l):len(l)], k))
				}
				return
			}
			add(fmt.Sprintf("schedules/%v/%v", shape, l), func(c *fw.Ctx) {
				var seqs [][]call
				i := 0
				var left []int
				for _, k := range shape {
					seqs = append(seqs, slices.Clone(l[i:i+k]))
					i += k
					left = append(left, 2*k)
				}
				schedules(left, nil, func(sch []int) {
					if len(c.Violations) > 0 {
						return
					}
					// a sequence may stop at its failing action
					sequences(c, clone(seqs), cutSchedule(seqs, sch))
				})
			})
		}
		fill(nil)
	}
	add("init", initCases)
	return append(out, append(valueCases(deep), runCases(deep)...)...)
}

// cutSchedule leaves out the actions that follow a failing action in its
// sequence, which need not run. The others run to their end.
func cutSchedule(seqs [][]call, sch []int) []int {
	upTo := make([]int, len(seqs))
	for i, q := range seqs {
		upTo[i] = 2 * len(q)
		for j, k := range q {
			if k.act == "fail" {
				upTo[i] = 2 * (j + 1)
			}
		}
	}
	out := []int{}
	for _, i := range sch {
		if upTo[i] > 0 {
			upTo[i]--
			out = append(out, i)
		}
	}
	return out
}

// initCases: Init and Cleanup call the model once and report what it says.
func initCases(c *fw.Ctx) {
	for _, ie := range []error{nil, errPlain, mbt.ErrNotImplemented, errWrapped} {
		for _, ce := range []error{nil, errPlain, mbt.ErrNotImplemented, errWrapped} {
			for _, re := range []error{nil, errPlain} {
				for _, opt := range []*pb.ExecOptions{nil, {}, {CaptureState: true}} {
					for _, rolesErr := range []error{nil, errPlain} {
						s := newSut()
						s.initErr, s.endErr, s.roleErr = ie, ce, re
						if rolesErr != nil {
							s.roles[mbt.RoleId{RoleName: "S", Index: 1}].(*stateRole).err = rolesErr
						}
						srv := server(s)
						c.Count("states", 1)
						c.Count("transitions", 2)
						what := fmt.Sprintf("Init error %v, roles error %v, state error %v, options %v", ie, re, rolesErr, opt)
						res, err := srv.Init(context.Background(), wire(&pb.InitRequest{Options: opt}))
						if err != nil {
							if ie == nil && re == nil && rolesErr == nil {
								c.Fail("init", "%s: %v", what, err)
							}
						} else {
							res = wire(res)
							failed := ie != nil || re != nil || rolesErr != nil && opt.GetCaptureState()
							if ok := res.GetStatus().GetCode() == pb.StatusCode_STATUS_OK; ok == failed {
								c.Fail("init", "%s: reported %v", what, res.GetStatus())
							}
							if !failed {
								if a, b := refText(res.GetRoles()), s.roleText(); a != b {
									c.Fail("init-roles", "%s: roles %s, should be %s", what, a, b)
								}
								if a, b := stateText(res.GetRoleStates()), s.stateText(opt.GetCaptureState()); a != b {
									c.Fail("init-states", "%s: states %s, should be %s", what, a, b)
								}
							}
						}
						if !slices.Equal(s.calls, []string{"Init"}) {
							c.Fail("init-calls", "%s: called %v", what, s.calls)
						}
						if x, err := srv.Cleanup(context.Background(), wire(&pb.CleanupRequest{})); (err != nil || x.GetStatus().GetCode() != pb.StatusCode_STATUS_OK) != (ce != nil) {
							c.Fail("cleanup", "Cleanup error %v: %v, %v", ce, x, err)
						}
						if !slices.Equal(s.calls, []string{"Init", "Cleanup"}) {
							c.Fail("init-calls", "%s: called %v", what, s.calls)
						}
						// an action whose roles cannot be listed is not reported as done on them
						if len(s.runs) != 0 {
							c.Fail("init-runs", "%s: actions ran", what)
						}
						r, err := srv.ExecuteAction(context.Background(), call{act: "ok", key: "k"}.request())
						if re != nil && err == nil && r.GetStatus().GetCode() == pb.StatusCode_STATUS_OK {
							c.Fail("roles-error", "%s: an action is reported OK though the roles are not known", what)
						}
					}
				}
			}
		}
	}
	c.Count("traces", 1)
}

func init() {
	fw.Register(&fw.Check{ID: "C24",
		Technique: "stateless exploration of the real test plugin: every request and every history of requests up to a length, and every schedule of the concurrent sequences under a controlled scheduler; answers compared with what the system under test recorded",
		Rule:      "every history of single actions and every set of action sequences over 13-17 actions (three kinds of roles, the model, missing roles and actions, failures, unimplemented ones); every interleaving of the starts and ends of the actions of concurrent sequences; every value shape up to depth 2; the command line of the runner",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "histories of 5 actions; one sequence of 5, two of 2 and 4, three of 2, 1 and 2 actions; schedules of 5 actions"
			}
			return "histories of 4 actions; one sequence of 4, two of 2 and 3 actions; schedules of 4 actions"
		},
		Assume: []string{"actions of one request do not replace the roles that later actions of it address", "the runner is replaced by a program that sends the requests"},
		Cases:  cases})
}
