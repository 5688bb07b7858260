package checks

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"time"
	"unsafe"

	"github.com/fizzbee-io/fizzbee/lib"
	libsim "github.com/fizzbee-io/fizzbee/pkg/modelchecker"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
	. "verif/sb"
)

// chooser takes the place of the random numbers of a simulation: it replays a list of
// choices and continues with first alternatives.
type chooser struct {
	picks, ways []int
	at          int
}

func (ch *chooser) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if ch.at == len(ch.picks) {
		ch.picks = append(ch.picks, 0)
		ch.ways = append(ch.ways, n)
	}
	if ch.ways[ch.at] != n {
		panic(fmt.Sprintf("a replayed run has %d alternatives instead of %d", n, ch.ways[ch.at]))
	}
	ch.at++
	return ch.picks[ch.at-1]
}

// next advances to the next list of choices.
func (ch *chooser) next() bool {
	n := len(ch.picks)
	for n > 0 && ch.picks[n-1] == ch.ways[n-1]-1 {
		n--
	}
	if n == 0 {
		return false
	}
	ch.picks, ch.ways = ch.picks[:n], ch.ways[:n]
	ch.picks[n-1]++
	ch.at = 0
	return true
}

// source of the numbers for draws from n() alternatives: rand.Intn(n) and, for powers
// of two, rand.Int63n(n) yield exactly the choice.
type source struct {
	ch *chooser
	n  func() int
}

func (s *source) Seed(int64) {}
func (s *source) Int63() int64 {
	v := int64(s.ch.pick(s.n()))
	return v<<32 | v
}

var randType = reflect.TypeOf(rand.Rand{})

// control replaces the random numbers of the processor. It finds them by their type.
func control(p *mc.Processor, ch *chooser, max int) {
	queues := 0
	v := reflect.ValueOf(p).Elem()
	for i := range v.NumField() {
		fld := v.Field(i)
		at := unsafe.Pointer(fld.UnsafeAddr())
		switch {
		case fld.Type() == randType:
			*(*rand.Rand)(at) = *rand.New(&source{ch, func() int { return max }})
		case fld.Type() == reflect.PointerTo(randType):
			*(**rand.Rand)(at) = rand.New(&source{ch, func() int { return max }})
		case fld.Kind() == reflect.Interface:
			q, ok := reflect.NewAt(fld.Type(), at).Elem().Interface().(*lib.RandomQueue[*mc.Node])
			if !ok {
				continue
			}
			queues++
			qv := reflect.ValueOf(q).Elem()
			for k := range qv.NumField() {
				if qv.Field(k).Type() == randType {
					*(*rand.Rand)(unsafe.Pointer(qv.Field(k).UnsafeAddr())) = *rand.New(&source{ch, q.Len})
				}
			}
		}
	}
	if queues == 0 {
		panic("the random queues of the simulation were not found")
	}
}

// simulations runs the simulation with every list of random choices, at most limit runs.
// It says whether these were all.
func simulations(f *ast.File, opt *ast.StateSpaceOptions, limit int, visit func(*impl.Result, error, []int) bool) bool {
	ch := &chooser{}
	for n := 0; n < limit; n++ {
		r, err := impl.Run(f, opt, impl.Mode{Simulate: true, Before: func(p *mc.Processor) { control(p, ch, int(opt.Options.MaxActions)) }})
		if !visit(r, err, slices.Clone(ch.picks)) {
			return false
		}
		if !ch.next() {
			return true
		}
	}
	return false
}

// everyRun finds the largest of the bounds for which all the simulated runs can be tried.
func everyRun(f *ast.File, opt *ast.StateSpaceOptions, limit int, bounds ...int64) bool {
	for _, m := range bounds {
		opt.Options.MaxActions = m
		if simulations(f, opt, limit, func(_ *impl.Result, err error, _ []int) bool { return err == nil }) {
			return true
		}
	}
	return false
}

// union joins simulated runs: states are the same if their hashes are.
type union struct {
	g     *lts.LTS
	idx   map[string]int
	edges map[string]bool
}

func newUnion() *union {
	u := &union{&lts.LTS{}, map[string]int{}, map[string]bool{}}
	u.g.Add("")
	return u
}

func (u *union) add(g *impl.Graph) {
	at := make([]int, len(g.Nodes))
	for i, n := range g.Nodes {
		if i == 0 {
			continue
		}
		h := n.Process.HashCode()
		k, ok := u.idx[h]
		if !ok {
			k = u.g.Add(g.LTS.Obs[i])
			u.idx[h] = k
		}
		at[i] = k
	}
	for i, es := range g.LTS.Out {
		for _, e := range es {
			k := fmt.Sprint(at[i], " ", at[e.To], " ", e.Label)
			if !u.edges[k] {
				u.edges[k] = true
				u.g.Out[at[i]] = append(u.g.Out[at[i]], lts.Edge{Label: e.Label, To: at[e.To], Tau: e.Tau})
			}
		}
	}
}

// simulated: each simulated run is a run of the reference, and all possible runs
// together are its graph.
func simulated(crash bool, limit int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		no := false
		opt.DeadlockDetection = &no
		if crash {
			withCrash(opt)
		}
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		bound := !everyRun(f, opt, limit, 1<<13)
		if bound && !everyRun(f, opt, limit, 8, 4, 2, 1) {
			c.Count("too_many_runs", 1)
			return
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		u := newUnion()
		simulations(f, opt, limit, func(r *impl.Result, err error, picks []int) bool {
			c.Count("schedules", 1)
			if err != nil || r.Err != nil {
				c.Fail("crash", "choices %v: %v\n%s", picks, err, specText(f))
				return false
			}
			if r.Failed != nil {
				c.Fail("failed", "choices %v: a run without assertions fails in %s\n%s", picks, impl.Obs(r.Failed.Process), specText(f))
				return false
			}
			ig := impl.Extract(r.Root)
			c.Count("traces", 1)
			u.add(ig)
			return compareGraphs(c, rg.LTS, ig.LTS, 2, f)
		})
		if bound {
			c.Count("bounded", 1)
			// the end of a branch of a parallel block is not a state of its own, so actions
			// are not started at the same point as in the reference
			if strings.Contains(g.name, "par") {
				return
			}
			compareGraphs(c, upTo(rg, int(opt.Options.MaxActions)), u.g, 1, f)
		} else {
			compareGraphs(c, rg.LTS, u.g, 0, f)
		}
		c.Sample(map[string]any{"spec": specText(f), "model_states": len(rg.Cfgs), "max_actions": opt.Options.MaxActions})
	}
}

// simLive: a liveness violation that a simulated run reports is real.
func simLive(invs func() []*ast.Invariant, crash, dead bool, limit int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if crash {
			withCrash(opt)
		}
		opt.DeadlockDetection = &dead
		rg, err := build(f, opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		fg := newFair(rg)
		deads := deadStates(rg)
		c.Count("states", len(fg.out))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("programs", 1)
		for _, inv := range invs() {
			val := make([]bool, len(rg.Cfgs))
			for i := 1; i < len(rg.Cfgs); i++ {
				val[i] = truth(rg.Cfgs[i], inv, &ref.Step{})
			}
			bad := fg.violates(isAE(inv), val) != nil
			f2 := proto.Clone(f).(*ast.File)
			f2.Invariants = []*ast.Invariant{proto.Clone(inv).(*ast.Invariant)}
			if !everyRun(f2, opt, limit, 4, 2, 1) {
				c.Count("too_many_runs", 1)
				continue
			}
			found := false
			ok := true
			simulations(f2, opt, limit, func(r *impl.Result, err error, picks []int) bool {
				c.Count("schedules", 1)
				if err != nil || r.Err != nil {
					c.Fail("crash", "choices %v: %v\n%s", picks, err, specText(f2))
					ok = false
					return false
				}
				reported := r.Failed != nil && len(r.Failed.FailedInvariants) > 0
				for _, n := range allNodes(r.Root) {
					n.FailedInvariants = nil // it marks the states that violate always assertions
				}
				ig := impl.Extract(r.Root)
				c.Count("traces", 1)
				if !compareGraphs(c, rg.LTS, ig.LTS, 2, f2) {
					ok = false
					return false
				}
				if r.Failed == nil {
					return true
				}
				if !reported && deads[impl.Obs(r.Failed.Process)] {
					return true
				}
				found = true
				if !bad {
					c.Fail("live:"+inv.Name, "choices %v, %d actions: a violation of %s is reported in %s, but it holds on every fair run\n%s", picks, opt.Options.MaxActions, inv.Name, impl.Obs(r.Failed.Process), specText(f2))
					ok = false
				}
				return ok
			})
			if ok && bad {
				c.Count("violated", 1)
				if found {
					c.Count("found", 1)
				}
			}
		}
	}
}

// simSafety: a simulated run fails if and only if the path it took violates the
// assertion or gets stuck, and some run does if a reachable state or step violates it.
func simSafety(invs func() []*ast.Invariant, crash, dead bool, limit int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := withQ(g.file()), g.opt()
		if crash {
			withCrash(opt)
		}
		opt.DeadlockDetection = &dead
		f.Invariants = nil
		var j *judged
		trans := false
		if ivs := invs(); len(ivs) == 0 {
			j = judge(c, f, opt, nil)
		} else if trans = kindOf(ivs[0]).name == "transition"; trans {
			j = transJudge(c, f, opt, ivs)
		} else {
			j = judge(c, f, opt, ivs)
		}
		if j == nil {
			return
		}
		deads := deadStates(j.rg)
		ks := make([]int, len(j.invs))
		for k := range ks {
			ks[k] = k
		}
		if len(ks) == 0 {
			ks = []int{-1}
		}
		for _, k := range ks {
			fk, bad := j.f, map[string]bool{}
			if k >= 0 {
				fk = j.with(k)
				if trans {
					bad = j.badSteps(k)
				} else {
					bad = j.badObs(k)
				}
			}
			all := everyRun(fk, opt, limit, 1<<13)
			if !all && !everyRun(fk, opt, limit, 8, 4, 2, 1) {
				c.Count("too_many_runs", 1)
				continue
			}
			failed := false
			ok := true
			simulations(fk, opt, limit, func(r *impl.Result, err error, picks []int) bool {
				c.Count("schedules", 1)
				c.Count("traces", 1)
				fail := func(sig, format string, a ...any) bool {
					c.Fail(sig, "choices %v: %s\n%s", picks, fmt.Sprintf(format, a...), specText(fk))
					ok = false
					return false
				}
				if err != nil || r.Err != nil {
					return fail("crash", "%v", err)
				}
				if r.Failed == nil {
					ig := impl.Extract(r.Root)
					for i, n := range ig.Nodes {
						if i > 0 && !trans && bad[j.obsRet(n.Process)] {
							return fail("passed", "the run passes through %s, which violates %s, without a failure", j.obsRet(n.Process), fk.Invariants[0].Name)
						}
						for _, e := range ig.LTS.Out[i] {
							if s := ig.LTS.Obs[i] + " -> " + ig.LTS.Obs[e.To]; i > 0 && trans && bad[s] {
								return fail("passed", "the run takes the step %s, which violates %s, without a failure", s, fk.Invariants[0].Name)
							}
						}
					}
					return true
				}
				failed = true
				path := mc.ExtractFailurePath(r.Failed, r.Root)
				if msg := realPath(r.Root, path); msg != "" {
					return fail("path", "the counterexample %s: %v", msg, pathNames(path))
				}
				ch, sets, msg := execution(j.rg, path)
				if msg != "" {
					return fail("path", "the counterexample %s: %v", msg, pathNames(path))
				}
				c.Count("counterexamples", 1)
				if len(r.Failed.FailedInvariants[0]) == 0 && (len(r.Failed.Inbound) == 0 || len(r.Failed.Inbound[0].FailedInvariants[0]) == 0) {
					if o := impl.Obs(r.Failed.Process); !dead || !deads[o] {
						return fail("deadlock", "a deadlock is reported in %s; states without successors: %v", o, keys(deads))
					}
					return true
				}
				if k < 0 || !j.violated(ch, sets, k) {
					return fail("end", "the counterexample ends in %s, which violates nothing: %v", j.obsRet(r.Failed.Process), pathNames(path))
				}
				return true
			})
			if !ok {
				return
			}
			// a run recognises a state that was reached with less of the action limits used
			dead := dead && allDead(j.rg)
			if all && (len(bad) > 0 || dead) && !failed {
				c.Fail("missed", "a violation of %v or a deadlock %v exists, but none of the possible runs fails\n%s", j.names(slices.DeleteFunc([]int{k}, func(k int) bool { return k < 0 })), keys(deads), specText(fk))
				return
			}
		}
	}
}

// allDead: some state has no step, however much of the limits is used up.
func allDead(rg *ref.Graph) bool {
	live, any := map[string]bool{}, map[string]bool{}
	for i := 1; i < len(rg.Cfgs); i++ {
		k := rg.Cfgs[i].Merged()
		any[k] = true
		for _, st := range rg.Steps[i] {
			if st.Kind != "crash" && st.Kind != "rolecrash" {
				live[k] = true
			}
		}
	}
	return len(live) < len(any)
}

// seeded: runs with the same seed are the same run: in process, through the library, and
// of the binary, which prints the seed of a failed run.
func seeded(seeds int, crash bool) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := withQ(g.file()), g.opt()
		no := false
		opt.DeadlockDetection = &no
		if crash {
			withCrash(opt)
		}
		f.Invariants = []*ast.Invariant{Always("Not11", "not (x == 1 and y == 1)")}
		rg, err := build(g.file(), opt, crash)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		opt.Options.MaxActions = 12 // not a bound of a single step
		data, err := protojson.Marshal(f)
		if err != nil {
			panic(err)
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		show := func(root, failed *mc.Node) string {
			if failed == nil {
				return "passed " + runText(impl.Extract(root))
			}
			ch, _ := impl.Chain(mc.ExtractFailurePath(failed, root))
			return "failed " + runText(ch)
		}
		for seed := int64(1); seed <= int64(seeds); seed++ {
			r, err := impl.Run(f, opt, impl.Mode{Simulate: true, Seed: seed})
			if err != nil || r.Err != nil {
				c.Fail("crash", "seed %d: %v\n%s", seed, err, specText(f))
				return
			}
			c.Count("schedules", 1)
			want := show(r.Root, r.Failed)
			for tracking, times := 0, 2; tracking <= 2; tracking++ {
				if tracking > 0 {
					times = 1
				}
				for range times {
					lib.ClearChannelRefs()
					res := libsim.RunSimulation(data, &libsim.SimulationConfig{Seed: seed, Options: opt, VisitedMapTracking: libsim.VisitedMapTracking(tracking)})
					if res.Error != nil {
						c.Fail("library", "seed %d: %v\n%s", seed, res.Error, specText(f))
						return
					}
					got := show(res.InitNode, res.FailedNode)
					// with another tracking of visited states the run is longer or shorter
					if tracking < 2 && got != want {
						c.Fail("library", "seed %d, tracking %d: the library runs\n%s\nthe processor\n%s\n%s", seed, tracking, got, want, specText(f))
						return
					}
					if tracking == 2 && res.FailedNode == nil && !compareGraphs(c, rg.LTS, impl.Extract(res.InitNode).LTS, 2, f) {
						return
					}
				}
			}
			if seed > 1 {
				continue
			}
			verdict := "unknown"
			if r.Failed != nil {
				verdict = "invariant"
			}
			var text string
			for i := range 2 {
				o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, nil, "--simulation", "--seed", fmt.Sprint(seed))
				c.Count("cli_runs", 1)
				t := steady(o.Text)
				if i == 1 && t != text {
					c.Fail("cli-repeat", "seed %d: the binary reports\n%s\nand then\n%s\n%s", seed, text, t, specText(f))
					return
				}
				text = t
				var names []string
				for _, p := range printedTrace(o.Text) {
					names = append(names, p.name+" "+p.state)
				}
				if o.Verdict != verdict || r.Failed != nil && !strings.Contains(o.Text, fmt.Sprintf("seed: %d\n", seed)) {
					c.Fail("cli", "seed %d: the binary reports %v, expected %s\n%s\n%s", seed, o, verdict, tail(o.Text), specText(f))
					return
				}
				if r.Failed != nil && !samePrinted(o.Text, mc.ExtractFailurePath(r.Failed, r.Root)) {
					c.Fail("cli", "seed %d: the binary prints the trace %v, expected %v\n%s", seed, names, pathNames(mc.ExtractFailurePath(r.Failed, r.Root)), specText(f))
					return
				}
			}
			// an unseeded session: a failure names the seed that reproduces it
			o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, nil, "--simulation", "--max_runs", "30")
			c.Count("cli_runs", 1)
			m := reSeed.FindStringSubmatch(o.Text)
			if (o.Verdict == "invariant") != (m != nil) {
				c.Fail("cli-seed", "the binary reports %v and the seed %v\n%s\n%s", o, m, tail(o.Text), specText(f))
				return
			}
			if m != nil {
				c.Count("reproduced", 1)
				o2 := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, nil, "--simulation", "--seed", m[1])
				if o2.Verdict != o.Verdict || !slices.Equal(printedTrace(o2.Text), printedTrace(o.Text)) {
					c.Fail("cli-seed", "the failure with the seed %s\n%s\nis not reproduced with it\n%s\n%s", m[1], tail(o.Text), tail(o2.Text), specText(f))
					return
				}
			} else if !strings.Contains(o.Text, "Stopped after 30 runs") {
				c.Fail("cli-runs", "the binary was to simulate 30 runs\n%s\n%s", tail(o.Text), specText(f))
				return
			}
		}
		c.Count("programs", 1)
	}
}

// defaults: a simulation of the library without options is one with the defaults of the
// command line.
func simDefaults(c *fw.Ctx) {
	for _, g := range pairs(1) {
		f := g.file()
		data, err := protojson.Marshal(f)
		if err != nil {
			panic(err)
		}
		crash, dead := true, true
		for i, o := range []*ast.StateSpaceOptions{
			nil, {}, {Options: &ast.Options{}}, {Options: &ast.Options{MaxActions: 1}}, {Options: &ast.Options{MaxConcurrentActions: 1}},
		} {
			full := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 100, MaxConcurrentActions: 2, CrashOnYield: &crash}, DeadlockDetection: &dead}
			switch i {
			case 3:
				full.Options.MaxActions, full.Options.MaxConcurrentActions = 1, 1
			case 4:
				full.Options.MaxConcurrentActions = 1
			}
			for seed := int64(1); seed <= 3; seed++ {
				c.Count("schedules", 1)
				r, err := impl.Run(f, full, impl.Mode{Simulate: true, Seed: seed})
				if err != nil || r.Err != nil {
					c.Fail("crash", "seed %d: %v\n%s", seed, err, specText(f))
					return
				}
				res := libRun(data, &libsim.SimulationConfig{Seed: seed, Options: o})
				if res.Error != nil || (res.FailedNode == nil) != (r.Failed == nil) {
					c.Fail("library", "%s, options %v, seed %d: failed %v, %v; with the defaults given: %v\n%s", g.name, o, seed, res.FailedNode != nil, res.Error, r.Failed != nil, specText(f))
					return
				}
				if r.Failed == nil {
					if a, b := runText(impl.Extract(r.Root)), runText(impl.Extract(res.InitNode)); a != b {
						c.Fail("library", "%s, options %v, seed %d: the library runs\n%s\nwith the defaults given\n%s\n%s", g.name, o, seed, b, a, specText(f))
						return
					}
				}
			}
		}
	}
}

// independent: the runs of a session share their options; a run is the same as one with
// options of its own.
func independent(c *fw.Ctx, g gen) {
	f, opt := g.file(), g.opt()
	f.Invariants = []*ast.Invariant{Assertion("Back", []string{"always", "eventually"}, Return("x == 0"))}
	withCrash(opt)
	opt.Options.MaxActions = 6
	for seed := int64(1); seed <= 12; seed++ {
		var t [2]string
		for i, o := range []*ast.StateSpaceOptions{opt, proto.Clone(opt).(*ast.StateSpaceOptions)} {
			if i == 1 {
				o.Options = proto.Clone(g.opt().Options).(*ast.Options)
				o.Options.MaxActions = 6
				withCrash(o)
			}
			r, err := impl.Run(f, o, impl.Mode{Simulate: true, Seed: seed})
			if err != nil || r.Err != nil {
				c.Fail("crash", "seed %d: %v\n%s", seed, err, specText(f))
				return
			}
			c.Count("schedules", 1)
			t[i] = fmt.Sprint(r.Failed != nil, runText(impl.Extract(r.Root)))
		}
		if t[0] != t[1] {
			c.Fail("session", "run %d of a session is\n%s\nand alone\n%s\n%s", seed, t[0], t[1], specText(f))
			return
		}
	}
}

func libRun(data []byte, cfg *libsim.SimulationConfig) (res *libsim.SimulationResult) {
	defer func() {
		if x := recover(); x != nil {
			res = &libsim.SimulationResult{Error: fmt.Errorf("panic: %v", x)}
		}
	}()
	return libsim.RunSimulation(data, cfg)
}

var (
	reSeed = regexp.MustCompile(`(?m)^seed: (\d+)$`)
	reTime = regexp.MustCompile(`(?m)^.*(\d(ns|µs|ms|s|m)\b|\d\d:\d\d|_\d\d-\d\d).*$`)
)

// steady is the output without the lines that show times.
func steady(t string) string { return reTime.ReplaceAllString(t, "") }

func runText(g *impl.Graph) string {
	var b strings.Builder
	for i, es := range g.LTS.Out {
		fmt.Fprintf(&b, "%d %s:", i, g.LTS.Obs[i])
		for _, e := range es {
			fmt.Fprintf(&b, " %s>%d", e.Label, e.To)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func samePrinted(text string, path []*mc.Link) bool {
	ps := printedTrace(text)
	if len(ps) != len(path) {
		return false
	}
	for i, l := range path {
		if ps[i].name != l.Name || !jsonEq(ps[i].state, l.Node.Heap.ToJson()) {
			return false
		}
	}
	return true
}

func simInvs() []*ast.Invariant {
	return []*ast.Invariant{
		Always("Not11", "not (x == 1 and y == 1)"), Always("Sum", "x + y < 3"),
		Assertion("Rets", []string{"always"}, Return("__returns__.get('A', 0) != 2")),
	}
}

func simTrans() []*ast.Invariant {
	return []*ast.Invariant{
		TransAssertion("Grows", Return("after.x >= before.x")), TransAssertion("Moves", Return("before.x == after.x or before.y == after.y")),
	}
}

func noInvs() []*ast.Invariant { return nil }

func init() {
	fw.Register(&fw.Check{ID: "C16",
		Technique: "stateless exploration of the simulator: every list of random choices it can make is tried; each run is accepted by the reference graph, all runs together are compared with it by subset construction over all traces",
		Rule:      "simulated run ⊆ reference, union of all runs = reference; a run fails iff its path violates an assertion or ends where nothing can start; some run fails if any path does; a reported liveness violation is real",
		Cases: func(tier string) []fw.Case {
			limit, few := 100, 40
			one, two := pairs(1), without(pairs(2), "lost", "loop", "wait")
			if tier == "thorough" {
				limit, few = 4000, 1500
				two = pairs(2)
			}
			// known findings name the cases: the same bounds in both tiers
			const live = 75
			all := slices.Concat(one, two)
			out := cat(
				genCases("", all, simulated(false, limit)),
				genCases("", roleSpecs(), simulated(false, limit)),
				genCases("", chanSpecs(), simulated(false, limit)),
				genCases("crash/", all, simulated(true, limit)),
				genCases("always/", all, simSafety(simInvs, false, false, few)),
				genCases("trans/", all, simSafety(simTrans, false, false, few)),
				genCases("dead/", slices.Concat(all, deadSpecs(1, 2)), simSafety(noInvs, false, true, few)),
				genCases("limits/", slices.Concat(
					actionLimits(1, []*ast.Options{lim(1, 0)}, []*ast.Options{nil, lim(2, 0)}),
					actionLimits(2, []*ast.Options{lim(1, 0), lim(0, 1)}, []*ast.Options{lim(2, 0), lim(1, 0)})), simSafety(noInvs, false, true, few)),
				genCases("crashlimits/", slices.Concat(
					actionLimits(1, []*ast.Options{lim(1, 0)}, []*ast.Options{nil, lim(2, 0)})), simSafety(noInvs, true, true, few)),
				genCases("both/", one, simSafety(simInvs, false, true, few)),
				genCases("crashdead/", slices.Concat(all, deadSpecs(1, 2)), simSafety(noInvs, true, true, few)),
				genCases("crashalways/", one, simSafety(simInvs, true, false, few)),
				genCases("live/", fairSpecs(1), simLive(liveInvs, false, false, live)),
				genCases("live/", withFair(only(pairs(1), "c1/inc", "c1/req"), "--", "w-", "-w", "ww"), simLive(liveInvs, false, false, live)),
				genCases("livedead/", fairSpecs(1), simLive(liveInvs, false, true, live)),
				genCases("livecrash/", withFair(only(pairs(1), "c1/inc", "c1/ser"), "-", "w"), simLive(liveInvs, true, false, live)),
			)
			seeds := 4
			if tier == "thorough" {
				seeds = 40
			}
			out = append(out, genCases("seed/", pairs(1, 2), seeded(seeds, false))...)
			out = append(out, genCases("crashseed/", pairs(1), seeded(seeds, true))...)
			out = append(out, genCases("session/", pairs(1, 2), independent)...)
			out = append(out, fw.Case{Name: "defaults", Run: simDefaults})
			for i := range out {
				out[i].Timeout = 60 * time.Second
			}
			return out
		}})
}
