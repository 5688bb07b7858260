package checks

import (
	"crypto/sha256"
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/maprt"
	. "verif/sb"
)

// the actions started in a process are numbered consecutively, whatever run they belong to
var reReq = regexp.MustCompile(`"id":\d+,`)

func renumber(s string) string {
	ids := map[string]string{"\"id\":0,": "\"id\":0,"}
	return reReq.ReplaceAllStringFunc(s, func(p string) string {
		if ids[p] == "" {
			ids[p] = fmt.Sprintf("\"id\":R%d,", len(ids))
		}
		return ids[p]
	})
}

var rePtr = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// plain gives pointers names in the order of their appearance.
func plain(s string) string {
	ids := map[string]string{}
	return rePtr.ReplaceAllStringFunc(s, func(p string) string {
		if ids[p] == "" {
			ids[p] = fmt.Sprintf("#%d", len(ids))
		}
		return ids[p]
	})
}

func linkText(l *mc.Link) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%v|%v|%v|%v|%v|\"id\":%d,", l.Name, l.Type, l.Labels, l.Fairness, l.ChoiceFairness, threadsMap(l), l.FailedInvariants, l.ReqId)
	for _, m := range l.Messages {
		fmt.Fprintf(&b, "|%s>%v %s %v %v", m.Sender, m.Receivers, m.Name, m.IsReturn, m.Lossy)
		for _, v := range m.Values {
			fmt.Fprintf(&b, " %s=%s", v.Name, v.Value)
		}
	}
	var rs []string
	for n, v := range l.Returns {
		rs = append(rs, n+"="+v.String())
	}
	sort.Strings(rs)
	fmt.Fprintf(&b, "|%v", rs)
	return b.String()
}

// answer is everything a run tells: part by part.
func answer(r *impl.Result, err error) map[string]string {
	out := map[string]string{}
	if err != nil {
		out["crash"] = fmt.Sprint(err)
		if c, ok := err.(*impl.Crash); ok {
			out["crash"] = plain(fmt.Sprint(c.Val))
		}
		return out
	}
	out["error"] = fmt.Sprint(r.Err)
	out["yields"] = fmt.Sprint(r.P.GetUniqueYieldCount())
	out["visited"] = fmt.Sprint(r.P.GetVisitedNodesCount())
	for _, p := range r.P.GetMissingWitnesses() {
		out["unseen"] += fmt.Sprint(*p, " ")
	}
	if r.Root != nil && (r.Root.Process == nil || r.Root.Heap == nil) { // no graph
		if r.Failed != nil {
			out["failed"] = fmt.Sprint(r.Failed.FailedInvariants, r.Failed.Heap.ToJson())
		}
		return out
	}
	index := map[*mc.Node]int{}
	var order []*mc.Node
	id := func(n *mc.Node) int {
		if n == nil {
			return -1
		}
		i, ok := index[n]
		if !ok {
			i = len(order)
			index[n] = i
			order = append(order, n)
		}
		return i
	}
	var nodes, links, msgs strings.Builder
	id(r.Root)
	for i := 0; i < len(order); i++ {
		n := order[i]
		if n.Process == nil {
			fmt.Fprintf(&nodes, "%d pruned\n", i)
			continue
		}
		fmt.Fprintf(&nodes, "%d %s %v %v %s %v\n", i, n.Name, n.Enabled, n.FailedInvariants, n.GetJsonString(), n.Process.Witness)
		for _, l := range n.Outbound {
			fmt.Fprintf(&links, "%d %d %s\n", i, id(l.Node), linkText(l))
		}
		for _, l := range n.Inbound {
			fmt.Fprintf(&links, "%d <%d %s\n", i, id(l.Node), l.Name)
		}
		for _, m := range n.Messages {
			fmt.Fprintf(&msgs, "%d %v\n", i, m)
		}
	}
	both := renumber(nodes.String() + "\x00" + links.String())
	out["nodes"], out["links"], _ = strings.Cut(both, "\x00")
	out["failed"] = fmt.Sprint(id(r.Failed), id(r.P.GetEarlyDeadlock()))
	path := func(p []*mc.Link) string {
		s := ""
		for _, l := range p {
			s += fmt.Sprintf("%s>%d ", l.Name, id(l.Node))
		}
		return s
	}
	if r.Root == nil {
		return out
	}
	if r.Failed != nil {
		p := mc.ExtractFailurePath(r.Failed, r.Root)
		out["path"] = path(p)
		out["errordot"] = plain(mc.GenerateFailurePath(p, "", nil))
	}
	all, messages, dead, y := mc.GetAllNodes(r.Root, 100)
	s := ""
	for _, n := range all {
		s += fmt.Sprint(id(n), " ")
	}
	out["all"] = fmt.Sprint(s, id(dead), y)
	out["messages"] = strings.Join(messages, "\n")
	out["missing"] = ""
	for _, p := range mc.CheckSimpleExistsWitness(all) {
		out["missing"] += fmt.Sprint(*p, " ")
	}
	if r.Failed == nil && len(r.File.Invariants) > 0 && dead == nil {
		p, pos := mc.CheckStrictLiveness(r.Root, all)
		if pos != nil {
			out["liveness"] = fmt.Sprint(*pos, path(p))
		}
	}
	out["dot"] = plain(mc.GenerateDotFile(r.Root, map[*mc.Node]bool{}))
	out["comm"] = mc.GenerateCommunicationGraph(messages)
	return out
}

func differ(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			x, y := strings.Split(a[k], "\n"), strings.Split(b[k], "\n")
			for i := range x {
				if i >= len(y) || x[i] != y[i] {
					z := "(end)"
					if i < len(y) {
						z = y[i]
					}
					return fmt.Sprintf("%s: %s\n became %s", k, x[i], z)
				}
			}
			return fmt.Sprintf("%s: (end)\n became %s", k, y[len(x)])
		}
	}
	return ""
}

func sumOf(m map[string]string) [32]byte {
	b, _ := json.Marshal(m) // sorted
	return sha256.Sum256(b)
}

// orders: the answer doesn't depend on the order in which maps are iterated over: every
// run in which all iterations start at the same place, and every run in which one starts
// elsewhere.
func orders(m impl.Mode, devs int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if f.SourceInfo == nil {
			f.SourceInfo = &ast.SourceInfo{}
		}
		var got map[string]string
		run := func() {
			r, err := impl.Run(f, opt, m)
			got = answer(r, err)
		}
		sizes := maprt.Run(0, nil, run)
		want, sum := got, sumOf(got)
		c.Count("programs", 1)
		c.Count("iterations", len(sizes))
		if s := want["crash"]; s != "" {
			c.Count("crashing", 1)
			c.Sample(s)
		}
		check := func(what string, args ...any) bool {
			c.Count("schedules", 1)
			if sumOf(got) == sum {
				return true
			}
			d := differ(want, got)
			part, _, _ := strings.Cut(d, ":")
			c.Fail(part, "%s: %s\n%s", fmt.Sprintf(what, args...), d, specText(f))
			return false
		}
		most := uintptr(0)
		for _, s := range sizes {
			most = max(most, min(uintptr(s), 8))
		}
		for r := uintptr(0); r < max(most, 2); r++ {
			maprt.Run(r, nil, run)
			if !check("iterations start at entry %d", r) {
				return
			}
		}
		n := 0
		for i, s := range sizes {
			for r := uintptr(1); r < min(uintptr(s), 8); r++ {
				n++
				if n > devs {
					c.Count("cut", 1)
					return
				}
				maprt.Run(0, []maprt.Deviation{{At: int64(i), R: r}}, run)
				if !check("iteration %d starts at entry %d", i, r) {
					return
				}
			}
		}
	}
}

// outputs is what a run of the binary leaves, without times and pointers.
func outputs(f *ast.File, opt *ast.StateSpaceOptions, env []string, flags ...string) map[string]string {
	out := map[string]string{}
	o := cli.RunEnv(env, []cli.Spec{cli.Named("spec", f)}, opt, func(dir, o string) {
		filepath.Walk(o, func(p string, st os.FileInfo, err error) error {
			if err != nil || st.IsDir() {
				return nil
			}
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(o, p)
			if strings.HasSuffix(p, ".pb") {
				var m proto.Message = &ast.Links{}
				if strings.HasPrefix(filepath.Base(p), "nodes") {
					m = &ast.Nodes{}
				}
				if proto.Unmarshal(b, m) == nil {
					b, _ = proto.MarshalOptions{Deterministic: true}.Marshal(m)
				}
			}
			out["file "+rel] = plain(string(b))
			return nil
		})
	}, flags...)
	text, _, _ := strings.Cut(o.Text, "\ngoroutine ") // of a crash
	out["text"] = plain(regexp.MustCompile(`run_[-0-9_:]+`).ReplaceAllString(steady(text), "run"))
	out["end"] = o.String()
	return out
}

// fileOrders: so does what the binary prints and writes.
func fileOrders(flags ...string) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		if opt.Liveness == "false" {
			opt.Liveness = ""
		}
		want := outputs(f, opt, []string{"VERIF_MAPS=0"}, flags...)
		c.Count("programs", 1)
		for r := 1; r < 4; r++ {
			got := outputs(f, opt, []string{fmt.Sprint("VERIF_MAPS=", r)}, flags...)
			c.Count("cli_runs", 1)
			if d := differ(want, got); d != "" {
				part, _, _ := strings.Cut(d, ":")
				c.Fail(part, "iterations start at entry %d: %s\n%s", r, d, specText(f))
				return
			}
		}
	}
}

// afterOthers: a run gives the same answer whatever ran before in the process.
func afterOthers(others []gen) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		one := func(f *ast.File, opt *ast.StateSpaceOptions, m impl.Mode) map[string]string {
			var a map[string]string
			maprt.Run(0, nil, func() { a = answer(impl.Run(f, opt, m)) })
			return a
		}
		lib.ClearChannelRefs()
		want := one(f, opt, impl.Mode{})
		c.Count("programs", 1)
		for _, o := range others {
			for _, m := range []impl.Mode{{}, {NoGraph: true}, {NoReturns: true}, {NoSym: true}, {Simulate: true, Seed: 3}} {
				if o.file().Roles != nil && m.Simulate {
					continue
				}
				_, _ = impl.Run(o.file(), o.opt(), m)
				c.Count("schedules", 1)
				if d := differ(want, one(f, opt, impl.Mode{})); d != "" {
					part, _, _ := strings.Cut(d, ":")
					c.Fail("after "+part, "after %s %+v: %s\n%s", o.name, m, d, specText(f))
					return
				}
			}
		}
	}
}

// wideSpecs have many names of every kind.
func wideSpecs() []gen {
	vals := []string{
		"{'k': 1, 'l': 2, 'm': 3}", "set([1, 2, 3])", "genericmap({1: 1, 2: 2, 'a': 3})", "genericset([[1], [2], [3]])",
		"bag([1, 2, 1])", "record(a=1, b=2, c=3)", "struct(a=1, b=2, c=3)", "enum('A', 'B', 'C')", "[{'a': 1, 'b': {'c': 1, 'd': 2}}]",
	}
	var out []gen
	for i, v := range vals {
		out = append(out, gen{fmt.Sprintf("wide/value%d", i), func() *ast.File {
			return File(
				Act(ATOMIC, "Init", Py("a = 0"), Py("b = 1"), Py("c = 2"), Py("v = "+v), Py("w = [v, v]")),
				Act(ATOMIC, "A", AnyAssign("t", "[2, 1]"), Py("a = (a + 1) % 2"), Return("v")),
				Act(ATOMIC, "B", Py("b = 1 - b"), Return("[a, b]")),
				Act(SERIAL, "C", Py("p = 1"), Py("q = 2"), Py("c = (p + c) % 3"), Return("c")),
			)
		}, func() *ast.StateSpaceOptions { return Opts(2, 2) }})
	}
	role := func(n string, acts ...*ast.Action) *ast.Role {
		return RoleDef(n, false, append([]*ast.Action{Act(ATOMIC, "Init", Py("self.a = 0"), Py("self.b = 1"), Py("self.c = None"))}, acts...), []*ast.Function{
			Func(ATOMIC, "F", []string{"p", "q", "r=3"}, Py("self.a = (p + self.a) % 2"), Return("[p, q, r]")),
			Func(SERIAL, "G", []string{"p", "q"}, Py("u = p"), Py("v = q"), Py("self.b = 1 - self.b"), Return("u")),
		})
	}
	for i, fl := range []ast.Flow{ATOMIC, SERIAL} {
		for j, lev := range []ast.FairnessLevel{WEAK, STRONG} {
			out = append(out, gen{fmt.Sprintf("wide/roles%d%d", i, j), func() *ast.File {
				f := File(
					Act(ATOMIC, "Init", Py("n = R(i=1, j=2, k=3)"), Py("m = Q(i=1)"), Py("l = Q(i=2)"), Py("x = 0")),
					Fair(lev, Act(ATOMIC, "A", Call("v", "n", "F", "1", "2"), Call("w", "m", "F", "p:=0", "q:=1"), Py("x = 1 - x"))),
					Fair(lev, Act(ATOMIC, "B", Call("", "l", "G", "1", "2"))),
				)
				f.Roles = append(f.Roles, role("R", Fair(lev, Act(fl, "X", Call("v", "m", "F", "p:=0", "q:=1", "r:=2"), Py("self.b = 1 - self.b"))), Fair(lev, Act(fl, "Y", Py("self.c = x")))),
					role("Q", Act(fl, "X", Py("self.a = 1")), Fair(lev, Act(fl, "Z", Py("self.c = None")))))
				return f
			}, func() *ast.StateSpaceOptions {
				o := Opts(50, 1)
				return withActions(o, 2)
			}})
		}
	}
	return out
}

func withActions(o *ast.StateSpaceOptions, n int64) *ast.StateSpaceOptions {
	o.Options.MaxActions = n
	return o
}

// bounded keeps the runs of all specifications small.
func bounded(gs []gen, n int64) []gen {
	var out []gen
	for _, g := range gs {
		out = append(out, gen{g.name, g.file, func() *ast.StateSpaceOptions { return withActions(g.opt(), n) }})
	}
	return out
}

// withInvs adds liveness and exists assertions.
func withInvs(gs []gen) []gen {
	var out []gen
	for _, g := range gs {
		out = append(out, gen{g.name, func() *ast.File {
			f := g.file()
			f.Invariants = append(f.Invariants, liveInvs()...)
			return f
		}, g.opt})
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C25",
		Technique: "the real checker under a controlled Go runtime: every order of map iterations up to one deviation (and all uniform ones) is run; all answers (states, steps, messages, verdict, paths, exported graphs) must be identical; so must they after every other specification and mode has run in the process",
		Rule:      "the answer of a run is a function of the specification and the options",
		Bounds: func(string) string {
			return "wide, role, channel and sharing specifications with up to 2 or 3 actions: all iterations starting at entry 0..7, then the first 150 (thorough 4000) single deviations; call, crash and liveness specifications: uniform starts (thorough: 300 single deviations)"
		},
		Assume: []string{"only maps of the Go runtime are a source of unordered iteration; maps with up to 8 entries are iterated over in rotations of one order, larger ones also start at another bucket"},
		Cases: func(tier string) []fw.Case {
			devs, few := 150, 0
			if tier == "thorough" {
				devs, few = 4000, 300
			}
			var others []gen
			for i, g := range slices.Concat(roleSpecs(), chanSpecs(), withCrashes(callSpecs()), dataSpecs()) {
				if i%40 == 0 {
					others = append(others, bounded([]gen{g}, 3)...)
				}
			}
			two := bounded(slices.Concat(pairs(2), dataSpecs()), 2)
			return cat(
				genCases("", wideSpecs(), orders(impl.Mode{}, devs)),
				genCases("crash/", withCrashes(wideSpecs()), orders(impl.Mode{}, devs)),
				genCases("", bounded(roleSpecs(), 2), orders(impl.Mode{}, devs)),
				genCases("", bounded(chanSpecs(), 3), orders(impl.Mode{}, devs)),
				genCases("", bounded(callSpecs(), 2), orders(impl.Mode{}, few)),
				genCases("", two, orders(impl.Mode{}, devs/2)),
				genCases("crash/", withCrashes(bounded(roleSpecs(), 2)), orders(impl.Mode{}, few)),
				genCases("live/", withInvs(fairSpecs(2)), orders(impl.Mode{}, few)),
				genCases("nograph/", bounded(roleSpecs(), 2), orders(impl.Mode{NoGraph: true}, few)),
				genCases("sim/", wideSpecs(), orders(impl.Mode{Simulate: true, Seed: 5}, devs)),
				genCases("files/", wideSpecs(), fileOrders()),
				genCases("files/", roleSpecs(), fileOrders()),
				genCases("files/", only(chanSpecs(), ""), fileOrders()),
				genCases("simfiles/", wideSpecs(), fileOrders("--simulation", "--seed", "7")),
				genCases("after/", bounded(slices.Concat(roleSpecs(), chanSpecs(), wideSpecs()), 2), afterOthers(others)),
			)
		}})
}
