package checks

import (
	ast "fizz/proto"
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"verif/cli"
	"verif/fw"
	"verif/impl"
	"verif/lts"
	"verif/ref"
	. "verif/sb"
)

func lim(max, conc int64) *ast.Options {
	return &ast.Options{MaxActions: max, MaxConcurrentActions: conc}
}

// upTo is the graph explored when no action starts from a state that takes max actions or
// more to reach. What the last step returned is part of a state.
func upTo(rg *ref.Graph, max int) *lts.LTS {
	type node struct {
		cfg string
		ret string
	}
	cfgs := map[string]int{} // states whose running actions only differ in their order are one
	name := make([]string, len(rg.Cfgs))
	for i, c := range rg.Cfgs {
		if c != nil {
			name[i] = c.Merged()
		}
		if _, ok := cfgs[name[i]]; !ok {
			cfgs[name[i]] = i
		}
	}
	l := &lts.LTS{}
	idx := map[node]int{}
	var nodes []node
	var depth []int
	add := func(n node, d int) (int, bool) {
		i, ok := idx[n]
		if !ok {
			i = l.Add(rg.LTS.Obs[cfgs[n.cfg]])
			idx[n] = i
			nodes, depth = append(nodes, n), append(depth, d)
			return i, true
		}
		if depth[i] > d {
			depth[i] = d
			return i, true
		}
		return i, false
	}
	add(node{}, 0)
	for cur := []int{0}; len(cur) > 0; {
		var next []int
		for k := 0; k < len(cur); k++ {
			i := cur[k]
			n := nodes[i]
			for e, st := range rg.Steps[cfgs[n.cfg]] {
				d := depth[i]
				if i > 0 && st.Kind == "action" {
					if d++; d > max {
						continue
					}
				}
				to, better := add(node{name[rg.Tos[cfgs[n.cfg]][e]], st.Returns}, d)
				if better && d > depth[i] {
					next = append(next, to)
				} else if better {
					cur = append(cur, to)
				}
			}
		}
		cur = next
	}
	for i, n := range nodes {
		for e, st := range rg.Steps[cfgs[n.cfg]] {
			if i > 0 && st.Kind == "action" && depth[i] >= max {
				continue
			}
			x := rg.LTS.Out[cfgs[n.cfg]][e]
			l.Out[i] = append(l.Out[i], lts.Edge{Label: x.Label, To: idx[node{name[x.To], st.Returns}], Tau: x.Tau})
		}
	}
	return l
}

// totalLimit: with max_actions the explored graph is the full one without the actions
// that start from states which max_actions actions are needed for.
func totalLimit(max int, m impl.Mode, dir int) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		f, opt := g.file(), g.opt()
		rg, err := build(f, opt, false)
		if err == ref.ErrUnsupported {
			c.Count("unsupported", 1)
			return
		}
		if err != nil {
			panic(err)
		}
		opt.Options.MaxActions = int64(max)
		r, err := impl.Run(f, opt, m)
		if err != nil || r.Err != nil || r.Root == nil {
			c.Fail("crash", "%v\n%s", err, specText(f))
			return
		}
		ig := impl.Extract(r.Root)
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		c.Count("impl_nodes", len(ig.Nodes)+ig.Inner)
		c.Count("programs", 1)
		compareGraphs(c, upTo(rg, max), ig.LTS, dir, f)
	}
}

// merged is the graph without the distinction how much of the limits is used up.
func merged(rg *ref.Graph) *lts.LTS {
	l := &lts.LTS{}
	idx := map[string]int{}
	at := make([]int, len(rg.Cfgs))
	for i, c := range rg.Cfgs {
		k := ""
		if c != nil {
			k = c.Merged()
		}
		j, ok := idx[k]
		if !ok {
			j = l.Add(rg.LTS.Obs[i])
			idx[k] = j
		}
		at[i] = j
	}
	for i, es := range rg.LTS.Out {
		for _, e := range es {
			l.Out[at[i]] = append(l.Out[at[i]], lts.Edge{Label: e.Label, To: at[e.To], Tau: e.Tau})
		}
	}
	return l
}

// limited: the explored graph has every behaviour within the per-action limits, and every
// state and every step of it is one that some behaviour within the limits has.
func limited(crash bool, ms ...impl.Mode) func(*fw.Ctx, gen) {
	return func(c *fw.Ctx, g gen) {
		for _, m := range ms {
			opt := g.opt()
			if crash {
				withCrash(opt)
			}
			rg, ig, r := runBoth(c, g.file(), opt, m, crash)
			if r == nil {
				return
			}
			if compareGraphs(c, rg.LTS, ig.LTS, 1, g.file()) {
				compareGraphs(c, merged(rg), ig.LTS, 2, g.file())
			}
		}
	}
}

type limitAct struct {
	name string
	mk   func(name, v, w string) *ast.Action
}

func limitActs() []limitAct {
	return []limitAct{
		{"flip", func(n, v, w string) *ast.Action { return Act(ATOMIC, n, Py(v+" = 1 - "+v)) }},
		{"cyc", func(n, v, w string) *ast.Action { return Act(ATOMIC, n, Py(v+" = ("+v+" + 1) % 3")) }},
		{"two", func(n, v, w string) *ast.Action { return Act(SERIAL, n, Py(v+" = 1"), Py(v+" = 0")) }},
		{"req", func(n, v, w string) *ast.Action {
			return Act(SERIAL, n, Require(v+" == "+w), Py(v+" = 1 - "+v), Py(w+" = "+v))
		}},
		{"noop", func(n, v, w string) *ast.Action { return Act(SERIAL, n, If("x == 0", Py("y = 1")), Pass()) }},
	}
}

// actionLimits: two actions under every combination of limits.
func actionLimits(conc int64, la, lb []*ast.Options) []gen {
	var out []gen
	as := limitActs()
	for i, a := range as {
		for j, b := range as {
			for k, oa := range la {
				for l, ob := range lb {
					if oa == nil && ob == nil {
						continue
					}
					out = append(out, gen{fmt.Sprintf("act/%s-%s/%d%d/c%d", a.name, b.name, k, l, conc), func() *ast.File {
						return File(Init(Py("x = 0"), Py("y = 0")), as[i].mk("A", "x", "y"), as[j].mk("B", "x", "y"))
					}, func() *ast.StateSpaceOptions {
						o := Opts(100, conc)
						o.ActionOptions = map[string]*ast.Options{}
						if oa != nil {
							o.ActionOptions["A"] = oa
						}
						if ob != nil {
							o.ActionOptions["B"] = ob
						}
						return o
					}})
				}
			}
		}
	}
	return out
}

// roleLimits: limits for all instances, for each instance, for one instance and for the
// action of the same name elsewhere.
func roleLimits(conc int64, os []*ast.Options) []gen {
	var out []gen
	keys := [][]string{{"R.A"}, {"R#.A"}, {"R#0.A"}, {"A"}, {"R.A", "R#.A"}, {"R#.A", "A"}, {"R.A", "R.BA"}, {"S.A"}, {"S#.A", "R#1.A"}, {"R.Init"}}
	for ki, ks := range keys {
		for oi := range os {
			for oj := range os {
				if len(ks) == 1 && oj > 0 {
					continue
				}
				for shape := 0; shape < 4; shape++ {
					out = append(out, gen{fmt.Sprintf("role/%d/%d%d/s%d/c%d", ki, oi, oj, shape, conc), func() *ast.File {
						ra := Act(ATOMIC, "A", Py("self.v = 1 - self.v"))
						if shape%2 == 1 {
							ra = Act(SERIAL, "A", Py("self.v = 1"), Py("self.v = 0"))
						}
						rs := RoleDef("R", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.v = 0")), ra}, nil)
						ss := RoleDef("S", false, []*ast.Action{Act(ATOMIC, "Init", Py("self.v = 0")), Act(ATOMIC, "A", Py("self.v = 1 - self.v"))}, nil)
						if shape >= 2 {
							rs.Actions = append(rs.Actions, Act(ATOMIC, "BA", Require("self.v == 0"), Py("self.v = 1")))
							f := File(Init(Py("r0 = R()"), Py("r1 = R()")))
							f.Roles = []*ast.Role{rs}
							return f
						}
						f := File(Init(Py("r0 = R()"), Py("r1 = R()"), Py("s = S()")), Act(ATOMIC, "A", Py("s.v = 2")))
						if shape == 1 {
							f = File(Init(Py("r0 = R()"), Py("r1 = R()"), Py("s = S()")))
						}
						f.Roles = []*ast.Role{rs, ss}
						return f
					}, func() *ast.StateSpaceOptions {
						o := Opts(100, conc)
						o.ActionOptions = map[string]*ast.Options{ks[0]: os[oi]}
						if len(ks) > 1 {
							o.ActionOptions[ks[1]] = os[oj]
						}
						return o
					}})
				}
			}
		}
	}
	return out
}

// optFile is a specification in which every option changes what is reachable.
func optFile() *ast.File {
	f := File(Init(Py("n = 0"), Py("c = 0"), Py("d = 0"), Py("e = 0"), Py("stop = 0")),
		Act(ATOMIC, "Tick", Require("n < 4 and stop == 0"), Py("n = n + 1")),
		Act(SERIAL, "Busy", Require("c < 3 and stop == 0"), Py("c = c + 1"), Py("c = c - 1")),
		Act(SERIAL, "Dur", Require("d == 0 and stop == 0"), Py("d = 1"), Py("d = 0")),
		Act(ATOMIC, "See", Require("d == 1 and stop == 0"), Py("e = 1")),
		Act(ATOMIC, "Stop", Require("c == 0 and d == 0"), Py("stop = 1"), Require("n == 0 and e == 0")))
	ex := func(n, e string) { f.Invariants = append(f.Invariants, Assertion(n, []string{"exists"}, Return(e))) }
	for k := 1; k <= 4; k++ {
		ex(fmt.Sprintf("N%d", k), fmt.Sprintf("n == %d", k))
	}
	for k := 1; k <= 3; k++ {
		ex(fmt.Sprintf("C%d", k), fmt.Sprintf("c == %d", k))
		ex(fmt.Sprintf("D%d", k), fmt.Sprintf("c == %d and d == 1", k))
	}
	ex("E", "e == 1")
	ex("S", "stop == 1")
	return f
}

// setOpts are the options that one source, fizz.yaml or the front matter, sets.
type setOpts struct {
	max, conc   int64
	crash, dead *bool
	acts        map[string]*ast.Options
}

func (s *setOpts) message() *ast.StateSpaceOptions {
	o := &ast.StateSpaceOptions{DeadlockDetection: s.dead, ActionOptions: s.acts}
	if s.max > 0 || s.conc > 0 || s.crash != nil {
		o.Options = &ast.Options{MaxActions: s.max, MaxConcurrentActions: s.conc, CrashOnYield: s.crash}
	}
	return o
}

func (s *setOpts) yaml() string {
	var b strings.Builder
	if s.max > 0 || s.conc > 0 || s.crash != nil {
		b.WriteString("options:\n")
		put := func(in string, o *ast.Options) {
			if o.MaxActions > 0 {
				fmt.Fprintf(&b, "%smax_actions: %d\n", in, o.MaxActions)
			}
			if o.MaxConcurrentActions > 0 {
				fmt.Fprintf(&b, "%smax_concurrent_actions: %d\n", in, o.MaxConcurrentActions)
			}
			if o.CrashOnYield != nil {
				fmt.Fprintf(&b, "%scrash_on_yield: %v\n", in, *o.CrashOnYield)
			}
		}
		put("  ", s.message().Options)
	}
	if len(s.acts) > 0 {
		b.WriteString("action_options:\n")
		for _, k := range slices.Sorted(maps.Keys(s.acts)) {
			o := s.acts[k]
			fmt.Fprintf(&b, "  %q:\n", k)
			if o.MaxActions > 0 {
				fmt.Fprintf(&b, "    max_actions: %d\n", o.MaxActions)
			}
			if o.MaxConcurrentActions > 0 {
				fmt.Fprintf(&b, "    max_concurrent_actions: %d\n", o.MaxConcurrentActions)
			}
			if o.CrashOnYield != nil {
				fmt.Fprintf(&b, "    crash_on_yield: %v\n", *o.CrashOnYield)
			}
		}
	}
	if s.dead != nil {
		fmt.Fprintf(&b, "deadlock_detection: %v\n", *s.dead)
	}
	return b.String()
}

// effective combines the options: the front matter overrides fizz.yaml, which overrides
// the defaults.
func effective(file, fm *setOpts) *ast.StateSpaceOptions {
	yes := true
	o := &ast.StateSpaceOptions{Options: &ast.Options{}, DeadlockDetection: &yes, ActionOptions: map[string]*ast.Options{}}
	o.Options.CrashOnYield = &yes
	for _, s := range []*setOpts{file, fm} {
		if s == nil {
			continue
		}
		if s.max > 0 {
			o.Options.MaxActions = s.max
		}
		if s.conc > 0 {
			o.Options.MaxConcurrentActions = s.conc
		}
		if s.crash != nil {
			o.Options.CrashOnYield = s.crash
		}
		if s.dead != nil {
			o.DeadlockDetection = s.dead
		}
		for k, v := range s.acts {
			o.ActionOptions[k] = v
		}
	}
	if o.Options.MaxActions == 0 {
		o.Options.MaxActions = 100
	}
	if o.Options.MaxConcurrentActions == 0 {
		o.Options.MaxConcurrentActions = min(2, o.Options.MaxActions)
	}
	return o
}

// precedence: the run of the binary reports what holds under the combined options.
func precedence(file, fm *setOpts) func(*fw.Ctx) {
	return func(c *fw.Ctx) {
		f := optFile()
		eff := effective(file, fm)
		sp := ref.NewSpec(f, eff)
		sp.TrackDepth = eff.Options.MaxActions < 20
		rg, err := sp.Build(refLimit, eff.Options.GetCrashOnYield())
		if err != nil {
			panic(err)
		}
		c.Count("states", len(rg.Cfgs))
		c.Count("transitions", rg.LTS.Edges())
		e := &expected{exists: map[string]bool{}}
		for _, inv := range f.Invariants {
			e.exists[inv.Name] = true
			for i := range rg.Steps {
				for _, st := range rg.Steps[i] {
					if e.exists[inv.Name] && truth(st.To, inv, st) {
						delete(e.exists, inv.Name)
					}
				}
			}
		}
		for i, cfg := range rg.Cfgs {
			if i > 0 && int64(cfg.Depth) < eff.Options.MaxActions && eff.GetDeadlockDetection() {
				e.dead = e.dead || len(rg.Steps[i]) == 0
			}
		}
		var opt *ast.StateSpaceOptions
		if file != nil {
			opt = file.message()
		}
		text := ""
		if fm != nil {
			text = fm.yaml()
			f.FrontMatter = &ast.FrontMatter{Yaml: text}
		}
		o := cli.Run([]cli.Spec{cli.Named("spec", f)}, opt, nil)
		c.Count("cli_runs", 1)
		c.Count("traces", 1)
		if msg := e.check(o, false); msg != "" {
			c.Fail("options", "with fizz.yaml %v and the front matter\n%s\nthe run %s\n%s", opt, text, msg, tail(o.Text))
		}
		c.Sample(map[string]any{"fizz.yaml": fmt.Sprint(opt), "front_matter": text, "verdict": o.Verdict, "never_reached": o.Names})
	}
}

func precedenceCases() []fw.Case {
	yes, no := true, false
	tri := []*bool{nil, &no, &yes}
	var out []fw.Case
	add := func(name string, file, fm *setOpts) {
		out = append(out, fw.Case{Name: "options/" + name, Run: precedence(file, fm)})
	}
	ns := []int64{0, 1, 2, 3}
	for _, m1 := range ns {
		for _, m2 := range ns {
			for _, c1 := range ns {
				for _, c2 := range ns {
					file, fm := &setOpts{max: m1, conc: c1, crash: &no, dead: &no}, &setOpts{max: m2, conc: c2}
					if c1+c2 == 0 && m1 == 1 && m2 > 1 {
						continue // the default of one option that depends on another one
					}
					add(fmt.Sprintf("bounds/%d%d/%d%d", m1, c1, m2, c2), file, fm)
				}
			}
		}
	}
	for i1, a1 := range tri {
		for i2, a2 := range tri {
			for j1, b1 := range tri {
				for j2, b2 := range tri {
					file, fm := &setOpts{crash: a1, dead: b1, max: 3, conc: 2}, &setOpts{crash: a2, dead: b2}
					add(fmt.Sprintf("flags/%d%d/%d%d", i1, j1, i2, j2), file, fm)
					if a1 == nil && b1 == nil {
						add(fmt.Sprintf("nofile/%d%d", i2, j2), nil, &setOpts{max: 3, crash: a2, dead: b2})
					}
				}
			}
		}
	}
	acts := []map[string]*ast.Options{nil, {"Busy": lim(0, 1)}, {"Tick": lim(1, 0)}, {"Dur": {CrashOnYield: &no}}, {"Busy": lim(0, 3), "Tick": lim(2, 0)}, {"Dur": {CrashOnYield: &yes}}}
	for i, a := range acts {
		for j, b := range acts {
			for k, x := range tri {
				add(fmt.Sprintf("acts/%d%d/%d", i, j, k), &setOpts{max: 4, conc: 3, dead: &no, acts: a}, &setOpts{crash: x, acts: b})
			}
		}
	}
	add("none", nil, nil)
	add("empty", &setOpts{}, nil)
	add("both-empty", &setOpts{}, &setOpts{})
	return out
}

func slowFast() []gen {
	var out []gen
	for steps := 2; steps <= 4; steps++ {
		for fast := 1; fast <= 3; fast++ {
			for order := 0; order < 2; order++ {
				out = append(out, gen{fmt.Sprintf("slow/%d-%d/%d", steps, fast, order), func() *ast.File {
					var ss []*ast.Statement
					for k := 1; k < steps; k++ {
						ss = append(ss, Py("y = y + 0"))
					}
					ss = append(ss, Py(fmt.Sprintf("x = %d", fast)))
					slow := Act(SERIAL, "Slow", append([]*ast.Statement{Require("x == 0")}, ss...)...)
					quick := Act(ATOMIC, "Quick", Require(fmt.Sprintf("x < %d", fast)), Py("x = x + 1"))
					f := File(Init(Py("x = 0"), Py("y = 0")), slow, quick, Act(ATOMIC, "Next", Require(fmt.Sprintf("x == %d", fast)), Py("y = 1")))
					if order == 1 {
						f.Actions[1], f.Actions[2] = f.Actions[2], f.Actions[1]
					}
					return f
				}, func() *ast.StateSpaceOptions { return Opts(100, 1) }})
			}
		}
	}
	return out
}

func without(gs []gen, parts ...string) []gen {
	var out []gen
	for _, g := range gs {
		if !slices.ContainsFunc(parts, func(p string) bool { return strings.Contains(g.name, p) }) {
			out = append(out, g)
		}
	}
	return out
}

func init() {
	fw.Register(&fw.Check{ID: "C13",
		Technique: "exhaustive enumeration of programs and limits; the explored graph is compared by subset construction over all traces with the reference graph under the same limits, and the run of the binary with the reference graph under the combined options",
		Rule:      "pairs of actions under every combination of per-action limits; roles under per-role, per-instance and single-instance limits; the total limits on every pair of the catalogue; every pair of option settings in fizz.yaml and the front matter",
		Cases: func(tier string) []fw.Case {
			all := []*ast.Options{nil, lim(1, 0), lim(2, 0), lim(0, 1), lim(3, 1)}
			ro := []*ast.Options{lim(1, 0), lim(2, 0), lim(0, 1)}
			ms := []impl.Mode{{}, {Strategy: "dfs"}}
			concs, totals := []int64{1, 2, 3}, []int{1, 2, 3}
			if tier == "thorough" {
				all = append(all, lim(0, 2), lim(4, 2))
				ro = append(ro, lim(0, 2), lim(3, 2))
				ms = append(ms, impl.Mode{Strategy: "random", Seed: 1}, impl.Mode{Strategy: "random", Seed: 8}, impl.Mode{Processed: true}, impl.Mode{NoSym: true})
				totals = append(totals, 4, 5)
			}
			out := cat(
				genCases("", actionLimits(1, all[:3], all[:2]), limited(false, ms...)),
				genCases("", actionLimits(2, all, all[:4]), limited(false, ms...)),
				genCases("crash/", actionLimits(1, all[:3], all[:2]), limited(true, ms[:1]...)),
				genCases("", roleLimits(1, ro), limited(false, ms...)),
				genCases("", roleLimits(2, ro), limited(false, ms...)),
				precedenceCases(),
			)
			small := without(pairs(concs...), "par")
			for _, n := range totals {
				out = append(out, genCases(fmt.Sprintf("total/%d/", n), append(small, slowFast()...), totalLimit(n, impl.Mode{}, 0))...)
				out = append(out, genCases(fmt.Sprintf("totaldfs/%d/", n), small, totalLimit(n, impl.Mode{Strategy: "dfs"}, 2))...)
			}
			if tier == "thorough" {
				out = cat(out,
					genCases("", actionLimits(3, all, all[:4]), limited(false, ms...)),
					genCases("crash/", actionLimits(2, all, all[:4]), limited(true, ms...)),
					genCases("", roleLimits(3, ro), limited(false, ms...)),
				)
			}
			for i := range out {
				out[i].Timeout = 60 * time.Second
			}
			return out
		}})
}
