package ref

import (
	"fmt"
	"strings"

	"verif/canon"
	"verif/lts"
)

// Graph is the reference's complete state graph.
type Graph struct {
	LTS   *lts.LTS
	Cfgs  []*Cfg // Cfgs[i] is the configuration of LTS node i (nil for 0)
	Steps [][]*Step
	Tos   [][]int
	index map[string]int
	Full  bool
	Doms  map[string]*canon.Dom
}

func stripID(s string) string {
	i := strings.Index(s, "#")
	if i < 0 {
		return s
	}
	j := strings.Index(s[i:], ".")
	if j < 0 {
		return s[:i]
	}
	return s[:i] + s[i+j:]
}

// Label is the visible label of a step.
// RetObs renders the state reached together with the values returned.
func (st *Step) RetObs() string {
	doms := st.To.spec.names()
	if len(doms) == 0 {
		return st.To.Obs() + " " + st.Returns
	}
	return canon.Min(doms, false, func(r *canon.R) string {
		m := map[string]Value{}
		for k, v := range st.Rets {
			m[r.Name(k)] = v
		}
		return r.Dict(m) + st.To.obs(r)
	})
}

func (st *Step) VisLabel() string {
	l := st.Label
	switch st.Kind {
	case "thread":
		l = "thread:" + stripID(strings.TrimPrefix(l, "thread:"))
	case "message":
		l = "message"
	}
	if doms := st.To.spec.names(); len(doms) > 0 {
		l = canon.Erase(l, doms)
		if st.Returns != "" {
			l += " returns " + st.RetObs()
		}
		return l
	}
	if st.Returns != "" {
		l += " returns " + st.Returns
	}
	return l
}

// Build explores every configuration. With crashes, node identity includes
// the thread that just ran and crash edges are added.
func (s *Spec) Build(limit int, crashes bool) (*Graph, error) {
	g := &Graph{LTS: &lts.LTS{}, index: map[string]int{}, Full: true, Doms: s.Doms()}
	g.LTS.Add("")
	g.Cfgs = append(g.Cfgs, nil)
	g.Steps = append(g.Steps, nil)
	g.Tos = append(g.Tos, nil)
	var curs []int
	curs = append(curs, -1)
	get := func(c *Cfg, cur int) int {
		k := c.Key()
		if crashes {
			if cur >= 0 && (cur >= len(c.threads) || c.threads[cur] == nil) {
				cur = -1
			}
			k += fmt.Sprintf("|cur=%d", cur)
		} else {
			cur = -1
		}
		if i, ok := g.index[k]; ok {
			return i
		}
		i := g.LTS.Add(c.Obs())
		g.index[k] = i
		g.Cfgs = append(g.Cfgs, c)
		g.Steps = append(g.Steps, nil)
		g.Tos = append(g.Tos, nil)
		curs = append(curs, cur)
		return i
	}
	add := func(from int, st *Step) {
		to := get(st.To, st.Thread)
		tau := st.Returns == "" && (st.Kind == "thread" || st.Kind == "crash") && from > 0 && g.LTS.Obs[from] == g.LTS.Obs[to]
		if st.Kind == "rolecrash" && g.LTS.Obs[from] == g.LTS.Obs[to] && len(g.Cfgs[from].Roots()) == len(st.To.Roots()) {
			tau = true // nothing happened
		}
		g.LTS.Out[from] = append(g.LTS.Out[from], lts.Edge{Label: st.VisLabel(), To: to, Tau: tau})
		g.Steps[from] = append(g.Steps[from], st)
		g.Tos[from] = append(g.Tos[from], to)
	}
	for _, st := range s.Init() {
		st.Label = "Init"
		add(0, st)
	}
	for i := 1; i < len(g.Cfgs); i++ {
		if len(g.Cfgs) > limit {
			g.Full = false
			return g, fmt.Errorf("more than %d configurations", limit)
		}
		c := g.Cfgs[i]
		for _, st := range c.Succ() {
			add(i, st)
		}
		if crashes {
			if n := c.CrashThread(curs[i]); n != nil {
				add(i, &Step{Label: "crash", Kind: "crash", Thread: -1, To: n})
			}
			for k, ro := range c.Roles {
				if n := c.CrashRole(k); n != nil {
					add(i, &Step{Label: fmt.Sprintf("rolecrash:%s#%d", ro.Name, ro.Id), Kind: "rolecrash", Thread: -1, To: n})
				}
			}
		}
	}
	return g, nil
}
