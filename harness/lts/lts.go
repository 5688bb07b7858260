// Package lts holds labelled transition systems between yield points and an
// exhaustive comparison of their weak trace languages.
package lts

import (
	"fmt"
	"sort"
	"strings"
)

type Edge struct {
	Label string
	To    int
	Tau   bool
}
type LTS struct {
	Obs   []string
	Out   [][]Edge
	Info  []string
	Extra []map[string]bool
}

func (l *LTS) Add(obs string) int {
	l.Obs = append(l.Obs, obs)
	l.Out = append(l.Out, nil)
	return len(l.Obs) - 1
}
func (l *LTS) Edges() int {
	n := 0
	for _, o := range l.Out {
		n += len(o)
	}
	return n
}

func (l *LTS) closure(set map[int]bool) []int {
	var st []int
	for s := range set {
		st = append(st, s)
	}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range l.Out[s] {
			if e.Tau && !set[e.To] {
				set[e.To] = true
				st = append(st, e.To)
			}
		}
	}
	out := make([]int, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

func key(s []int) string {
	var b strings.Builder
	for _, x := range s {
		fmt.Fprintf(&b, "%d,", x)
	}
	return b.String()
}

func (l *LTS) moves(s []int) map[string]map[int]bool {
	m := map[string]map[int]bool{}
	for _, x := range s {
		for _, e := range l.Out[x] {
			if e.Tau {
				continue
			}
			k := e.Label + " => " + l.Obs[e.To]
			if m[k] == nil {
				m[k] = map[int]bool{}
			}
			m[k][e.To] = true
		}
	}
	return m
}

type Diff struct {
	Trace    []string
	Missing  string // step the implementation lacks
	Spurious string // step only the implementation has
}

func (d *Diff) Error() string {
	if d.Missing != "" {
		return fmt.Sprintf("after [%s] the step %s is missing", strings.Join(d.Trace, " ; "), d.Missing)
	}
	return fmt.Sprintf("after [%s] the step %s is not allowed", strings.Join(d.Trace, " ; "), d.Spurious)
}

type Stats struct{ Pairs, Moves int }

// Compare explores the product of the determinised systems (weak traces) from
// node 0 of both and returns the first difference in breadth-first order.
// dir: 0 both directions, 1 only missing steps, 2 only spurious steps.
func Compare(ref, impl *LTS, dir, limit int) (*Diff, Stats, error) {
	type pair struct {
		a, b []int
		prev int
		step string
	}
	var st Stats
	var q []pair
	seen := map[string]bool{}
	push := func(a, b map[int]bool, prev int, step string) {
		x, y := ref.closure(a), impl.closure(b)
		k := key(x) + "|" + key(y)
		if seen[k] {
			return
		}
		seen[k] = true
		q = append(q, pair{x, y, prev, step})
	}
	push(map[int]bool{0: true}, map[int]bool{0: true}, -1, "")
	for i := 0; i < len(q); i++ {
		if limit > 0 && i > limit {
			return nil, st, fmt.Errorf("comparison exceeds %d pairs", limit)
		}
		p := q[i]
		st.Pairs++
		trace := func() []string {
			var t []string
			for j := i; j > 0; j = q[j].prev {
				t = append([]string{q[j].step}, t...)
			}
			return t
		}
		ma, mb := ref.moves(p.a), impl.moves(p.b)
		for _, k := range skeys(ma) {
			st.Moves++
			if mb[k] == nil {
				if dir != 2 {
					return &Diff{Trace: trace(), Missing: k}, st, nil
				}
				continue
			}
			push(ma[k], mb[k], i, k)
		}
		if dir != 1 {
			for _, k := range skeys(mb) {
				if ma[k] == nil {
					return &Diff{Trace: trace(), Spurious: k}, st, nil
				}
			}
		}
	}
	return nil, st, nil
}

func skeys(m map[string]map[int]bool) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// Accept runs a chain (every state has at most one step) in a system and
// returns the states the system can be in after each step, or the first step
// it cannot take.
func Accept(sys, chain *LTS) ([][]int, string) {
	cur := sys.closure(map[int]bool{0: true})
	out := [][]int{cur}
	at := 0
	for len(chain.Out[at]) > 0 {
		e := chain.Out[at][0]
		if e.Tau {
			at = e.To
			out = append(out, cur)
			continue
		}
		m := chain.moves([]int{at})
		for k := range m {
			next := sys.moves(cur)[k]
			if next == nil {
				return nil, fmt.Sprintf("step %d, %s, is not possible", len(out), k)
			}
			cur = sys.closure(next)
		}
		out = append(out, cur)
		at = e.To
	}
	return out, ""
}
