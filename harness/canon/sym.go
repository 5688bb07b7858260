package canon

import (
	"sort"
	"strconv"
	"strings"

	"go.starlark.net/starlark"
)

// Ren renames the identifiers of domains and symmetric roles.
type Ren map[string]map[int64]int64

// Used holds the identifiers of each domain and role.
type Used map[string]map[int64]bool

type symmetric interface {
	GetPrefix() string
	GetId() int64
}

// Dom describes a symmetry domain. Symmetric roles are nominal domains.
type Dom struct {
	Name, Kind                    string
	Limit, Divergence, Start      int
	Materialize, Reflection, Role bool
}

func (r *R) plain(v starlark.Value) string { return (&R{Ren: r.Ren}).Val(v) }

func (r *R) id(prefix string, id int64) int64 {
	if r.Used != nil {
		if r.Used[prefix] == nil {
			r.Used[prefix] = map[int64]bool{}
		}
		r.Used[prefix][id] = true
	}
	if n, ok := r.Ren[prefix][id]; ok {
		return n
	}
	return id
}

// Name renames the role of a name such as Role#0 or Role#0.Act.
func (r *R) Name(s string) string {
	if r.Ren == nil && r.Used == nil {
		return s
	}
	i := strings.Index(s, "#")
	if i < 0 {
		return s
	}
	rest := ""
	num := s[i+1:]
	if d := strings.Index(num, "."); d >= 0 {
		num, rest = num[:d], num[d:]
	}
	n, err := strconv.ParseInt(num, 10, 64)
	if err != nil {
		return s
	}
	name := s[:i]
	return name + "#" + strconv.FormatInt(r.id(strings.TrimPrefix(name, "role "), n), 10) + rest
}

// Erase removes the identifier of a symmetric role from a label.
func Erase(s string, doms map[string]*Dom) string {
	for n, d := range doms {
		if !d.Role {
			continue
		}
		for {
			i := strings.Index(s, n+"#")
			if i < 0 {
				break
			}
			j := i + len(n) + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			s = s[:i+len(n)] + s[j:]
		}
	}
	return s
}

func perms(n int) [][]int64 {
	if n == 0 {
		return [][]int64{nil}
	}
	var out [][]int64
	for _, p := range perms(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append(append(append([]int64(nil), p[:k]...), int64(n-1)), p[k:]...)
			out = append(out, q)
		}
	}
	return out
}

// images lists the renamings of one domain.
func (d *Dom) images(ids []int64) []map[int64]int64 {
	var out []map[int64]int64
	all := ids
	if d.Materialize && (d.Kind == "ordinal" || d.Kind == "interval") {
		have := map[int64]bool{}
		for _, i := range ids {
			have[i] = true
		}
		for k := 0; k < d.Limit; k++ {
			i := int64(k)
			if d.Kind == "interval" {
				i += int64(d.Start)
			}
			have[i] = true
		}
		all = nil
		for i := range have {
			all = append(all, i)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	}
	add := func(f func(k int, v int64) int64) {
		m := map[int64]int64{}
		for k, v := range all {
			m[v] = f(k, v)
		}
		out = append(out, m)
	}
	n := len(all)
	switch d.Kind {
	case "nominal":
		for _, p := range perms(n) {
			add(func(k int, _ int64) int64 { return p[k] })
		}
	case "ordinal":
		add(func(k int, _ int64) int64 { return int64(k) })
		if d.Reflection {
			add(func(k int, _ int64) int64 { return int64(n - 1 - k) })
		}
	case "interval":
		add(func(_ int, v int64) int64 { return v - all[0] })
		if d.Reflection {
			add(func(_ int, v int64) int64 { return all[n-1] - v })
		}
	case "rotational":
		l := int64(d.Limit)
		for s := int64(0); s < l; s++ {
			add(func(_ int, v int64) int64 { return (v + s) % l })
			if d.Reflection {
				add(func(_ int, v int64) int64 { return (2*l - v + s) % l })
			}
		}
	}
	return out
}

// Renamings lists the images of the identifiers under all symmetries.
func Renamings(used Used, doms map[string]*Dom) []Ren {
	out := []Ren{{}}
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := doms[n]
		if d == nil {
			continue
		}
		var ids []int64
		for i := range used[n] {
			ids = append(ids, i)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		var next []Ren
		for _, m := range d.images(ids) {
			for _, r := range out {
				q := Ren{}
				for k, v := range r {
					q[k] = v
				}
				q[n] = m
				next = append(next, q)
			}
		}
		out = next
	}
	return out
}

// Min is the least text that render produces under any symmetry.
func Min(doms map[string]*Dom, alias bool, render func(r *R) string) string {
	u := Used{}
	render(&R{Used: u, Alias: alias})
	best := ""
	for i, ren := range Renamings(u, doms) {
		if s := render(&R{Ren: ren, Alias: alias}); i == 0 || s < best {
			best = s
		}
	}
	return best
}
