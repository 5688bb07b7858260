// Command mkseed writes the specification and demonstration of the planted
// bugs in /verif/seeded (a development tool: no check uses it).
package main

import (
	ast "fizz/proto"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	. "verif/sb"

	"google.golang.org/protobuf/encoding/protojson"
)

const (
	Z = ast.Flow_FLOW_SERIAL
	A = ast.Flow_FLOW_ATOMIC
	P = ast.Flow_FLOW_PARALLEL
	O = ast.Flow_FLOW_ONEOF
)

type demo struct {
	file   *ast.File
	opt    *ast.StateSpaceOptions
	flags  string
	expect []string // basic regular expressions that the output must match
}

const (
	pass     = "PASSED: Model checker completed successfully"
	deadlock = "DEADLOCK detected"
)

func fails(inv string) string { return "FAILED: Model checker failed. Invariant:  *" + inv }
func unique(n int) string     { return fmt.Sprintf("Unique states: %d$", n) }

func withInv(f *ast.File, is ...*ast.Invariant) *ast.File {
	f.Invariants = append(f.Invariants, is...)
	return f
}
func withFn(f *ast.File, fs ...*ast.Function) *ast.File {
	f.Functions = append(f.Functions, fs...)
	return f
}
func withRole(f *ast.File, rs ...*ast.Role) *ast.File { f.Roles = append(f.Roles, rs...); return f }
func noDeadlock(o *ast.StateSpaceOptions) *ast.StateSpaceOptions {
	f := false
	o.DeadlockDetection = &f
	return o
}
func exists(name, e string) *ast.Invariant { return Assertion(name, []string{"exists"}, Return(e)) }

func main() {
	out := os.Args[1]
	for name, d := range demos() {
		if len(os.Args) > 2 && os.Args[2] != name {
			continue
		}
		dir := filepath.Join(out, name)
		check(os.MkdirAll(dir, 0o755))
		m := protojson.MarshalOptions{Multiline: true}
		b, err := m.Marshal(d.file)
		check(err)
		check(os.WriteFile(filepath.Join(dir, "spec.json"), b, 0o644))
		b, err = m.Marshal(d.opt)
		check(err)
		check(os.WriteFile(filepath.Join(dir, "fizz.yaml"), b, 0o644))
		var sh strings.Builder
		sh.WriteString(`#!/bin/bash
# Runs the model checker that build.sh built on the specification beside this script.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/spec.json" "$d/fizz.yaml" "$t/"
timeout 200 /opt/vp/go/bin/fizzbee ` + d.flags + ` --output-dir "$t/out" "$t/spec.json" >"$t/log" 2>&1
rc=0
`)
		for _, e := range d.expect {
			fmt.Fprintf(&sh, "grep -q '%s' \"$t/log\" || { echo 'missing: %s'; rc=1; }\n", e, e)
		}
		sh.WriteString("[ $rc = 0 ] || tail -n 40 \"$t/log\"\nexit $rc\n")
		check(os.WriteFile(filepath.Join(dir, "demo.sh"), []byte(sh.String()), 0o755))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func demos() map[string]demo {
	role := func(acts []*ast.Action, fns ...*ast.Function) *ast.Role { return RoleDef("R", false, acts, fns) }
	return map[string]demo{
		// The rest of a serial loop keeps its own copies of the elements.
		"loop-elements": {
			file: withInv(File(Init(Py("L = [[0], [0]]"), Py("n = 0")),
				Act(A, "A", Require("n == 0"), Py("n = 1"), For(Z, "x", "L", Py("x.append(1)"))),
				Act(A, "B", Require("n == 1"), Py("n = 2"))),
				Always("Short", "len(L[0]) <= 2 and len(L[1]) <= 2"),
				exists("Both", "len(L[0]) == 2 and len(L[1]) == 2")),
			opt: noDeadlock(Opts(10, 2)), expect: []string{pass},
		},
		// Two unfinished loops that differ only in what is left to do.
		"loop-rest": {
			file: withInv(File(Init(Py("L = [0, 1]"), Py("k = 5"), Py("out = ''")),
				Act(Z, "A", Require("k == 5"), For(Z, "x", "L", Atomic(Py("k = x"), If("x", Py("out = str(x) + str(L)"))))),
				Act(A, "B", IfElse(Br{"L == [0, 1]", []S{Py("L = [0, 2]")}}, Br{"", []S{Py("L = [0, 1]")}}))),
				exists("Late", "out == '1[0, 2]'"), exists("Early", "out == '2[0, 2]'")),
			opt: noDeadlock(Opts(10, 2)), expect: []string{pass},
		},
		"twin-messages": {
			file: withRole(withInv(File(Init(Py("c = Channel(ordering='unordered', delivery='exactly_once', blocking='fire_and_forget')"), Py("r = R()"), Py("s = c.stub(r)"), Py("n = 0"), Py("got = []")),
				Act(A, "Send", Require("n == 0"), Py("n = 1"), Call("", "s", "put", "1"), Call("", "s", "put", "2"))),
				exists("InOrder", "r.got == [1, 2]"), exists("Swapped", "r.got == [2, 1]")),
				role([]*ast.Action{Act(A, "Init", Py("self.got = []"))}, Func(A, "put", []string{"v"}, Py("self.got.append(v)")))),
			opt: noDeadlock(Opts(10, 2)), expect: []string{pass},
		},
		"three-exists": {
			file: withInv(File(Init(Py("x = 0")),
				Act(A, "Inc", Require("x < 3"), Py("x = x + 1"))),
				exists("Zero", "x == 0"), exists("Start", "x >= 0"), exists("Five", "x == 5"), exists("Two", "x == 2")),
			opt: noDeadlock(Opts(10, 2)), expect: []string{"FAILED: Expected states never reached", "^Invariant [0-9]*: Five"},
		},
		"freed-slots": {
			file: withInv(File(Init(Py("x = 0"), Py("a = 0")),
				Act(Z, "A", Require("x == 0"), Py("x = 1"), Atomic(Py("x = x + 1"), Py("a = 1"))),
				Act(Z, "B", Require("x == 1"), Py("x = 5"), Py("x = x + 1")),
				Act(A, "C", Require("a == 1 and x == 6"), Py("x = 100"))),
				exists("C", "x == 100")),
			opt: noDeadlock(Opts(10, 2)), expect: []string{pass},
		},
		"none-argument": {
			file: withFn(withInv(File(Init(Py("x = 0")),
				Act(A, "A", Require("x == 0"), Call("v", "", "f", "None"), Py("x = v"))),
				exists("None", "x == None")),
				Func(A, "f", []string{"p=3"}, Return("p"))),
			opt: noDeadlock(Opts(10, 2)), expect: []string{pass},
		},
		"same-messages": {
			file: withRole(withInv(File(Init(Py("c = Channel(ordering='unordered', delivery='exactly_once', blocking='fire_and_forget')"), Py("r = R()"), Py("s = c.stub(r)"), Py("n = 0")),
				Act(A, "Send", Require("n == 0"), Py("n = 1"), Oneof(Call("", "s", "put", "1"), Atomic(Call("", "s", "put", "1"), Call("", "s", "put", "1"))))),
				exists("Two", "r.got == 2")),
				role([]*ast.Action{Act(A, "Init", Py("self.got = 0"))}, Func(A, "put", []string{"v"}, Py("self.got = self.got + v")))),
			opt: noDeadlock(Opts(12, 2)), expect: []string{pass},
		},
	}
}
