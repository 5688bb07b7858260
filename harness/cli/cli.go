// Package cli runs the fizzbee binary built from the tree under test.
package cli

import (
	"bytes"
	"context"
	ast "fizz/proto"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

type Out struct {
	Text    string
	Verdict string // pass, invariant, transition, deadlock, liveness, exists, simdeadlock, unknown
	Names   []string
	Code    int
	Err     error
	Dir     string // output directory, only with Keep
}

type Spec struct {
	Name string
	File *ast.File
}

func root() string { return filepath.Join(os.Getenv("VERIF_DIR"), "build") }

// Run writes the specifications (the first is the main one) into a scratch
// directory and runs the binary on the main one. use, when not nil, can look
// at the scratch directory before it is removed.
func Run(specs []Spec, opt *ast.StateSpaceOptions, use func(dir, outDir string), flags ...string) *Out {
	return RunEnv(nil, specs, opt, use, flags...)
}

// RunEnv is Run with more environment variables. VERIF_MAPS=n selects the binary whose
// iterations over maps all start at entry n.
func RunEnv(env []string, specs []Spec, opt *ast.StateSpaceOptions, use func(dir, outDir string), flags ...string) *Out {
	base := filepath.Join(root(), "scratch")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return &Out{Err: err}
	}
	dir, err := os.MkdirTemp(base, "run")
	if err != nil {
		return &Out{Err: err}
	}
	defer os.RemoveAll(dir)
	for _, s := range specs {
		b, err := protojson.Marshal(s.File)
		if err != nil {
			return &Out{Err: err}
		}
		if err := os.WriteFile(filepath.Join(dir, s.Name+".json"), b, 0o644); err != nil {
			return &Out{Err: err}
		}
	}
	if opt != nil {
		b, err := protojson.Marshal(opt)
		if err != nil {
			return &Out{Err: err}
		}
		if err := os.WriteFile(filepath.Join(dir, "fizz.yaml"), b, 0o644); err != nil {
			return &Out{Err: err}
		}
	}
	out := filepath.Join(dir, "o")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	args := append([]string{"--output-dir", out}, flags...)
	bin := "fizzbee"
	if len(env) > 0 {
		bin = "fizzbeemap"
	}
	cmd := exec.CommandContext(ctx, filepath.Join(root(), "bin", bin), append(args, filepath.Join(dir, specs[0].Name+".json"))...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.Env = append(cmd.Env, env...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	o := &Out{Text: strings.ReplaceAll(buf.String(), dir, "DIR")}
	if ctx.Err() != nil {
		o.Err = ctx.Err()
	} else if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.Code = ee.ExitCode()
		} else {
			o.Err = err
		}
	}
	o.Verdict, o.Names = Parse(o.Text)
	if use != nil {
		use(dir, out)
	}
	return o
}

var (
	reInv   = regexp.MustCompile(`(?m)^FAILED: Model checker failed\. Invariant:\s+(\S+)$`)
	reTrans = regexp.MustCompile(`(?m)^FAILED: Model checker failed\. Transition Invariant:\s+(\S+)$`)
	reLive  = regexp.MustCompile(`(?m)^FAILED: Liveness check failed\nInvariant: (\S+)$`)
	reEx    = regexp.MustCompile(`(?m)^Invariant \d+: (\S+)$`)
)

// Parse reads the verdict lines of a run.
func Parse(t string) (string, []string) {
	t, _, _ = strings.Cut(t, "=== Replaying trace")
	pass := strings.Contains(t, "PASSED: Model checker completed successfully")
	fails := strings.Count(t, "FAILED: ")
	switch {
	case pass && fails == 0:
		return "pass", nil
	case pass:
		return "unknown", nil
	case reInv.MatchString(t):
		return "invariant", []string{reInv.FindStringSubmatch(t)[1]}
	case reTrans.MatchString(t):
		return "transition", []string{reTrans.FindStringSubmatch(t)[1]}
	case strings.Contains(t, "DEADLOCK detected") && fails > 0:
		return "deadlock", nil
	case reLive.MatchString(t):
		return "liveness", []string{reLive.FindStringSubmatch(t)[1]}
	case strings.Contains(t, "FAILED: Expected states never reached"):
		var n []string
		for _, m := range reEx.FindAllStringSubmatch(t, -1) {
			n = append(n, m[1])
		}
		return "exists", n
	case strings.Contains(t, "FAILED: Model checker failed. Deadlock/stuttering detected"):
		return "simdeadlock", nil
	}
	return "unknown", nil
}

// Named builds a Spec, giving the file the name that the binary expects.
func Named(name string, f *ast.File) Spec {
	f = proto.Clone(f).(*ast.File)
	f.SourceInfo.FileName = name + ".fizz"
	return Spec{name, f}
}

func (o *Out) String() string {
	return fmt.Sprintf("%s %v (exit %d, %v)", o.Verdict, o.Names, o.Code, o.Err)
}
