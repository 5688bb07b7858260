package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/fw"
)

// report is what the stand-in of the runner leaves behind.
type report struct {
	Args      []string
	Init      string
	Actions   []string
	Sequences string
	Cleanup   string
	Err       string
}

func show(m interface{ GetStatus() *pb.Status }) string { return m.GetStatus().GetCode().String() }

// runner stands in for the test runner, which is not part of the repository:
// it connects to the plugin and sends requests.
func runner() {
	dir := os.Getenv("VERIF_MBT_RUNNER")
	r := report{Args: os.Args[1:]}
	addr := ""
	for _, a := range os.Args[1:] {
		if s, ok := strings.CutPrefix(a, "--plugin-addr="); ok {
			addr = s
		}
	}
	fail := func(err error) {
		if err != nil {
			r.Err = err.Error()
		}
	}
	conn, err := grpc.NewClient("unix:"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	fail(err)
	if err == nil {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cl := pb.NewFizzBeeMbtPluginServiceClient(conn)
		i, err := cl.Init(ctx, &pb.InitRequest{})
		fail(err)
		r.Init = show(i)
		for k, a := range []call{{role: "P", act: "ok"}, {role: "S", id: 1, act: "none"}, {act: "todo"}, {role: "P", act: "fail"}, {role: "P", id: 8, act: "ok"}} {
			a.key = fmt.Sprint(k)
			res, err := cl.ExecuteAction(ctx, a.request())
			fail(err)
			r.Actions = append(r.Actions, show(res))
		}
		sq, err := cl.ExecuteActionSequences(ctx, &pb.ExecuteActionSequencesRequest{ActionSequence: []*pb.ActionSequence{{Requests: []*pb.ExecuteActionRequest{call{role: "P", act: "ok", key: "q"}.request()}}}})
		fail(err)
		for _, s := range sq.GetResults() {
			for _, x := range s.GetResponses() {
				r.Sequences += show(x) + " " + protojson.Format(x.GetReturnValues()[0])
			}
		}
		cu, err := cl.Cleanup(ctx, &pb.CleanupRequest{})
		fail(err)
		r.Cleanup = show(cu)
		conn.Close()
	}
	b, _ := json.Marshal(r)
	os.WriteFile(filepath.Join(dir, "report"), b, 0o644)
	code := 0
	fmt.Sscan(os.Getenv("VERIF_MBT_EXIT"), &code)
	os.Exit(code)
}

// runTests calls RunTests with the command line and options.
func runTests(c *fw.Ctx, cmdline []string, options map[string]any, byFlag bool, exit int) (*report, *sut, error) {
	dir, err := os.MkdirTemp("", "vfzmbt")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	old := os.Args
	defer func() { os.Args = old }()
	if byFlag {
		cmdline = append(slices.Clone(cmdline), "-fizzbee-mbt-bin", exe)
		os.Setenv("FIZZBEE_MBT_BIN", filepath.Join(dir, "nothing"))
	} else {
		os.Setenv("FIZZBEE_MBT_BIN", exe)
	}
	os.Setenv("VERIF_MBT_RUNNER", dir)
	os.Setenv("VERIF_MBT_EXIT", fmt.Sprint(exit))
	os.Setenv("TMPDIR", dir)
	defer os.Unsetenv("VERIF_MBT_RUNNER")
	defer os.Unsetenv("TMPDIR")
	os.Args = append(append([]string{"test"}, cmdline...), "rest")
	flag.CommandLine = flag.NewFlagSet("test", flag.ContinueOnError)
	if rest := mbt.ParseFlags(); !slices.Equal(rest, []string{"rest"}) {
		c.Fail("flags", "%v leaves %v", cmdline, rest)
	}
	s := newSut()
	err = mbt.RunTests(nil, s, s.registry(), options)
	c.Count("states", 1)
	c.Count("traces", 1)
	c.Count("transitions", len(s.runs)+2)
	var r report
	b, e := os.ReadFile(filepath.Join(dir, "report"))
	if e != nil {
		return nil, s, err
	}
	json.Unmarshal(b, &r)
	if l, _ := filepath.Glob(filepath.Join(dir, "fizzbee-mbt-*")); len(l) > 0 {
		c.Fail("left", "%v left behind", l)
	}
	return &r, s, err
}

// runCases: the runner gets the options and the flags, which win over the
// options; all its requests are served; its failure is reported.
func runCases(deep bool) []fw.Case {
	var out []fw.Case
	names := []string{"max-seq-runs", "max-parallel-runs", "max-actions"}
	for bits := 0; bits < 64; bits++ {
		for _, seeds := range []string{"", "-seq-seed=12", "-parallel-seed=-5", "-seq-seed=1 -parallel-seed=2"} {
			if !deep && seeds != "" && bits%7 != 3 {
				continue
			}
			out = append(out, fw.Case{Name: fmt.Sprintf("runner/%06b/%s", bits, seeds), Run: func(c *fw.Ctx) {
				var cmdline []string
				options := map[string]any{"other": "x y"}
				want := map[string]bool{"--other=x y": true}
				for i, n := range names {
					if bits>>(2*i)&1 == 1 {
						options[n] = 100 + i
					}
					if bits>>(2*i+1)&1 == 1 {
						cmdline = append(cmdline, fmt.Sprintf("-%s=%d", n, i*7))
						want[fmt.Sprintf("--%s=%d", n, i*7)] = true
					} else if options[n] != nil {
						want[fmt.Sprintf("--%s=%d", n, 100+i)] = true
					}
				}
				for _, f := range strings.Fields(seeds) {
					cmdline = append(cmdline, f)
					want["-"+f] = true
				}
				exit := bits % 3
				r, s, err := runTests(c, cmdline, options, bits%2 == 1, exit)
				what := fmt.Sprintf("options %v, flags %v", options, cmdline)
				if (err != nil) != (exit != 0) {
					c.Fail("exit", "%s: the runner ended with %d, the test with %v", what, exit, err)
				}
				if r == nil {
					c.Fail("not-run", "%s: the runner did not run: %v", what, err)
					return
				}
				got := map[string]bool{}
				var extra, missing []string
				for _, a := range r.Args {
					if strings.HasPrefix(a, "--plugin-addr=") {
						continue
					}
					if got[a] = true; !want[a] {
						extra = append(extra, a)
					}
				}
				for a := range want {
					if !got[a] {
						missing = append(missing, a)
					}
				}
				sort.Strings(missing)
				if len(missing) > 0 {
					c.Fail("missing-option", "%s: the runner did not get %v", what, missing)
				}
				if len(extra) > 0 {
					c.Fail("extra-option", "%s: the runner got %v", what, extra)
				}
				if a, b := fmt.Sprint(r.Init, r.Actions, r.Cleanup, r.Err), "STATUS_OK[STATUS_OK STATUS_OK STATUS_NOT_IMPLEMENTED STATUS_EXECUTION_FAILED STATUS_EXECUTION_FAILED]STATUS_OK"; a != b {
					c.Fail("answers", "%s: answers %s", what, a)
				}
				if !strings.HasPrefix(r.Sequences, "STATUS_OK ") || !strings.Contains(r.Sequences, "did q") {
					c.Fail("answers", "%s: answer to the sequences %s", what, r.Sequences)
				}
				var l []string
				for _, x := range s.runs {
					l = append(l, x.Role+x.Act)
				}
				if a, b := strings.Join(l, " ")+fmt.Sprint(s.calls), "P#0P.ok S#1S.none .todo P#0P.fail P#0P.ok[Init Cleanup]"; a != b {
					c.Fail("ran", "%s: ran %s", what, a)
				}
			}})
		}
	}
	return append(out, fw.Case{Name: "runner/none", Run: func(c *fw.Ctx) {
		if _, _, err := runTests(c, []string{"-fizzbee-mbt-bin=/nonexistent/runner"}, nil, false, 0); err == nil {
			c.Fail("exit", "a missing runner is no error")
		}
	}})
}
