package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"verif/sim/bank"
	"verif/sim/overlay"
)

// builder makes the simulated process.
type builder struct {
	dir  string
	node string
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
	return c
}

// simDir is the directory of the simulator's module.
func simDir() string {
	if d := os.Getenv("VSIM_DIR"); d != "" {
		return d
	}
	return "/verif/sim"
}

func build(dir string, race bool) (string, error) {
	goroot, err := goCmd(simDir(), "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %w", err)
	}
	ov := filepath.Join(dir, "overlay")
	if err := os.MkdirAll(ov, 0755); err != nil {
		return "", err
	}
	p, err := overlay.Gen(strings.TrimSpace(string(goroot)), repo, repo, ov)
	if err != nil {
		return "", err
	}
	out := filepath.Join(dir, "node")
	args := []string{"build", "-overlay", p, "-o", out}
	if race {
		out = filepath.Join(dir, "node-race")
		args = []string{"build", "-race", "-overlay", p, "-o", out}
	}
	b, err := goCmd(simDir(), append(args, "./cmd/node")...).CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the simulated process: %w\n%s", err, b)
	}
	return out, os.WriteFile(filepath.Join(dir, "ca.pem"), bank.CA(), 0644)
}

// result mirrors scn.Result.
type result struct {
	Prop      string         `json:"prop"`
	Seed      uint64         `json:"seed"`
	Outcome   string         `json:"outcome"`
	Class     string         `json:"class"`
	Detail    string         `json:"detail"`
	Fired     map[string]int `json:"fired"`
	Evals     int            `json:"evals"`
	Nontriv   int            `json:"nontriv"`
	Probes    map[string]int `json:"probes"`
	Steps     uint64         `json:"steps"`
	Yields    uint64         `json:"yields"`
	Choices   int            `json:"choices"`
	SchedHash uint64         `json:"sched_hash"`
	EventHash uint64         `json:"event_hash"`
	VirtualMs int64          `json:"virtual_ms"`
	Sites     []int          `json:"sites"`
	Trace     []int          `json:"trace"`
	Log       []string       `json:"log"`
	Wall      time.Duration  `json:"-"`
	Stderr    string         `json:"-"`
}

var scratchSeq atomic.Int64

type runner struct {
	dir, node, prop, tier string
	limit                 time.Duration
	race                  bool
}

// exec runs the simulated process once.
func (r *runner) exec(extra []string, args ...string) *result {
	d := filepath.Join(r.dir, fmt.Sprintf("s%d", scratchSeq.Add(1)))
	os.Mkdir(d, 0755)
	defer os.RemoveAll(d)
	limit := r.limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, r.node, args...)
	c.Dir = d
	c.Env = append([]string{"SIM_SCRATCH=" + d, "SSL_CERT_FILE=" + filepath.Join(r.dir, "ca.pem"), "SSL_CERT_DIR=/nonexistent",
		"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=2GiB", "TZ=UTC", "HOME=" + d, "PATH=/usr/bin:/bin", "VERIF_TIER=" + r.tier, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5"}, extra...)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	t := time.Now()
	err := c.Run()
	res := &result{}
	ls := strings.Split(strings.TrimRight(out.String(), "\n"), "\n")
	last := ls[len(ls)-1]
	if e := json.Unmarshal([]byte(last), res); e != nil || res.Outcome == "" {
		res = &result{Prop: r.prop, Outcome: "died"}
		se := errb.String()
		switch {
		case ctx.Err() != nil:
			res.Class, res.Detail = r.prop+":hang", fmt.Sprintf("the process was still running after %v", limit)
		default:
			res.Class, res.Detail = classify(r.prop, se, err)
		}
	}
	res.Stderr = errb.String()
	res.Wall = time.Since(t)
	return res
}

var goroutineRE = regexp.MustCompile(`(?m)^goroutine \d+`)

// classify names the way a process died.  Only deaths whose failing
// goroutine was in the code under test are violations.
func classify(prop, stderr string, err error) (class, detail string) {
	first := stderr
	if m := goroutineRE.FindStringIndex(stderr); m != nil {
		first = stderr[m[0]:]
		if i := strings.Index(first, "\n\n"); i > 0 {
			first = first[:i]
		}
	}
	lib := strings.Contains(first, "github.com/aclindsa/")
	head := stderr
	if len(head) > 400 {
		head = head[:400]
	}
	kind := "fatal"
	switch {
	case strings.Contains(stderr, "stack exceeds") || strings.Contains(stderr, "stack overflow"):
		kind = "stack"
	case strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate"):
		kind = "memory"
	case strings.Contains(stderr, "crypto/rand: failed"):
		kind = "entropy"
		lib = true
	case strings.HasPrefix(stderr, "panic:"):
		kind = "panic"
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 3 {
		return "", "harness: " + head
	}
	if !lib {
		return "", "process died outside the code under test: " + head
	}
	return prop + ":died-" + kind, head
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}
