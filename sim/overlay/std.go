// Package overlay generates the `go build -overlay` tree that puts every
// source of nondeterminism behind a seam the simulator owns.  Nothing is
// written to /repo or to GOROOT: the overlay file maps original paths to
// rewritten copies in a scratch directory.
package overlay

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct{ old, new string }

// stdEdits are textual edits of standard-library files.  Every `old` text
// must occur exactly once, otherwise generation fails (error exit: the
// toolchain is not the one the simulator was written for).
var stdEdits = map[string][]edit{
	"runtime/malloc.go": {
		{`randomizeHeapBase = goexperiment.RandomizedHeapBase64 && goarch`, `randomizeHeapBase = false && goexperiment.RandomizedHeapBase64 && goarch`},
	},
	"runtime/proc.go": {
		// No sysmon thread: nothing preempts by real time, no second M.
		{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		// Every scheduling decision is taken by the simulator.
		{`		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain`, `		if simOn && t-h > 1 {
			if k := simPick(t - h); k != 0 {
				a, b := h%uint32(len(pp.runq)), (h+k)%uint32(len(pp.runq))
				pp.runq[a], pp.runq[b] = pp.runq[b], pp.runq[a]
			}
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			if simOn {
				simHash = (simHash ^ uint64(gp.goid)) * 0x100000001b3
			}
			return gp, false
		}
	}
}

// runqdrain`},
		// Gosched stays on the local queue so that simPick sees it.
		{`		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}

	if mainStarted {
		wakep()
	}

	schedule()
}
`, `		runqput(pp, gp, false)
	}

	schedule()
}
`},
	},
	// Everything that runs is inside the bubble, so a goroutine waiting for a
	// mutex must not stop virtual time (its holder may be asleep).
	"runtime/runtime2.go": {
		{`	waitReasonSynctestSelect:        true,
}
`, `	waitReasonSynctestSelect:        true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
}
`},
	},
	"crypto/rand/rand.go": {
		{`	if err != nil {
		fatal("crypto/rand`, `	if err != nil {
		if SimFatal != nil {
			SimFatal(err)
		}
		fatal("crypto/rand`},
	},
	"runtime/rand.go": {
		{`	seed := &globalRand.seed
	if len(startupRand) >= 16 &&`, `	seed := &globalRand.seed
	if true {
		for i := range seed {
			seed[i] = byte(i*7 + 1)
		}
	} else if len(startupRand) >= 16 &&`},
	},
	"net/dial.go": {
		{`func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
`, `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		return SimDial(ctx, d, network, address)
	}
`},
	},
	"time/time.go": {
		{`	sec, nsec, mono := runtimeNow()
	if mono == 0 {
		return Time{uint64(nsec), sec + unixToInternal, Local}
	}
	mono -= startNano
	sec += unixToInternal - minWall
	if uint64(sec)>>33`, `	sec, nsec, mono := runtimeNow()
	if SimMono {
		// Virtual time with a monotonic reading, and a wall clock that may
		// be off by SimSkew.
		mono = runtimeNano()
		n := int64(nsec) + SimSkew%1e9
		sec += SimSkew / 1e9
		if n < 0 {
			n += 1e9
			sec--
		} else if n >= 1e9 {
			n -= 1e9
			sec++
		}
		nsec = int32(n)
	}
	if mono == 0 {
		return Time{uint64(nsec), sec + unixToInternal, Local}
	}
	mono -= startNano
	sec += unixToInternal - minWall
	if uint64(sec)>>33`},
	},
	"os/proc.go": {
		{`func Exit(code int) {
`, `func Exit(code int) {
	if SimExit != nil {
		SimExit(code)
	}
`},
	},
	"os/file.go": {
		{`	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
	if n != len(b) {
		err = io.ErrShortWrite
	}
`, `	full := len(b)
	var simErr error
	if SimFile != nil {
		var k int
		k, simErr = SimFile("write", f.name, len(b))
		b = b[:k]
	}
	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
	if n != full {
		err = io.ErrShortWrite
	}
	if e == nil {
		e = simErr
	}
`},
		{`	n, handled, e := f.readFrom(r)
	if !handled {`, `	if SimFile != nil {
		return genericReadFrom(f, r)
	}
	n, handled, e := f.readFrom(r)
	if !handled {`},
		{`	testlog.Open(name)
	f, err := openFileNolog(name, flag, perm)
`, `	testlog.Open(name)
	if SimFile != nil {
		if _, e := SimFile("open", name, flag); e != nil {
			return nil, &PathError{Op: "open", Path: name, Err: e}
		}
	}
	f, err := openFileNolog(name, flag, perm)
`},
	},
	"os/file_posix.go": {
		{`	return f.file.close()
`, `	if SimFile != nil {
		if _, e := SimFile("close", f.file.name, 0); e != nil {
			if e2 := f.file.close(); e2 != nil {
				return e2
			}
			return &PathError{Op: "close", Path: f.file.name, Err: e}
		}
	}
	return f.file.close()
`},
		{`	if e := f.pfd.Fsync(); e != nil {
		return f.wrapErr("sync", e)
	}
`, `	if SimFile != nil {
		if _, e := SimFile("sync", f.name, 0); e != nil {
			return f.wrapErr("sync", e)
		}
	}
	if e := f.pfd.Fsync(); e != nil {
		return f.wrapErr("sync", e)
	}
`},
	},
}

// stdNew are files added to standard-library packages.
var stdNew = map[string]string{
	"runtime/zsim.go": `package runtime

// Added by the /verif simulator through go build -overlay.

var (
	simOn    bool
	simRand  bool
	simState uint64
	simList  []uint8
	simTrace []uint8
	simPos   int
	simHash  uint64
)

func simPick(n uint32) uint32 {
	if n > 255 {
		n = 255
	}
	var c uint32
	if simPos < len(simList) {
		c = uint32(simList[simPos]) % n
	} else if simRand {
		simState += 0x9e3779b97f4a7c15
		z := simState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		c = uint32((z^(z>>31))>>33) % n
	}
	if simPos < len(simTrace) {
		simTrace[simPos] = uint8(c)
	}
	simPos++
	simHash = (simHash ^ uint64(c+1) ^ uint64(n)<<16) * 0x100000001b3
	return c
}

// SimChoose returns a scheduler decision in [0,n).
func SimChoose(n uint32) uint32 {
	if !simOn || n < 2 {
		return 0
	}
	return simPick(n)
}

// SimStart makes the current process' scheduling and randomness a pure
// function of (seed, list, random).  list holds explicit choices; after it
// is used up choices are pseudo-random (random) or FIFO (!random).
func SimStart(seed uint64, list []uint8, random bool, traceCap int) {
	mp := getg().m
	mp.chacha8.Init64([4]uint64{seed, seed ^ 0xa5a5a5a5, 3, 4})
	mp.cheaprand = uint32(seed) ^ uint32(seed>>32) | 1
	mp.cheaprand64 = seed | 1
	simState = seed * 0x9e3779b97f4a7c15
	simList = list
	simRand = random
	simTrace = make([]uint8, traceCap)
	simPos = 0
	simHash = 0xcbf29ce484222325
	simOn = true
}

// SimSchedule returns the choices taken so far and a hash of the schedule.
func SimSchedule() (choices []uint8, total int, hash uint64) {
	n := simPos
	if n > len(simTrace) {
		n = len(simTrace)
	}
	return simTrace[:n], simPos, simHash
}

// SimBubble runs f in a synctest bubble (virtual time).
func SimBubble(f func()) { synctestRun(f) }

// SimWait waits until every other goroutine of the bubble is durably blocked.
func SimWait() { synctestWait() }
`,
	"net/zsim.go": `package net

import "context"

// SimDial, when set, replaces the operating system's network.
var SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)
`,
	"time/zsim.go": `package time

var (
	// SimMono gives virtual times a monotonic reading.
	SimMono bool
	// SimSkew is how far the wall clock is off, in nanoseconds.
	SimSkew int64
)
`,
	"os/zsim.go": `package os

// SimExit, when set, is told about the exit status before the process ends.
var SimExit func(code int)

// SimFile, when set, decides about file operations: for "write" it returns
// how many of n bytes reach the file and the error for the rest; for the
// others the error to report.
var SimFile func(op, name string, n int) (int, error)
`,
	"crypto/rand/zsim.go": `package rand

import (
	irand "crypto/internal/rand"
	"io"
)

// SimFatal, when set, is called where the process would end because the
// source of randomness failed.
var SimFatal func(err error)

// SimSetReader makes every consumer of entropy read from r.
func SimSetReader(r io.Reader) {
	Reader = r
	irand.SetTestingReader(r)
}
`,
}

// Gen writes the overlay for GOROOT goroot and the repository at repo into
// dir and returns the path of the overlay JSON file.  target is where the
// build finds the repository (go.mod); it differs from repo only when a
// scratch copy is examined during development.
func Gen(goroot, repo, target, dir string) (string, error) {
	repl := map[string]string{}
	n := 0
	put := func(orig, content string) error {
		n++
		p := filepath.Join(dir, fmt.Sprintf("%03d_%s", n, filepath.Base(orig)))
		if err := os.WriteFile(p, []byte(content), 0644); err != nil {
			return err
		}
		repl[orig] = p
		return nil
	}
	for f, edits := range stdEdits {
		orig := filepath.Join(goroot, "src", f)
		b, err := os.ReadFile(orig)
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				return "", fmt.Errorf("overlay: %s: edit point occurs %d times: %.60q", f, strings.Count(s, e.old), e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := put(orig, s); err != nil {
			return "", err
		}
	}
	for f, s := range stdNew {
		if err := put(filepath.Join(goroot, "src", f), s); err != nil {
			return "", err
		}
	}
	if err := instrument(repo, target, put); err != nil {
		return "", err
	}
	out, err := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, out, 0644)
}
