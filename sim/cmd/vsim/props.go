package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

// propInfo describes the check of one property.
type propInfo struct {
	quick   int // seeds of the quick check
	rule    string
	nontriv string
	real    []string
	stubs   []string
	assume  []string
	extra   func(rn *runner, st *stats, tier string, seed int) (string, error)
}

var realNet = []string{"github.com/aclindsa/ofxgo and github.com/aclindsa/xml", "net/http client and transport", "crypto/tls client and server", "crypto/x509 verification", "Go runtime scheduler, timers and channels (choices made by the simulator)"}
var stubNet = []string{"TCP/IP and DNS (simulated network)", "the financial institution (simulated server behind real TLS)", "clock (virtual time with skew)", "entropy (seeded)"}
var assume = []string{"go1.27.3 standard library as installed, with the seams listed in DESIGN.md", "the reference model of OFX in sim/model", "one processor (GOMAXPROCS=1): interleavings are at scheduling points and instrumented statements, not inside them"}

func netProp(quick int, rule, nontriv string) *propInfo {
	return &propInfo{quick: quick, rule: rule, nontriv: nontriv, real: realNet, stubs: stubNet, assume: assume}
}

func cliProp(quick int, rule, nontriv string) *propInfo {
	return &propInfo{quick: quick, rule: rule, nontriv: nontriv, real: append([]string{"github.com/aclindsa/ofxgo/cmd/ofx from main() to exit"}, realNet...), stubs: append([]string{"process exit (recorded)", "failures of file operations (real files in a scratch directory otherwise)"}, stubNet...), assume: assume}
}

var realParse = []string{"github.com/aclindsa/ofxgo and github.com/aclindsa/xml", "Go runtime scheduler and channels (choices made by the simulator)"}
var stubParse = []string{"the source of the bytes (simulated readers and pipes)", "clock (virtual time)"}

func streamProp(quick int, rule, nontriv string) *propInfo {
	return &propInfo{quick: quick, rule: rule, nontriv: nontriv, real: realParse, stubs: stubParse, assume: assume}
}

var props = map[string]*propInfo{
	"C01": streamProp(8000, "Each seed draws a response stream (valid, damaged or with bytes after it) and 6-20 ways of delivering it.", "the stream was longer than the first internal buffer"),
	"C11": netProp(5000, "Each seed draws a sequence of exchanges with the institution, most of them cookie handshakes, with failing first or second exchanges, servers limited to old cipher suites and clients chosen by URL.", "a handshake was asked for"),
	"C12": netProp(5000, "Each seed draws URLs, requests, readers, answers and failures for the Discover client; the server records the exact bytes.", "an injected failure hit a call"),
	"C13": {quick: 4000, rule: "Each seed draws a source of randomness (short reads, delays, failures, death) and 1-8 concurrent callers.", nontriv: "the source failed or callers were concurrent", real: []string{"github.com/aclindsa/ofxgo", "crypto/rand.Read", "Go runtime scheduler"}, stubs: []string{"the operating system's random source (recorded, seeded)", "clock (virtual time)"}, assume: assume},
	"C20": netProp(5000, "Each seed draws raw requests with readers of any pace (some failing) and raw answers of any bytes, cut or complete, read in pieces or left early.", "a reader or a connection failed"),
	"C02": streamProp(1000, "Each seed draws a document and about 140 byte positions and kinds of failure; thorough also tries every position of smaller documents.", "the stream was cut before its end"),
	"C17": netProp(6000, "Each seed draws a client and a sequence of requests, most of them with one violation, some sent again after repair.", "a request carried a violation"),
	"C18": streamProp(20000, "Each seed draws a document, up to six kinds of damage and a delivery; one in five goes through a client.", "the damaged input was refused or went through a client"),
	"C19": streamProp(6000, "Each seed draws a response and a chain of 1-4 relays with cut copies and copies with lost blocks, or a rule-breaking response.", "a damaged copy or rule-breaking response was offered"),
	"C21": netProp(8000, "Each seed draws valid responses, breaks one rule in them and delivers both forms by readers or through a client.", "a broken response was offered"),
	"C03": netProp(2400, "Each seed draws response documents, wire styles, HTTP framings, network plans and readers.", "a decoded document had more than 12 values"),
	"C04": netProp(6000, "Each seed draws a client configuration and requests; the simulated server decodes what arrives with the model.", "a request carried messages besides the sign-on"),
	"C05": netProp(6000, "Each seed draws URLs, server identities, redirects and failures; every byte on the simulated wire is searched for the secrets.", "an insecure destination was attempted"),
	"C06": netProp(8000, "Each seed draws request sequences against failing connections and failing answers.", "an injected failure hit a call"),
	"C07": netProp(8000, "Each seed draws request sequences with failures; afterwards connections and goroutines are counted.", "failures were injected"),
	"C08": raced(netProp(5000, "Each seed draws 2-6 concurrent actors sharing clients and a schedule with context switches at statements; further seeds run the same worlds under the race detector.", "a response or request had more than the sign-on")),
	"C09": netProp(8000, "Each seed draws a time zone, clock jumps and request sequences.", "a request was sent at a time other than the start"),
	"C10": netProp(8000, "Each seed draws stalls, trickles, delays and hanging dials against a client timeout.", "a failure was injected"),
	"C14": cliProp(10000, "Each seed draws a download command line, an answer (intact, cut, refused or of arbitrary bytes), network failures and file failures.", "an injected network or server failure hit the download"),
	"C15": cliProp(10000, "Each seed draws a listing command line and an answer (valid, breaking a rule or damaged) with failures.", "more than three items had to be listed or a failure hit the exchange"),
	"C16": cliProp(500, "Each seed draws which settings the server accepts, how it refuses the others and which attempts fail in the network.", "more than four attempts were made"),
	"C22": cliProp(12000, "Each seed draws a command line in varied spelling, many with the dry-run flag or one mistake.", "the command line was wrong or asked for a dry run"),
	"C23": netProp(8000, "Each seed draws whole days of requests with failures, pauses and server behaviour.", "a request was made after an earlier failure"),
}

// raced adds runs of the same worlds in a build with the race detector.
func raced(p *propInfo) *propInfo {
	p.extra = raceRuns
	return p
}

const raceBase = 1 << 31 // seeds of the race runs within a block

func raceRuns(rn *runner, st *stats, tier string, seed int) (string, error) {
	n, wall := envInt("VSIM_RACE_RUNS", 600), 150*time.Second
	if tier == "thorough" {
		n, wall = 1<<30, time.Duration(envInt("VERIF_THOROUGH_S", 700))*time.Second/3
	}
	t0 := time.Now()
	node, err := build(rn.dir, true)
	if err != nil {
		return "", err
	}
	rr := &runner{dir: rn.dir, node: node, prop: rn.prop, tier: rn.tier, race: true}
	built := time.Since(t0)
	base := uint64(uint32(seed))<<32 + raceBase
	var mu sync.Mutex
	var hits []*result
	next, first := 0, ""
	start := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= n || len(hits) > 0 || time.Since(start) > wall {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				r := rr.exec(nil, "run", rn.prop, strconv.FormatUint(base+uint64(i), 10))
				r.Seed = base + uint64(i)
				rep := raceReport(r.Stderr)
				st.Lock()
				st.outcomes["race-run"]++
				if rep != "" {
					st.raceReports++
				}
				st.Unlock()
				mu.Lock()
				switch {
				case rep != "" && r.Outcome == "ok":
					r.Outcome, r.Class, r.Detail = "violation", rn.prop+":race", rep
					hits = append(hits, r)
				case r.Outcome == "ok":
				case r.Class != "":
					hits = append(hits, r)
				case first == "":
					first = fmt.Sprintf("seed %d: %s %s", r.Seed, r.Outcome, r.Detail)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%s: %d runs under the race detector (built in %.1fs), %.1fs\n", rn.prop, next, built.Seconds(), time.Since(start).Seconds())
	sort.Slice(hits, func(a, b int) bool { return hits[a].Seed < hits[b].Seed })
	for _, h := range hits {
		path, cls, detail, err := confirm(rr, h)
		if err != nil {
			return "", fmt.Errorf("seed %d: %s was not reproduced: %v", h.Seed, h.Class, err)
		}
		return fmt.Sprintf("%s: %s\nVIOLATION property=%s replay=%s", cls, detail, rn.prop, path), nil
	}
	if first != "" {
		return "", fmt.Errorf("a race run gave no verdict: %s", first)
	}
	return "", nil
}

// raceReport extracts the first data race whose access lies in the code
// under test.
func raceReport(stderr string) string {
	for _, rep := range strings.Split(stderr, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		if raceInLib(rep) {
			return strings.TrimSpace(rep)
		}
	}
	return ""
}

// raceInLib: both accesses reach the library or the xml package before any
// frame of the harness.
func raceInLib(rep string) bool {
	n := 0
	for _, sec := range strings.Split(rep, "\n\n") {
		head := strings.TrimSpace(sec)
		if strings.HasPrefix(head, "WARNING: DATA RACE") {
			head = strings.TrimSpace(strings.TrimPrefix(head, "WARNING: DATA RACE"))
		}
		low := strings.ToLower(head)
		if !strings.HasPrefix(low, "read at") && !strings.HasPrefix(low, "write at") && !strings.HasPrefix(low, "previous ") {
			continue
		}
		ok := false
		for _, l := range strings.Split(sec, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/aclindsa/") {
				ok = true
				break
			}
			if strings.HasPrefix(l, "verif/sim/") {
				break
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n == 2
}
