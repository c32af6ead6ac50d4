package scn

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/aclindsa/ofxgo/cmd/ofx"
	"verif/sim/bank"
	"verif/sim/model"
	"verif/sim/simhook"
)

// Flag is one command-line flag.
type Flag struct {
	N    string `json:"n"`
	V    string `json:"v,omitempty"`
	Form int    `json:"form,omitempty"` // 0: -n v | 1: -n=v | 2: --n=v | 3: -n | 4: --n v
}

// DiskFault is a failure of the file the program writes.
type DiskFault struct {
	Op   string `json:"op"`             // open | write | close | sync
	At   int    `json:"at,omitempty"`   // bytes written before the failure
	Err  string `json:"err"`            // nospc | io | quota | perm
	Once bool   `json:"once,omitempty"` // later writes succeed
}

// Rule says which requests of a settings detection the server accepts.
type Rule struct {
	Apps     []string `json:"apps,omitempty"`
	AppVers  []string `json:"app_vers,omitempty"`
	Versions []int    `json:"versions,omitempty"`
	Indent   int      `json:"indent,omitempty"` // 1 only indented, 2 only not indented
	Who      int      `json:"who,omitempty"`    // 1 only the user, 2 only anonymous
	Skip     int      `json:"skip,omitempty"`   // this many acceptable requests are refused first
}

// CLISpec is one run of the command-line program.
type CLISpec struct {
	Cmd      string     `json:"cmd"`
	Flags    []Flag     `json:"flags"`
	Tail     []string   `json:"tail,omitempty"` // further, wrong arguments
	Old      int        `json:"old,omitempty"`  // the output file exists with this many bytes
	Disk     *DiskFault `json:"disk,omitempty"`
	Replies  []*Reply   `json:"replies,omitempty"`
	Accept   *Rule      `json:"accept,omitempty"`
	Refusals []*Reply   `json:"refusals,omitempty"` // given in turn to unacceptable requests
}

var serverFlags = strings.Fields("url username password org fid appid appver ofxversion clientuid noindent carriagereturn useragent dryrun")

// cliFlags are the documented flags of every command.
var cliFlags = map[string][]string{
	"download-profile":  append([]string{"filename"}, serverFlags...),
	"get-accounts":      serverFlags,
	"download-bank":     append([]string{"filename", "bankid", "acctid", "accttype"}, serverFlags...),
	"download-cc":       append([]string{"filename", "acctid"}, serverFlags...),
	"download-inv":      append([]string{"filename", "acctid", "brokerid"}, serverFlags...),
	"transactions-bank": append([]string{"bankid", "acctid", "accttype"}, serverFlags...),
	"transactions-cc":   append([]string{"acctid"}, serverFlags...),
	"transactions-inv":  append([]string{"acctid", "brokerid"}, serverFlags...),
	"detect-settings":   strings.Fields("url username password org fid delay"),
}

var boolFlags = map[string]bool{"noindent": true, "carriagereturn": true, "dryrun": true}

// anonymous are the credentials of an anonymous profile request.
const anonymous = "anonymous00000000000000000000000"

func (f Flag) args() []string {
	switch f.Form {
	case 0:
		return []string{"-" + f.N, f.V}
	case 1:
		return []string{"-" + f.N + "=" + f.V}
	case 2:
		return []string{"--" + f.N + "=" + f.V}
	case 3:
		return []string{"-" + f.N}
	case 4:
		return []string{"--" + f.N, f.V}
	}
	Invalid("flag form %d", f.Form)
	return nil
}

// cliRun is one execution of the program.
type cliRun struct {
	*World
	spec    *CLISpec
	vals    map[string]string
	refuse  string // why the arguments must be refused
	dry     bool
	file    string
	rec     *StepRec
	Code    int
	Exited  bool
	Out     string
	Err     string
	Crash   string
	Content []byte // the output file afterwards
	Exists  bool
	Disk    bool // the disk fault took effect
	marks   map[*bank.Req]int
}

func (s *CLISpec) download() bool { return strings.HasPrefix(s.Cmd, "download-") }

// interpret reads the flags as documented.
func (c *cliRun) interpret() {
	s := c.spec
	v := map[string]string{"appid": "QWIN", "appver": "2400", "ofxversion": "203", "accttype": "CHECKING", "filename": "./response.ofx", "delay": "500", "noindent": "false", "carriagereturn": "false", "dryrun": "false"}
	c.vals = v
	known := map[string]bool{}
	if cliFlags[s.Cmd] == nil {
		c.refuse = "unknown command"
		return
	}
	for _, n := range cliFlags[s.Cmd] {
		known[n] = true
	}
	for _, f := range s.Flags {
		if !known[f.N] {
			c.refuse = "unknown flag " + f.N
			return
		}
		x := f.V
		if f.Form == 3 {
			if !boolFlags[f.N] {
				Invalid("bare flag %s", f.N)
			}
			x = "true"
		}
		if boolFlags[f.N] {
			if f.Form == 0 || f.Form == 4 {
				c.refuse = "stray argument " + x // boolean flags take theirs after "="
				return
			}
			if _, err := strconv.ParseBool(x); err != nil {
				c.refuse = "bad boolean " + x
				return
			}
		}
		if f.N == "delay" {
			if _, err := strconv.ParseUint(x, 10, 40); err != nil {
				c.refuse = "bad delay " + x
				return
			}
		}
		v[f.N] = x
	}
	if len(s.Tail) > 0 {
		// The generator's wrong arguments: an argument that is no flag, an
		// unknown flag or a flag without its value.
		if first := s.Tail[0]; !strings.HasPrefix(first, "-") || first == "-" || first == "--" && len(s.Tail) > 1 {
			c.refuse = "stray argument " + first
			return
		}
		last := s.Tail[len(s.Tail)-1]
		if !strings.HasPrefix(last, "-") || boolFlags[strings.TrimLeft(last, "-")] || last == "-h" || last == "-help" || strings.Trim(last, "-") == "" {
			Invalid("tail %q", s.Tail)
		}
		c.refuse = "wrong argument " + last
		return
	}
	flag := func(n string) bool { b, _ := strconv.ParseBool(v[n]); return b }
	c.dry = flag("dryrun")
	if s.Cmd == "download-profile" && v["username"] == "" {
		v["username"], v["password"] = anonymous, anonymous
	}
	for _, n := range []string{"url", "username", "password"} {
		if v[n] == "" {
			c.refuse = "empty " + n
			return
		}
	}
	if s.download() {
		c.file = v["filename"]
		if c.file == "" {
			c.refuse = "empty filename"
			return
		}
		if filepath.IsAbs(c.file) || strings.Contains(c.file, "..") {
			Invalid("file name %q", c.file)
		}
	}
	ver, err := strconv.Atoi(v["ofxversion"])
	ok := false
	for _, n := range model.Versions {
		ok = ok || n == ver && err == nil
	}
	if !ok {
		c.refuse = "unknown version"
		return
	}
	if s.Cmd == "detect-settings" {
		return
	}
	c.rec.Client = &Client{Kind: "get", URL: v["url"], AppID: v["appid"], AppVer: v["appver"], Version: ver, NoIndent: flag("noindent"), CR: flag("carriagereturn"), UserAgent: v["useragent"]}
	if strings.Contains(s.Cmd, "bank") {
		if _, ok := model.Enums["acctType"][v["accttype"]]; !ok {
			c.refuse = "unknown account type"
			return
		}
	}
	if len(v["clientuid"]) > 36 || len(v["org"]) > 32 || len(v["fid"]) > 32 || len(v["bankid"]) > 9 || len(v["acctid"]) > 22 || len(v["brokerid"]) > 22 || strings.HasSuffix(s.Cmd, "inv") && (v["acctid"] == "" || v["brokerid"] == "") {
		Invalid("limits nobody promises to check")
	}
	c.rec.Sent = c.document("x", v["username"], v["password"])
	if err := model.CheckDoc(c.rec.Sent, true); err != nil {
		c.refuse = "the request is not valid OFX: " + err.Error()
		return
	}
	if !c.dry && !strings.HasPrefix(v["url"], "https://") {
		c.refuse = "not a secure URL"
	}
}

// document is the request the flags describe.
func (c *cliRun) document(uid, user, pass string) *model.Doc {
	v := c.vals
	n := func(t string, k ...*model.Node) *model.Node { return &model.Node{T: t, K: k} }
	l := func(t, x string) *model.Node { return &model.Node{T: t, V: x} }
	son := n("SONRQ", l("DTCLIENT", "20000101"), l("USERID", user), l("USERPASS", pass), l("LANGUAGE", "ENG"))
	if v["org"] != "" || v["fid"] != "" {
		fi := n("FI")
		for _, x := range []string{"org", "fid"} {
			if v[x] != "" {
				fi.K = append(fi.K, l(strings.ToUpper(x), v[x]))
			}
		}
		son.K = append(son.K, fi)
	}
	son.K = append(son.K, l("APPID", c.rec.Client.appID()), l("APPVER", c.rec.Client.appVer()))
	if v["clientuid"] != "" {
		son.K = append(son.K, l("CLIENTUID", v["clientuid"]))
	}
	inc := func() *model.Node { return n("INCTRAN", l("INCLUDE", "Y")) }
	var set *model.Node
	switch c.spec.Cmd {
	case "get-accounts":
		set = n("SIGNUPMSGSRQV1", n("ACCTINFOTRNRQ", l("TRNUID", uid), n("ACCTINFORQ", l("DTACCTUP", "19700101"))))
	case "download-profile":
		set = n("PROFMSGSRQV1", n("PROFTRNRQ", l("TRNUID", uid), n("PROFRQ", l("CLIENTROUTING", "NONE"), l("DTPROFUP", "00010101"))))
	case "detect-settings":
		set = n("PROFMSGSRQV1", n("PROFTRNRQ", l("TRNUID", uid), n("PROFRQ", l("CLIENTROUTING", "NONE"), l("DTPROFUP", "19700101"))))
	case "download-bank", "transactions-bank":
		set = n("BANKMSGSRQV1", n("STMTTRNRQ", l("TRNUID", uid), n("STMTRQ", n("BANKACCTFROM", l("BANKID", v["bankid"]), l("ACCTID", v["acctid"]), l("ACCTTYPE", v["accttype"])), inc())))
	case "download-cc", "transactions-cc":
		set = n("CREDITCARDMSGSRQV1", n("CCSTMTTRNRQ", l("TRNUID", uid), n("CCSTMTRQ", n("CCACCTFROM", l("ACCTID", v["acctid"])), inc())))
	case "download-inv", "transactions-inv":
		set = n("INVSTMTMSGSRQV1", n("INVSTMTTRNRQ", l("TRNUID", uid), n("INVSTMTRQ", n("INVACCTFROM", l("BROKERID", v["brokerid"]), l("ACCTID", v["acctid"])), inc(), l("INCOO", "Y"), n("INCPOS", l("INCLUDE", "Y")), l("INCBAL", "Y"), l("INC401K", "Y"), l("INC401KBAL", "Y"))))
	}
	return &model.Doc{Version: c.rec.Client.version(), Sets: []*model.Node{n("SIGNONMSGSRQV1", son), set}}
}

func diskErr(kind string) error {
	switch kind {
	case "nospc":
		return syscall.ENOSPC
	case "io":
		return syscall.EIO
	case "quota":
		return syscall.EDQUOT
	case "perm":
		return syscall.EACCES
	}
	Invalid("disk error %q", kind)
	return nil
}

const oldMark = "left over from an earlier download\n"

// old is what an earlier download left in the output file.
func (c *cliRun) old() string {
	if c.spec.Old <= 0 {
		return ""
	}
	return strings.Repeat(oldMark, c.spec.Old/len(oldMark)+1)
}

// disk decides the fate of the program's file operations.
func (c *cliRun) disk() func(op, name string, n int) (int, error) {
	tracked := map[string]bool{}
	written := 0
	d := c.spec.Disk
	over := false
	fire := func() error {
		over = d.Once
		c.Disk = true
		c.Fire("disk-" + d.Op + "-" + d.Err)
		c.Event("disk %s fails: %s", d.Op, d.Err)
		return diskErr(d.Err)
	}
	return func(op, name string, n int) (int, error) {
		switch op {
		case "open":
			if n&(os.O_WRONLY|os.O_RDWR) == 0 {
				return 0, nil
			}
			c.Event("file open for writing %d", len(tracked))
			tracked[name] = true
			if d != nil && d.Op == "open" && !over {
				return 0, fire()
			}
		case "write":
			if !tracked[name] {
				return n, nil
			}
			c.Event("file write %d", n)
			if d != nil && d.Op == "write" && !over && written+n > d.At {
				k := max(d.At-written, 0)
				written += k
				return k, fire()
			}
			written += n
			return n, nil
		default:
			if tracked[name] && d != nil && d.Op == op && !over {
				return 0, fire()
			}
		}
		return 0, nil
	}
}

// runCLI executes the program in the simulated world.
func runCLI(s *Scenario, r *Run) *cliRun {
	if s.CLI == nil {
		Invalid("no command")
	}
	st := &Step{Op: "cli", Replies: s.CLI.Replies}
	for _, p := range append(append([]*Reply(nil), s.CLI.Replies...), s.CLI.Refusals...) {
		if p.Doc != nil {
			mustCheck(p.Doc, false)
		}
	}
	w := NewWorld(s, r)
	c := &cliRun{World: w, spec: s.CLI, rec: &StepRec{Step: st, Client: &Client{Kind: "basic"}}, marks: map[*bank.Req]int{}}
	w.Recs = append(w.Recs, c.rec)
	w.cur = c.rec
	c.interpret()
	st.URL = c.vals["url"]
	if c.spec.Accept != nil || c.spec.Refusals != nil {
		for _, b := range w.Banks {
			b.Handle, b.Early = c.detectServer(), nil
		}
	}
	tmp, err := os.MkdirTemp(r.Scratch, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	dir := filepath.Join(tmp, "d")
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	capture := func(n string) *os.File {
		f, err := os.Create(filepath.Join(tmp, n))
		if err != nil {
			panic(err)
		}
		return f
	}
	out, errf := capture("stdout"), capture("stderr")
	null, err := os.Open(os.DevNull)
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	if c.spec.Old > 0 && c.file != "" {
		os.WriteFile(c.file, []byte(c.old()), 0644)
	}
	args := []string{"ofx", c.spec.Cmd}
	for _, f := range c.spec.Flags {
		args = append(args, f.args()...)
	}
	args = append(args, c.spec.Tail...)
	for _, a := range args {
		if strings.ContainsRune(a, 0) {
			Invalid("argument %q", a)
		}
	}
	o0, e0, i0 := os.Stdout, os.Stderr, os.Stdin
	os.Args, os.Stdout, os.Stderr, os.Stdin = args, out, errf, null
	done := make(chan struct{})
	os.SimExit = func(code int) {
		c.Code, c.Exited = code, true
		close(done)
		select {} // a process that ended runs nothing any more
	}
	os.SimFile = c.disk()
	simhook.Limit = 1 << 28
	c.Event("run %q", args)
	go func() {
		c.Crash = guard(func() { ofxcli.Main() })
		if c.Crash == "" {
			c.Exited = true // main returned: status 0
		}
		close(done)
	}()
	t := time.NewTimer(400 * day)
	select {
	case <-done:
	case <-t.C:
	}
	t.Stop()
	os.SimExit, os.SimFile = nil, nil
	os.Stdout, os.Stderr, os.Stdin = o0, e0, i0
	c.rec.Done, c.rec.FailsEnd = c.Exited, w.failures()
	if c.file != "" {
		c.Content, err = os.ReadFile(c.file)
		c.Exists = err == nil
	}
	b, _ := os.ReadFile(out.Name())
	c.Out = string(b)
	b, _ = os.ReadFile(errf.Name())
	c.Err = string(b)
	out.Close()
	errf.Close()
	os.Chdir("/")
	c.Event("exit %v %d crash=%q out=%q err=%q file=%v/%d", c.Exited, c.Code, c.Crash, clip(c.Out, 3000), clip(c.Err, 200), c.Exists, len(c.Content))
	return c
}

// label names the run in messages.
func (c *cliRun) label() string { return "ofx " + c.spec.Cmd }

// ended checks what holds of every run.
func (c *cliRun) ended() bool {
	c.Evals++
	switch {
	case c.Crash != "":
		c.Violate("crash", "%s: %s", c.label(), c.Crash)
	case !c.Exited:
		c.Violate("stuck", "%s did not end", c.label())
	case c.Code != 0 && strings.TrimSpace(c.Out+c.Err) == "":
		c.Violate("silent", "%s exits with status %d and no message", c.label(), c.Code)
	default:
		return true
	}
	return false
}

// plain: an answer nothing is wrong with.
func (p *Reply) plain() bool {
	return p != nil && p.status() == 200 && p.BadLen == 0 && p.CutHow == "" && p.KillHow == "" && p.EarlyCut == "" && p.Garbage == ""
}

// output: what a successful download leaves in the file is one of these.
func (p *Reply) output() (l [][]byte) {
	b := p.body()
	l = append(l, b)
	if p.BadLen < 0 && p.Framing != "chunked" && p.Framing != "close" {
		l = [][]byte{b[:max(len(b)+p.BadLen, 0)]} // the answer is as long as it says
	}
	if p.Framing == "close" && (p.CutHow == "eof" || p.CutHow == "fin") && p.Cut < len(b) {
		l = append(l, b[:p.Cut]) // an ordinary end as far as anyone can tell
	}
	return
}

func worldC14(s *Scenario, r *Run) {
	c := runCLI(s, r)
	if !c.spec.download() || c.refuse != "" || c.dry {
		Invalid("not a download: %s", c.refuse)
	}
	if !c.ended() {
		return
	}
	p := c.served(c.rec)
	fails := c.failures() > 0
	if fails {
		c.Nontriv++
	}
	if c.Code == 0 {
		c.Probe("succeeded")
		switch {
		case p == nil || p.KillHow != "" || p.EarlyCut != "" || p.Garbage != "":
			c.Violate("invented", "%s: success although the server answered nothing", c.label())
			return
		case p.status() != 200:
			c.Violate("status", "%s: success although the status was %d", c.label(), p.status())
			return
		case c.Disk:
			c.Violate("disk", "%s: success although a file operation failed (%s %s)", c.label(), c.spec.Disk.Op, c.spec.Disk.Err)
			return
		case !c.Exists:
			c.Violate("nofile", "%s: success without an output file", c.label())
			return
		}
		for _, want := range p.output() {
			if bytes.Equal(want, c.Content) {
				return
			}
		}
		c.Violate("content", "%s: success, but the file (%d bytes) is not the answer (%d bytes): %s", c.label(), len(c.Content), len(p.body()), firstDiff(string(p.body()), string(c.Content)))
		return
	}
	c.Probe("failed")
	if !fails && !c.Disk && p.plain() && !strings.Contains(strings.TrimPrefix(c.file, "./"), "/") && c.file != "." && (c.rec.Client.eff() != "vanguard" || len(p.body()) > 0) {
		c.Violate("refused", "%s: exit status %d although nothing failed: %q", c.label(), c.Code, clip(c.Out+c.Err, 300))
	}
}

// ---- generators

// cliServers are all the institutions a URL may name.
var cliHosts = append([]string{"ofx.discovercard.com", "vesnc.vanguard.com"}, hosts...)

func (g *G) cliURL(special bool) string {
	if special && g.One(5) {
		u := pick(g, []string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet"})
		if g.One(3) {
			u += "/"
		}
		return u
	}
	return g.url(pick(g, hosts), fmt.Sprintf("p%d", g.IntN(100)))
}

// cliSpec makes a right command line.
func (g *G) cliSpec(cmd string) (*CLISpec, string) {
	m := &model.Gen{R: g.Rand, Version: 203, UTF8: g.One(3)}
	s := &CLISpec{Cmd: cmd}
	url := g.cliURL(true)
	set := func(n, v string) {
		form := pick(g, []int{0, 0, 1, 2, 4})
		s.Flags = append(s.Flags, Flag{n, v, form})
	}
	set("url", url)
	if cmd != "download-profile" || !g.One(2) {
		set("username", m.Str(32))
		set("password", m.Str(32))
	}
	for _, n := range cliFlags[cmd] {
		switch n {
		case "org":
			if g.One(2) {
				set("org", m.Str(32))
				if !g.One(3) {
					set("fid", m.Str(32))
				}
			}
		case "appid":
			if g.One(2) {
				set(n, pick(g, []string{"QB", "OFXGO", "A&B", m.Str(5), m.Str(5)}))
			}
		case "appver":
			if g.One(2) {
				set(n, pick(g, []string{"2700", "0001", m.Str(4)}))
			}
		case "ofxversion":
			if !g.One(4) {
				set(n, fmt.Sprint(pick(g, model.Versions)))
			}
		case "clientuid":
			if g.One(3) {
				set(n, m.UID())
			}
		case "useragent":
			if g.One(3) {
				set(n, pick(g, []string{"InetClntApp/3.0", "x", "Mozilla/5.0 (X; Y)", "-dryrun"}))
			}
		case "noindent", "carriagereturn":
			switch g.IntN(4) {
			case 0, 1:
				s.Flags = append(s.Flags, Flag{N: n, Form: 3})
			case 2:
				s.Flags = append(s.Flags, Flag{N: n, V: pick(g, []string{"true", "1", "T", "false", "0"}), Form: g.Between(1, 2)})
			}
		case "filename":
			if g.One(2) {
				set(n, pick(g, []string{"out.ofx", "./a.qfx", "a b.ofx", "-x", "response.ofx"}))
			}
		case "bankid":
			set(n, m.Str(9))
		case "acctid", "brokerid":
			set(n, m.Str(22))
		case "accttype":
			if g.One(2) {
				v := pick(g, []string{"CHECKING", "SAVINGS", "MONEYMRKT", "CREDITLINE", "CD"})
				set(n, v)
			}
		}
	}
	if g.One(8) {
		// A flag given twice: the last one counts.
		f := pick(g, s.Flags)
		if !boolFlags[f.N] && f.N != "url" && f.N != "fid" {
			s.Flags = append([]Flag{{f.N, pick(g, []string{"CD", "1", "203", "x"}), 1}}, s.Flags...)
			return s, url
		}
	}
	g.Shuffle(len(s.Flags), func(i, j int) { s.Flags[i], s.Flags[j] = s.Flags[j], s.Flags[i] })
	return s, url
}

// cliDoc is the request document of a command line.
func cliDoc(s *CLISpec) (*model.Doc, *Client) {
	c := &cliRun{spec: s, rec: &StepRec{Client: &Client{Kind: "basic"}}}
	c.interpret()
	if c.refuse != "" || c.rec.Sent == nil {
		return nil, c.rec.Client
	}
	return c.rec.Sent, c.rec.Client
}

func (g *G) cliBase() *Scenario {
	s := g.base(false)
	s.addServers("good", cliHosts...)
	if g.One(2) {
		s.Zone = g.zone()
	}
	return s
}

var downloads = []string{"download-profile", "download-bank", "download-cc", "download-inv"}
var listings = []string{"get-accounts", "transactions-bank", "transactions-cc", "transactions-inv"}

func init() {
	reg(&Prop{ID: "C14", World: worldC14, Gen: func(g *G) *Scenario {
		s := g.cliBase()
		spec, _ := g.cliSpec(pick(g, downloads))
		s.CLI = spec
		rq, cl := cliDoc(spec)
		if rq == nil {
			rq = &model.Doc{Version: 203, Sets: []*model.Node{{}}}
		}
		p := g.good(rq, cl)
		switch g.IntN(6) {
		case 0, 1:
			p = g.badReply(rq, cl, false)
		case 2:
			// The command does not look at what it saves.
			p.Doc = nil
			n := pick(g, []int{1, 100, 4096, 32768, 32769, 65536, 200000, 1100000})
			p.Body = make([]byte, g.Between(max(n-3, 1), n+3))
			for i := range p.Body {
				p.Body[i] = byte(g.Uint32())
			}
			if g.One(3) {
				p.Body = bytes.Repeat([]byte(pick(g, []string{"\r\n", "a\n", "\x00", "\xff\xfe", "x"})), len(p.Body)/2+1)
			}
			if p.Chunk > 0 && len(p.Body)/p.Chunk > 3000 {
				p.Chunk, p.GapMs = 4096, 0
			}
			if g.One(4) {
				p.Cut, p.CutHow = g.IntN(len(p.Body)), pick(g, []string{"eof", "rst", "fin"})
			}
			s.Net.Default.SegMax, s.Net.Default.Window = 0, 0
		}
		spec.Replies = []*Reply{p}
		if cl.eff() == "vanguard" && g.One(2) {
			spec.Replies = []*Reply{g.handshake(p), p}
		}
		if g.One(3) {
			s.Net.Plans = g.plans(2, false)
		}
		if p.Doc != nil && g.One(50) {
			g.wide(s, p)
		}
		if g.One(3) {
			spec.Old = pick(g, []int{1, 100, 5000, 3000000})
		}
		if g.One(3) {
			d := &DiskFault{Op: pick(g, []string{"open", "write", "write", "write", "close", "close"}), Err: pick(g, []string{"nospc", "io", "quota"})}
			if d.Op == "open" {
				d.Err = pick(g, []string{"perm", "nospc", "io"})
			}
			if d.Op == "write" {
				n := len(p.body())
				d.At = pick(g, []int{0, g.IntN(n + 1), max(n-1-g.IntN(20), 0), g.IntN(n + 1)})
				d.Once = g.One(4)
			}
			spec.Disk = d
		}
		if g.One(12) {
			for i, f := range spec.Flags {
				if f.N == "filename" {
					spec.Flags[i].V = pick(g, []string{"no/such/dir/x.ofx", "."})
				}
			}
		}
		return s
	}})
}
