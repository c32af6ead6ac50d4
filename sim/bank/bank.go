// Package bank is the simulated financial institution: a real crypto/tls
// server with hand-written HTTP/1.1 framing so that every byte and every
// failure of a reply is decided by the scenario.
package bank

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"crypto/x509"
	"embed"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"verif/sim/simnet"
)

//go:embed certs/*.pem
var certFS embed.FS

// CA is the PEM certificate of the simulated certificate authority.
func CA() []byte {
	b, err := certFS.ReadFile("certs/ca.pem")
	if err != nil {
		panic(err)
	}
	blk, _ := pem.Decode(b)
	return pem.EncodeToMemory(blk)
}

// Cert loads a named server certificate.
func Cert(name string) tls.Certificate {
	b, err := certFS.ReadFile("certs/" + name + ".pem")
	if err != nil {
		panic(err)
	}
	c, err := tls.X509KeyPair(b, b)
	if err != nil {
		panic(err)
	}
	if name == "byserver" {
		c.Certificate = append(c.Certificate, Cert("good").Certificate...)
	}
	return c
}

// ValidFor reports whether the named certificate is one that a client which
// trusts the authority may accept for the host of a dialled address in a
// handshake between the two times.
func ValidFor(name, addr string, from, to time.Time) bool {
	switch name {
	case "good", "rsa", "lapsing", "starting", "ip":
	default:
		return false
	}
	leaf, err := x509.ParseCertificate(Cert(name).Certificate[0])
	if err != nil {
		panic(err)
	}
	if from.After(leaf.NotAfter) && to.After(leaf.NotAfter) || from.Before(leaf.NotBefore) && to.Before(leaf.NotBefore) {
		return false
	}
	host, _, _ := net.SplitHostPort(addr)
	return leaf.VerifyHostname(strings.TrimSuffix(host, ".")) == nil
}

// Req is one HTTP request as the server saw it.
type Req struct {
	Conn   int
	Host   string // address dialled
	At     time.Duration
	TLS    bool
	Raw    []byte // plaintext bytes of the request as received
	Method string
	Path   string
	Header http.Header
	Body   []byte
	Whole  bool // the complete request arrived
	Err    string
	Cipher uint16
	SNI    string
	Cert   string // certificate the server presented
	// Opened and Secured are when the connection was made and the handshake
	// complete, by the wall clock.
	Opened, Secured time.Time
	// Complete: the whole scheduled reply was handed to the network.
	Complete bool
	Trailing int // bytes received beyond the announced request
	H2       bool
	keep     bool
	// The client had given up the connection at GoneAt when the head arrived.
	Gone   bool
	GoneAt time.Duration
}

// Reply tells the server how to answer one request.
type Reply struct {
	Status   int         `json:"status,omitempty"`  // 0: 200
	Header   [][2]string `json:"header,omitempty"`  // extra headers
	Body     []byte      `json:"body,omitempty"`    // payload
	Framing  string      `json:"framing,omitempty"` // length (default) | chunked | close
	Chunk    int         `json:"chunk,omitempty"`   // payload bytes per write/chunk (0: all)
	GapMs    int         `json:"gap_ms,omitempty"`  // pause between writes
	DelayMs  int         `json:"delay_ms,omitempty"`
	Cut      int         `json:"cut,omitempty"`      // with CutHow: payload bytes sent before the failure
	CutHow   string      `json:"cut_how,omitempty"`  // eof (TLS close) | rst | fin (TCP FIN, no TLS close) | stall | badchunk
	KillHow  string      `json:"kill_how,omitempty"` // before the status line: eof | rst | stall
	EarlyCut string      `json:"early,omitempty"`    // kill as soon as the request head arrived: eof | rst | stall
	Close    bool        `json:"close,omitempty"`    // Connection: close
	Garbage  string      `json:"garbage,omitempty"`  // send this instead of a response
	Info     []int       `json:"info,omitempty"`     // informational responses before it
	Wire     int         `json:"wire,omitempty"`     // form of status line, headers and chunks: bits of the Wire constants
	BadLen   int         `json:"bad_len,omitempty"`  // added to Content-Length
	Gzip     bool        `json:"gzip,omitempty"`     // compress for clients that accept it
	PauseAt  int         `json:"pause_at,omitempty"` // with PauseMs: payload bytes (as sent) before the server falls silent for that long
	PauseMs  int         `json:"pause_ms,omitempty"`
	Hasty    bool        `json:"hasty,omitempty"`       // answer as soon as the request head arrived
	ReadMs   int         `json:"read_gap_ms,omitempty"` // with Hasty: pause before each piece of the request read afterwards
}

// Forms of an HTTP response that mean the same.
const (
	WireNoReason = 1 << iota // no reason phrase
	WireReason               // an unusual reason phrase
	WireLower                // lower case header names
	WireSpace                // white space around header values
	WireHTTP10               // an HTTP/1.0 response
	WireExt                  // chunk extensions, sizes padded with zeros
	WireTrailer              // trailers after the last chunk
	WireMore                 // many other headers
	wireEnd
)

// WireForms is the number of combinations.
const WireForms = wireEnd

// Bank is one server.
type Bank struct {
	Cert    string   // certificate name; "" means plaintext
	CertSeq []string // certificate of the n-th connection, where it differs ("" as Cert, "plain" none)
	MaxTLS  uint16
	Ciphers []uint16
	H2      int  // window of HTTP/2 offered (0: HTTP/1.1 only)
	Refuse  bool // HTTP/2 streams ended early are refused ones, which may be tried again
	Net     *simnet.Net
	Handle  func(r *Req) Reply
	Early   func(r *Req) string // as soon as the head arrived: "" or eof | rst | stall
	Hasty   func(r *Req) *Reply // the answer to give before the rest of the request is read
	Reqs    *[]*Req
	Fired   func(kind string)
	// Conns counts connections accepted; HalfOpen counts those that never
	// completed a TLS handshake.
	Conns, Handshakes int
	HandshakeErrs     []string
	// Early holds plaintext application bytes received by a plaintext server.
}

type recorder struct {
	r   io.Reader
	buf bytes.Buffer
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.buf.Write(p[:n])
	return n, err
}

// slow reads in small pieces with pauses.
type slow struct {
	r   io.Reader
	gap time.Duration
}

func (s *slow) Read(p []byte) (int, error) {
	if len(p) > 700 {
		p = p[:700]
	}
	time.Sleep(s.gap)
	return s.r.Read(p)
}

// Serve handles one connection.
func (b *Bank) Serve(addr string) func(*simnet.Conn) {
	return func(c *simnet.Conn) {
		cert := b.Cert
		if b.Conns < len(b.CertSeq) && b.CertSeq[b.Conns] != "" {
			cert = b.CertSeq[b.Conns]
			if cert == "plain" {
				cert = ""
			}
		}
		b.Conns++
		opened, secured := time.Now(), time.Now()
		var conn net.Conn = c
		var tc *tls.Conn
		if cert != "" {
			if cert != "good" && cert != "rsa" {
				b.Fired("cert-" + cert)
			}
			cfg := &tls.Config{Certificates: []tls.Certificate{Cert(cert)}, MaxVersion: b.MaxTLS, CipherSuites: b.Ciphers}
			if b.H2 > 0 {
				cfg.NextProtos = []string{"h2", "http/1.1"}
			}
			tc = tls.Server(c, cfg)
			if err := tc.Handshake(); err != nil {
				b.HandshakeErrs = append(b.HandshakeErrs, err.Error())
				c.Close()
				return
			}
			b.Handshakes++
			secured = time.Now()
			conn = tc
			if tc.ConnectionState().NegotiatedProtocol == "h2" {
				b.serveH2(c, tc, Req{Conn: c.ID(), Host: addr, TLS: true, Cert: cert, Opened: opened, Secured: secured, Cipher: tc.ConnectionState().CipherSuite, SNI: tc.ConnectionState().ServerName})
				return
			}
		}
		rec := &recorder{r: conn}
		br := bufio.NewReader(rec)
		for {
			rec.buf.Reset()
			hr, err := http.ReadRequest(br)
			if err != nil {
				if rec.buf.Len() > 0 {
					*b.Reqs = append(*b.Reqs, &Req{Conn: c.ID(), Host: addr, At: time.Since(b.Net.Start), TLS: tc != nil, Cert: cert, Opened: opened, Secured: secured, Raw: append([]byte(nil), rec.buf.Bytes()...), Err: err.Error()})
				}
				conn.Close()
				return
			}
			q := &Req{Conn: c.ID(), Host: addr, At: time.Since(b.Net.Start), TLS: tc != nil, Cert: cert, Opened: opened, Secured: secured, Method: hr.Method, Path: hr.RequestURI, Header: hr.Header}
			if tc != nil {
				q.Cipher = tc.ConnectionState().CipherSuite
				q.SNI = tc.ConnectionState().ServerName
			}
			q.Raw = append([]byte(nil), rec.buf.Bytes()...) // all of it once it is here
			if q.Gone = c.PeerClosed(); q.Gone {
				q.GoneAt = c.PeerClosedAt()
			}
			*b.Reqs = append(*b.Reqs, q)
			if b.Early != nil {
				if how := b.Early(q); how != "" {
					b.Fired("early-" + how)
					q.Raw = append([]byte(nil), rec.buf.Bytes()...)
					b.kill(how, c, conn)
					return
				}
			}
			var hasty *Reply
			if b.Hasty != nil {
				hasty = b.Hasty(q)
			}
			var body []byte
			if hasty != nil {
				// Answer while the request is still coming in.
				b.Fired("hasty-answer")
				done := make(chan struct{})
				go func() {
					body, err = io.ReadAll(&slow{hr.Body, time.Duration(hasty.ReadMs) * time.Millisecond})
					close(done)
				}()
				q.Complete = b.reply(*hasty, c, conn, q)
				<-done
			} else {
				body, err = io.ReadAll(hr.Body)
			}
			q.Body = body
			q.Raw = append([]byte(nil), rec.buf.Bytes()...)
			if err != nil {
				q.Err = err.Error()
				conn.Close()
				return
			}
			q.Whole = true
			q.Trailing = br.Buffered()
			if hasty != nil {
				if !q.keep {
					return
				}
				continue
			}
			rep := b.Handle(q)
			q.Complete = b.reply(rep, c, conn, q)
			if !q.keep {
				return
			}
		}
	}
}

func (b *Bank) kill(how string, c *simnet.Conn, conn net.Conn) {
	switch how {
	case "rst":
		c.Reset()
	case "fin":
		c.Close()
	case "stall":
		<-make(chan struct{})
	default:
		conn.Close()
	}
}

func (b *Bank) reply(r Reply, c *simnet.Conn, conn net.Conn, q *Req) (complete bool) {
	if r.DelayMs > 0 {
		b.Fired("server-delay")
		time.Sleep(time.Duration(r.DelayMs) * time.Millisecond)
	}
	if r.KillHow != "" {
		b.Fired("kill-" + r.KillHow)
		b.kill(r.KillHow, c, conn)
		return false
	}
	if r.Garbage != "" {
		b.Fired("garbage-response")
		io.WriteString(conn, r.Garbage)
		conn.Close()
		return false
	}
	st := r.Status
	if st == 0 {
		st = 200
	}
	var h strings.Builder
	for _, i := range r.Info {
		b.Fired("informational-response")
		fmt.Fprintf(&h, "HTTP/1.1 %d %s\r\n", i, http.StatusText(i))
		if i == 103 {
			h.WriteString("Link: </style.css>; rel=preload\r\nContent-Length: 7\r\n")
		}
		h.WriteString("\r\n")
	}
	has := func(bit int) bool { return r.Wire&bit != 0 }
	if r.Wire != 0 {
		b.Fired("unusual-http-form")
	}
	proto, reason := "HTTP/1.1", " "+http.StatusText(st)
	if has(WireHTTP10) && r.Framing != "chunked" { // such a server closes the connection
		proto, r.Close = "HTTP/1.0", true
	}
	if has(WireNoReason) {
		reason = []string{"", " "}[r.Wire/WireReason%2]
	} else if has(WireReason) {
		reason = " Request 404 was OK: <done>"
	}
	header := func(k, v string) {
		if has(WireLower) {
			k = strings.ToLower(k)
		}
		if has(WireSpace) {
			h.WriteString(k + ":\t " + v + " \r\n")
		} else {
			h.WriteString(k + ": " + v + "\r\n")
		}
	}
	fmt.Fprintf(&h, "%s %d%s\r\n", proto, st, reason)
	for _, kv := range r.Header {
		header(kv[0], kv[1])
	}
	if has(WireMore) {
		for i := 0; i < 150; i++ {
			header(fmt.Sprintf("X-Node-%d", i), strings.Repeat("v", i))
		}
		header("Date", "Thu, 01 Jan 1970 00:00:00 GMT")
		header("Warning", "199 - \"cookie=1\"")
	}
	nobody := st == 204 || st == 304
	if r.Gzip && r.CutHow == "" && r.BadLen == 0 && strings.Contains(q.Header.Get("Accept-Encoding"), "gzip") {
		b.Fired("server-gzip")
		header("Content-Encoding", "gzip")
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(r.Body)
		zw.Close()
		r.Body = z.Bytes()
	}
	switch r.Framing {
	case "chunked":
		header("Transfer-Encoding", "chunked")
		if has(WireTrailer) && has(WireExt) {
			header("Trailer", "X-Sum")
		}
	case "close":
		header("Connection", "close")
	default:
		if !nobody {
			header("Content-Length", fmt.Sprint(len(r.Body)+r.BadLen))
		}
	}
	if r.Close && r.Framing != "close" {
		header("Connection", "close")
	}
	h.WriteString("\r\n")
	if _, err := io.WriteString(conn, h.String()); err != nil {
		conn.Close()
		return false
	}
	if !nobody {
		body := r.Body
		cut := r.CutHow != ""
		if cut && r.Cut < len(body) {
			body = body[:r.Cut]
		}
		pause := r.PauseMs > 0 && r.PauseAt < len(body)
		for sent := 0; len(body) > 0; {
			if pause && sent >= r.PauseAt {
				b.Fired("server-silence")
				time.Sleep(time.Duration(r.PauseMs) * time.Millisecond)
				pause = false
			}
			k := len(body)
			if pause && k > r.PauseAt-sent {
				k = r.PauseAt - sent
			}
			if r.Chunk > 0 && k > r.Chunk {
				k = r.Chunk
			}
			var err error
			if r.Framing == "chunked" && has(WireExt) && k >= 64 { // extensions may not outweigh the data
				_, err = fmt.Fprintf(conn, "%08X;part=\"%d\"\r\n%s\r\n", k, sent, body[:k])
			} else if r.Framing == "chunked" {
				_, err = fmt.Fprintf(conn, "%x\r\n%s\r\n", k, body[:k])
			} else {
				_, err = conn.Write(body[:k])
			}
			if err != nil {
				conn.Close()
				return false
			}
			body = body[k:]
			sent += k
			if r.GapMs > 0 && len(body) > 0 {
				time.Sleep(time.Duration(r.GapMs) * time.Millisecond)
			}
		}
		if cut {
			b.Fired("cut-" + r.CutHow)
			if r.CutHow == "badchunk" {
				io.WriteString(conn, "zz\r\n")
				conn.Close()
				return false
			}
			b.kill(r.CutHow, c, conn)
			return false
		}
		if r.Framing == "chunked" {
			if has(WireTrailer) {
				io.WriteString(conn, "0\r\nX-Sum: 12\r\nContent-Length: 3\r\n\r\n")
			} else {
				io.WriteString(conn, "0\r\n\r\n")
			}
		}
	}
	if r.Framing == "close" || r.Close {
		conn.Close()
		return true
	}
	q.keep = true
	return true
}
