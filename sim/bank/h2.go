package bank

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/sim/hpack"
	"verif/sim/simnet"
)

// h2 is one HTTP/2 connection, hand-written like the HTTP/1.1 framing so that
// every frame and every failure is decided by the scenario. Kinds of failure
// which end the connection in HTTP/1.1 end the stream here, because other
// calls use the connection as well.
type h2 struct {
	b       *Bank
	c       *simnet.Conn
	conn    net.Conn
	q       Req // what the requests of the connection have in common
	mu      sync.Mutex
	henc    *hpack.Encoder
	hbuf    bytes.Buffer
	streams map[uint32]*h2stream
	win     int64 // what the client accepts
	initial int64
	room    chan struct{} // closed and replaced when the windows grow
	dead    bool
	recv    int64  // window offered to the client
	last    uint32 // stream
	closing bool   // later streams are not processed
}

type h2stream struct {
	id   uint32
	q    *Req
	body []byte
	win  int64
	gone bool // reset
}

const (
	fData, fHeaders, fRst, fSettings, fPing, fGoaway, fWindow, fCont = 0, 1, 3, 4, 6, 7, 8, 9
	flagEnd, flagAck, flagHeaders, flagPadded, flagPriority          = 1, 1, 4, 8, 0x20
	preface                                                          = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
)

// frame sends one frame; h.mu is held.
func (h *h2) frame(typ, flags byte, id uint32, payload []byte) error {
	if h.dead {
		return net.ErrClosed
	}
	f := make([]byte, 9, 9+len(payload))
	f[0], f[1], f[2] = byte(len(payload)>>16), byte(len(payload)>>8), byte(len(payload))
	f[3], f[4] = typ, flags
	binary.BigEndian.PutUint32(f[5:], id)
	_, err := h.conn.Write(append(f, payload...))
	if err != nil {
		h.dead = true
		h.conn.Close()
	}
	return err
}

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func setting(id uint16, v uint32) []byte {
	return append(binary.BigEndian.AppendUint16(nil, id), u32(v)...)
}

func (h *h2) grew() {
	close(h.room)
	h.room = make(chan struct{})
}

// serveH2 handles one HTTP/2 connection.
func (b *Bank) serveH2(c *simnet.Conn, conn net.Conn, common Req) {
	b.Fired("http2-connection")
	h := &h2{b: b, c: c, conn: conn, q: common, streams: map[uint32]*h2stream{}, win: 65535, initial: 65535, room: make(chan struct{}), recv: int64(b.H2)}
	h.henc = hpack.NewEncoder(&h.hbuf)
	err := h.read()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.dead = true
	for _, s := range h.streams {
		if !s.q.Whole {
			s.q.Err = fmt.Sprint("connection ended: ", err)
		}
	}
	h.grew()
	conn.Close()
}

func (h *h2) read() error {
	buf := make([]byte, len(preface))
	if _, err := io.ReadFull(h.conn, buf); err != nil || string(buf) != preface {
		return fmt.Errorf("preface %q: %v", buf, err)
	}
	h.mu.Lock()
	h.frame(fSettings, 0, 0, append(setting(4, uint32(h.recv)), setting(3, 100)...))
	h.frame(fWindow, 0, 0, u32(1<<20))
	h.mu.Unlock()
	dec := hpack.NewDecoder(4096, nil)
	var block []byte
	var ends bool
	for {
		var f [9]byte
		if _, err := io.ReadFull(h.conn, f[:]); err != nil {
			return err
		}
		p := make([]byte, int(f[0])<<16|int(f[1])<<8|int(f[2]))
		if _, err := io.ReadFull(h.conn, p); err != nil {
			return err
		}
		typ, flags, id := f[3], f[4], binary.BigEndian.Uint32(f[5:])&0x7fffffff
		whole := len(p)
		if (typ == fData || typ == fHeaders) && flags&flagPadded != 0 {
			if len(p) < 1 || int(p[0]) > len(p)-1 {
				return fmt.Errorf("padding")
			}
			p = p[1 : len(p)-int(p[0])]
		}
		switch typ {
		case fHeaders, fCont:
			if typ == fHeaders {
				if flags&flagPriority != 0 {
					p = p[5:]
				}
				block, ends = nil, flags&flagEnd != 0
			}
			block = append(block, p...)
			if flags&flagHeaders == 0 {
				continue
			}
			fields, err := dec.DecodeFull(block)
			if err != nil {
				return err
			}
			h.head(id, fields)
			if ends {
				h.whole(id)
			}
		case fData:
			h.mu.Lock()
			if s := h.streams[id]; s != nil && !s.gone {
				s.body = append(s.body, p...)
				s.q.Body = s.body
				s.q.Raw = append(s.q.Raw, p...)
				if whole > 0 && flags&flagEnd == 0 {
					h.frame(fWindow, 0, id, u32(uint32(whole)))
				}
			}
			if whole > 0 {
				h.frame(fWindow, 0, 0, u32(uint32(whole)))
			}
			h.mu.Unlock()
			if flags&flagEnd != 0 {
				h.whole(id)
			}
		case fRst:
			h.mu.Lock()
			if s := h.streams[id]; s != nil {
				s.gone = true
				if !s.q.Whole {
					s.q.Err = "stream reset by the client"
				}
			}
			h.grew()
			h.mu.Unlock()
		case fSettings:
			if flags&flagAck != 0 {
				continue
			}
			h.mu.Lock()
			for ; len(p) >= 6; p = p[6:] {
				v := binary.BigEndian.Uint32(p[2:])
				switch binary.BigEndian.Uint16(p) {
				case 1:
					h.henc.SetMaxDynamicTableSizeLimit(v)
				case 4:
					for _, s := range h.streams {
						s.win += int64(v) - h.initial
					}
					h.initial = int64(v)
				}
			}
			h.frame(fSettings, flagAck, 0, nil)
			h.grew()
			h.mu.Unlock()
		case fPing:
			if flags&flagAck == 0 {
				h.mu.Lock()
				h.frame(fPing, flagAck, 0, p)
				h.mu.Unlock()
			}
		case fWindow:
			h.mu.Lock()
			v := int64(binary.BigEndian.Uint32(p) & 0x7fffffff)
			if id == 0 {
				h.win += v
			} else if s := h.streams[id]; s != nil {
				s.win += v
			}
			h.grew()
			h.mu.Unlock()
		}
	}
}

// head: the header of a request arrived.
func (h *h2) head(id uint32, fields []hpack.HeaderField) {
	q := h.q
	q.At, q.Header = time.Since(h.b.Net.Start), http.Header{}
	q.H2 = true
	var raw strings.Builder
	for _, f := range fields {
		fmt.Fprintf(&raw, "%s: %s\r\n", f.Name, f.Value)
		switch f.Name {
		case ":method":
			q.Method = f.Value
		case ":path":
			q.Path = f.Value
		case ":authority", ":scheme":
		default:
			q.Header.Add(http.CanonicalHeaderKey(f.Name), f.Value)
		}
	}
	q.Raw = []byte(raw.String() + "\r\n")
	if q.Gone = h.c.PeerClosed(); q.Gone {
		q.GoneAt = h.c.PeerClosedAt()
	}
	s := &h2stream{id: id, q: &q}
	h.mu.Lock()
	if h.closing {
		h.mu.Unlock()
		return
	}
	h.last = id
	s.win = h.initial
	h.streams[id] = s
	*h.b.Reqs = append(*h.b.Reqs, &q)
	h.mu.Unlock()
	if h.b.Early != nil {
		if how := h.b.Early(&q); how != "" {
			h.b.Fired("early-" + how)
			if how == "eof" && h.b.Refuse {
				how = "refused" // the client may send it again
			}
			h.kill(s, how)
		}
	}
}

// whole: a request is complete.
func (h *h2) whole(id uint32) {
	h.mu.Lock()
	s := h.streams[id]
	h.mu.Unlock()
	if s == nil || s.gone {
		return
	}
	s.q.Whole = true
	s.q.Body = s.body
	go func() {
		s.q.Complete = h.reply(h.b.Handle(s.q), s)
	}()
}

// kill ends a stream.
func (h *h2) kill(s *h2stream, how string) {
	if how == "stall" {
		h.mu.Lock()
		s.gone = true
		h.mu.Unlock()
		return
	}
	code := map[string]uint32{"rst": 2, "fin": 0xb, "refused": 7, "badchunk": 1}[how] // internal error unless known
	if how == "eof" {
		code = 8
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	s.gone = true
	h.frame(fRst, 0, s.id, u32(code))
}

// headers sends a header block; h.mu is held.
func (h *h2) headers(s *h2stream, end bool, piece int, kv ...[2]string) error {
	h.hbuf.Reset()
	for _, f := range kv {
		h.henc.WriteField(hpack.HeaderField{Name: strings.ToLower(f[0]), Value: strings.TrimSpace(f[1])})
	}
	b := append([]byte(nil), h.hbuf.Bytes()...)
	typ, flags := byte(fHeaders), byte(0)
	if end {
		flags = flagEnd
	}
	for {
		k := min(len(b), piece)
		if k == len(b) {
			flags |= flagHeaders
		}
		if err := h.frame(typ, flags, s.id, b[:k]); err != nil || k == len(b) {
			return err
		}
		b, typ, flags = b[k:], fCont, 0
	}
}

// data sends body bytes as the client's windows permit, padded if asked to.
func (h *h2) data(s *h2stream, p []byte, pad int) error {
	for len(p) > 0 {
		h.mu.Lock()
		over := 0
		if pad > 0 {
			over = pad + 1
		}
		k := min(int64(len(p)), h.win-int64(over), s.win-int64(over), int64(16384-over))
		if h.dead || s.gone {
			h.mu.Unlock()
			return net.ErrClosed
		}
		if k <= 0 {
			room := h.room
			h.mu.Unlock()
			<-room
			continue
		}
		flags, body := byte(0), append([]byte(nil), p[:k]...)
		if pad > 0 {
			flags = flagPadded
			body = append(append([]byte{byte(pad)}, body...), make([]byte, pad)...)
		}
		h.win -= int64(len(body))
		s.win -= int64(len(body))
		err := h.frame(fData, flags, s.id, body)
		h.mu.Unlock()
		if err != nil {
			return err
		}
		p = p[k:]
	}
	return nil
}

func (h *h2) reply(r Reply, s *h2stream) (complete bool) {
	b := h.b
	if r.DelayMs > 0 {
		b.Fired("server-delay")
		time.Sleep(time.Duration(r.DelayMs) * time.Millisecond)
	}
	if r.KillHow != "" {
		b.Fired("kill-" + r.KillHow)
		h.kill(s, r.KillHow)
		return false
	}
	if r.Garbage != "" { // an answer without a status
		b.Fired("garbage-response")
		h.mu.Lock()
		defer h.mu.Unlock()
		h.headers(s, true, 16384, [2]string{"x-garbage", "1"})
		return false
	}
	st := r.Status
	if st == 0 {
		st = 200
	}
	has := func(bit int) bool { return r.Wire&bit != 0 }
	if r.Wire != 0 {
		b.Fired("unusual-http-form")
	}
	h.mu.Lock()
	for _, i := range r.Info {
		b.Fired("informational-response")
		h.headers(s, false, 16384, [2]string{":status", fmt.Sprint(i)}, [2]string{"link", "</style.css>; rel=preload"})
	}
	kv := append([][2]string{{":status", fmt.Sprint(st)}}, r.Header...)
	if has(WireMore) {
		for i := 0; i < 150; i++ {
			kv = append(kv, [2]string{fmt.Sprintf("X-Node-%d", i), strings.Repeat("v", i)})
		}
	}
	nobody := st == 204 || st == 304
	if r.Gzip && r.CutHow == "" && r.BadLen == 0 && strings.Contains(s.q.Header.Get("Accept-Encoding"), "gzip") {
		b.Fired("server-gzip")
		kv = append(kv, [2]string{"Content-Encoding", "gzip"})
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(r.Body)
		zw.Close()
		r.Body = z.Bytes()
	}
	if r.Framing == "" && !nobody {
		n := r.BadLen
		if n > 1<<20 { // a length that is no number would be ignored
			n = 1 << 20
		}
		kv = append(kv, [2]string{"Content-Length", fmt.Sprint(max(len(r.Body)+n, 0))})
	}
	piece := 16384
	if has(WireSpace) {
		piece = 100
	}
	trailer := has(WireTrailer) && r.Framing != ""
	body := r.Body
	if nobody {
		body = nil
	}
	cut := r.CutHow != ""
	if cut && r.Cut < len(body) {
		body = body[:r.Cut]
	}
	early := len(body) == 0 && !cut && !trailer && has(WireLower)
	err := h.headers(s, nobody || early, piece, kv...)
	h.mu.Unlock()
	if err != nil {
		return false
	}
	if nobody || early {
		return true
	}
	pad := 0
	if has(WireExt) {
		pad = 1 + r.Wire%200
	}
	pause := r.PauseMs > 0 && r.PauseAt < len(body)
	for sent := 0; len(body) > 0; {
		if pause && sent >= r.PauseAt {
			b.Fired("server-silence")
			time.Sleep(time.Duration(r.PauseMs) * time.Millisecond)
			pause = false
		}
		k := len(body)
		if pause && k > r.PauseAt-sent {
			k = r.PauseAt - sent
		}
		if r.Chunk > 0 && k > r.Chunk {
			k = r.Chunk
		}
		if h.data(s, body[:k], pad) != nil {
			return false
		}
		body = body[k:]
		sent += k
		if r.GapMs > 0 && len(body) > 0 {
			time.Sleep(time.Duration(r.GapMs) * time.Millisecond)
		}
	}
	if cut {
		b.Fired("cut-" + r.CutHow)
		h.kill(s, r.CutHow)
		return false
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if s.gone {
		return false
	}
	if trailer {
		err = h.headers(s, true, piece, [2]string{"x-sum", "12"})
	} else {
		err = h.frame(fData, flagEnd, s.id, nil)
	}
	if r.Close && err == nil { // no more requests on this connection
		h.closing = true
		h.frame(fGoaway, 0, 0, append(u32(h.last), u32(0)...))
	}
	return err == nil
}
