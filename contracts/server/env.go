//go:build verif

package server

import (
	"io"
	"net"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- the environment of a connection handler: a connection that delivers a given byte stream and
// records what is done to it, a store that records what it is given and fails when it likes

const (
	vxWrite = 1
	vxSave  = 2
)

type vxEvent struct {
	Kind int
	Name string // the clause that asks for it
	Data []byte
	Nav  storage.NavRecord
}

// vxWorld is what happens around the handler.  Under the verifier every event is compared, when it
// happens, with what the specification g expects next; natively events are logged and compared at the end.
type vxWorld struct {
	g     *vxPackets
	ev    []vxEvent
	saves int
	sent  int  // packets sent since the current packet was received
	saved bool // the current packet was saved
	fail  bool // and that failed
}

func (w *vxWorld) write(b []byte) {
	if !vrt.Symbolic() {
		vrt.Ensures("srv.ack.saved", !w.fail)
		w.ev = append(w.ev, vxEvent{Kind: vxWrite, Data: append([]byte{}, b...)})
		return
	}
	g := w.g
	if g.err != nil {
		want, _ := vxPtResponse(g.p.PacketIdentifier, g.code, 0, nil)
		vrt.Ensures("srv.nack", w.sent == 0 && vrt.EqBytes(b, want))
	} else {
		r := g.recs
		vrt.Ensures("srv.quiet", g.p.PacketType == 1 && !r.More() && !r.skip)
		vrt.Ensures("srv.ack.saved", !r.found || w.saved && !w.fail)
		if w.sent == 0 {
			want, werr := vxPtResponse(g.p.PacketIdentifier, 0, r.svc, r.resp)
			vrt.Ensures("srv.ack", werr == nil && vrt.EqBytes(b, want))
		} else {
			vrt.Ensures("srv.code", w.sent == 1 && len(r.code) > 0 && vrt.EqBytes(b, r.code))
		}
	}
	w.sent++
}

func (w *vxWorld) save(n storage.NavRecord) bool {
	at := n.ReceivedDt
	n.ReceivedDt = ""
	w.saves++
	w.fail = vrt.Bool("save", w.saves)
	if !vrt.Symbolic() {
		t, err := time.Parse(time.RFC3339, at)
		vrt.Ensures("srv.save.time", err == nil && time.Since(t) < 3*time.Second && time.Until(t) < 3*time.Second)
		w.ev = append(w.ev, vxEvent{Kind: vxSave, Nav: n})
		return w.fail
	}
	g := w.g
	vrt.Ensures("srv.save", g.err == nil && g.p.PacketType == 1 && !g.recs.More() && !g.recs.skip && g.recs.found && !w.saved && w.sent == 0)
	vrt.Ensures("srv.save.values", vrt.Same(n, g.recs.nav))
	vrt.Ensures("srv.save.time", at == vxNow().UTC().Format(time.RFC3339))
	w.saved = true
	return w.fail
}

type vxConn struct {
	w      *vxWorld
	in     []byte
	pos    int
	broken bool // the stream ends with a network error instead of EOF
	wfail  bool // writes fail
	ttl    time.Duration
	closed int
	armed  bool // a deadline was set since the current packet is waited for
	next   int  // where the next packet starts (natively)
}

// The clock: under the verifier time passes only while the handler waits for bytes.
var vxTick int

func vxNow() time.Time {
	return time.Unix(0, 0).Add(time.Duration(vrt.Int("now", vxTick)))
}

// wait is called before bytes are waited for
func (c *vxConn) wait() {
	if vrt.Symbolic() {
		vrt.Ensures("srv.idle", c.ttl <= 0 || c.armed)
		vxTick++
		return
	}
	c.w.fail = false
	if c.pos == c.next {
		vrt.Ensures("srv.idle", c.ttl <= 0 || c.armed)
		c.armed = false
		c.next += (&vxPackets{in: c.in, pos: c.pos}).frame()
		if c.next == c.pos {
			c.next = -1
		}
	}
}

func (c *vxConn) SetReadDeadline(t time.Time) error {
	if vrt.Symbolic() {
		c.armed = t.Equal(vxNow().Add(c.ttl))
	} else {
		d := time.Until(t)
		c.armed = d <= c.ttl && d > c.ttl-3*time.Second
	}
	vrt.Ensures("srv.idle", c.ttl > 0 || t.IsZero())
	return nil
}

// VrtReadFull is what io.ReadFull makes of this connection, however the bytes are cut into segments.
func (c *vxConn) VrtReadFull(b []byte) (int, error) {
	c.wait()
	n := len(c.in) - c.pos
	if n >= len(b) {
		copy(b, c.in[c.pos:c.pos+len(b)])
		c.pos += len(b)
		return len(b), nil
	}
	c.pos = len(c.in)
	err := io.ErrUnexpectedEOF
	if n == 0 {
		err = io.EOF
	}
	if c.broken {
		err = vrt.Err("read", c.pos)
	}
	return n, err
}

func (c *vxConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c.wait()
	n := len(c.in) - c.pos
	if n == 0 {
		if c.broken {
			return 0, vrt.Err("read", c.pos)
		}
		return 0, io.EOF
	}
	if n > len(b) {
		n = len(b)
	}
	// the network delivers what it likes
	if k := vrt.Int("segment", c.pos); k > 0 && k < n {
		n = k
	}
	copy(b, c.in[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

func (c *vxConn) Write(b []byte) (int, error) {
	c.w.write(b)
	if c.wfail {
		return 0, vrt.Err("write", len(b))
	}
	return len(b), nil
}

func (c *vxConn) Close() error {
	c.closed++
	return nil
}

func (c *vxConn) LocalAddr() net.Addr                { return nil }
func (c *vxConn) RemoteAddr() net.Addr               { return nil }
func (c *vxConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *vxConn) SetWriteDeadline(t time.Time) error { return nil }

type vxStore struct{ w *vxWorld }

func (s *vxStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	if s.w.save(*(m.(*storage.NavRecord))) {
		return vrt.Err("save", s.w.saves)
	}
	return nil
}
