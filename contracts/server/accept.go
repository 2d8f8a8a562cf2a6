//go:build verif

package server

import (
	"errors"
	"net"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- the accept loop: every accepted connection is handled once, at the same time as the others

type vxAccepted struct {
	net.Conn
	n int
}

type vxAccept struct {
	s       *Server
	i       int
	accepts int
	conn    net.Conn // accepted in this round, if any
	handled int
	stopped bool
}

// what happens before and after the loop
type vxOuter struct {
	closes  int
	listens int
	addr    string
	refuse  bool
}

var (
	vxA *vxAccept
	vxO *vxOuter
)

func (g *vxAccept) Independent() {}
func (g *vxAccept) NoPrecheck()  {}
func (g *vxAccept) More() bool   { return !g.stopped }
func (g *vxAccept) Step() {
	vrt.Ensures("run.accept", g.accepts == 1)
	if vrt.Bool("stopped", g.i) {
		vrt.Ensures("run.each", g.handled == 0)
		g.stopped = true
		return
	}
	vrt.Ensures("run.each", vrt.Bool("refused", g.i) && g.handled == 0 || !vrt.Bool("refused", g.i) && g.handled == 1)
	g.i++
	g.accepts, g.handled, g.conn = 0, 0, nil
}

type vxListener struct{}

func (l *vxListener) Accept() (net.Conn, error) {
	g := vxA
	vrt.Ensures("run.accept", !g.stopped && g.accepts == 0)
	g.accepts++
	if vrt.Bool("stopped", g.i) {
		return nil, net.ErrClosed
	}
	if vrt.Bool("refused", g.i) {
		err := vrt.Err("accept", g.i)
		vrt.Requires(!errors.Is(err, net.ErrClosed))
		return nil, err
	}
	g.conn = &vxAccepted{n: g.i}
	return g.conn, nil
}

func (l *vxListener) Close() error {
	vxO.closes++
	return nil
}

func (l *vxListener) Addr() net.Addr { return nil }

func vxListen(network, addr string) (net.Listener, error) {
	g := vxO
	g.listens++
	g.addr = addr
	vrt.Ensures("run.listen", network == "tcp")
	if g.refuse {
		return nil, vrt.Err("listen", 0)
	}
	return &vxListener{}, nil
}

func vxHandle(s *Server, c net.Conn) {
	g := vxA
	vrt.Ensures("run.concurrent", vrt.Spawned())
	vrt.Ensures("run.handled", s == g.s && g.handled == 0 && c != nil && c == g.conn)
	g.handled++
}

func VC_Run(addr string, ttl time.Duration, refuse bool, clients uint8) {
	st := storage.NewRepository()
	srv := New(addr, ttl, st)
	s := &srv
	vrt.Ensures("run.new", s.addr == addr && s.ttl == ttl && s.store == st && s.serverId == "EGTS_GATE0" && s.l == nil)
	if !vrt.Symbolic() {
		n := int(clients) % 6
		if clients >= 240 {
			n = 300
		}
		vxRunNative(ttl, n)
		return
	}
	vrt.Replace("net.Listen", vxListen)
	vrt.Replace("(*server.Server).handleConn", vxHandle)
	vrt.Safety("run.safe")
	o := &vxOuter{refuse: refuse}
	vxO = o
	g := &vxAccept{s: s}
	vxA = g
	vrt.Loop("run.loop", g)
	s.Run()
	vrt.Finish(g)
	vrt.Ensures("run.listen", o.listens == 1 && o.addr == addr && !refuse)
	vrt.Ensures("run.closed", o.closes > 0)
}

// vxRunNative runs the server: every client is served at once, also while others hold a connection; Stop ends it
func vxRunNative(ttl time.Duration, clients int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	addr := l.Addr().String()
	l.Close()
	vrt.Safety("run.safe")
	srv := New(addr, 0, storage.NewRepository())
	done := make(chan bool)
	go func() {
		srv.Run()
		close(done)
	}()
	var conns []net.Conn
	dial := func() net.Conn {
		for i := 0; i < 100; i++ {
			if c, err := net.Dial("tcp", addr); err == nil {
				conns = append(conns, c)
				return c
			}
			time.Sleep(time.Millisecond)
		}
		vrt.Ensures("run.listen", false)
		return nil
	}
	for i := 0; i <= clients; i++ {
		if dial() == nil {
			return
		}
	}
	// the last client first: the others stay silent
	for i := len(conns) - 1; i >= 0; i-- {
		c := conns[i]
		c.Write([]byte{9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9}) // not EGTS: the handler closes the connection
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, err := c.Read(make([]byte, 1))
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			vrt.Ensures("run.concurrent", i != len(conns)-1)
			vrt.Ensures("run.each", false)
			break
		}
	}
	for _, c := range conns {
		c.Close()
	}
	srv.Stop()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		vrt.Ensures("run.accept", false)
	}
}
