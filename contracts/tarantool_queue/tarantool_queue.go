//go:build verif

package tarantool_queue

import (
	"strconv"
	"time"

	"github.com/tarantool/go-tarantool"
	"github.com/tarantool/go-tarantool/queue"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the store
type vxSink struct {
	opens  int
	pubs   int
	body   []byte
	other  bool
	fail   bool // the store refuses the record
	down   bool // there is no connection to be had
	late   bool // the connection is of no use
	addr   string
	opts   tarantool.Opts
	conn   *tarantool.Connection
	queues int
	queue  string
	same   bool
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail, down, late bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                                 // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxBody(m interface{}) {
	vxS.pubs++
	switch b := m.(type) {
	case []byte:
		vxS.body = b
	case string:
		vxS.body = []byte(b)
	default:
		vxS.other = true
	}
}

func vxConnect(addr string, opts tarantool.Opts) (*tarantool.Connection, error) {
	vxS.opens++
	vxS.addr = addr
	vxS.opts = opts
	if vxS.down {
		return nil, vrt.Err("err", 2)
	}
	vxS.conn = &tarantool.Connection{}
	return vxS.conn, nil
}

type vxQueue struct {
	queue.Queue
}

func (q *vxQueue) Put(data interface{}) (*queue.Task, error) {
	vxBody(data)
	if vxS.fail {
		return nil, vrt.Err("err", 3)
	}
	return &queue.Task{}, nil
}

func vxNew(conn tarantool.Connector, name string) queue.Queue {
	vxS.queues++
	vxS.queue = name
	c, ok := conn.(*tarantool.Connection)
	vxS.same = ok && c == vxS.conn
	return &vxQueue{}
}

func VC_Tarantool(cfg map[string]string, data []byte, bad, fail, down, late bool) {
	vrt.Keys("host", "port", "user", "password", "max_recons", "timeout", "reconnect", "queue")
	vrt.Replace("go-tarantool.Connect", vxConnect)
	vrt.Replace("queue.New", vxNew)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail, down: down, late: late}
	vxS = s
	vxPrep(cfg, fail, down, late)

	c := &Connector{}
	err := c.Init(cfg)
	recons, err1 := strconv.Atoi(cfg["max_recons"])
	timeout, err2 := strconv.Atoi(cfg["timeout"])
	reconnect, err3 := strconv.Atoi(cfg["reconnect"])
	vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && err1 == nil && err2 == nil && err3 == nil && !down))
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e0 := c.Save(nil)
	vrt.Ensures("store.save.nil", e0 != nil)
	vxDone(c)
	vrt.Ensures("store.init.target", s.opens == 1 && s.queues == 1 && s.addr == cfg["host"]+":"+cfg["port"] && s.same && !s.other)
	vrt.Ensures("store.init.user", s.opts.User == cfg["user"] && s.opts.Pass == cfg["password"])
	vrt.Ensures("store.init.opts", s.opts.Timeout == time.Duration(timeout)*time.Second &&
		s.opts.Reconnect == time.Duration(reconnect)*time.Second && s.opts.MaxReconnects == uint(recons))
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.queue == cfg["queue"])
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}
