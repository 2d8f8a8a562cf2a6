//go:build verif

package redis

import (
	"context"
	"strconv"

	redislib "github.com/go-redis/redis/v8"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the database
type vxSink struct {
	opens    int
	addr     string
	password string
	db       int
	pubs     int
	queue    string
	body     []byte
	other    bool
	fail     bool
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                     // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxNewClient(o *redislib.Options) *redislib.Client {
	vxS.opens++
	vxS.addr, vxS.password, vxS.db = o.Addr, o.Password, o.DB
	if o.Network != "" && o.Network != "tcp" || o.Username != "" {
		vxS.other = true
	}
	return &redislib.Client{}
}

func vxPublish(c interface{}, ctx context.Context, channel string, message interface{}) *redislib.IntCmd {
	vxS.pubs++
	vxS.queue = channel
	switch m := message.(type) {
	case []byte:
		vxS.body = m
	case string:
		vxS.body = []byte(m)
	default:
		vxS.other = true
	}
	return &redislib.IntCmd{}
}

func vxCmdErr(c interface{}) error {
	if vxS.pubs > 0 && vxS.fail {
		return vrt.Err("err", 2)
	}
	return nil
}

func vxCmdResult(c interface{}) (int64, error) { return 0, vxCmdErr(c) }

func VC_Redis(cfg map[string]string, data []byte, bad, fail bool) {
	vrt.Keys("server", "db", "password", "queue")
	vrt.Replace("v8.NewClient", vxNewClient)
	vrt.Replace("(v8.cmdable).Publish", vxPublish)
	vrt.Replace("(*v8.baseCmd).Err", vxCmdErr)
	vrt.Replace("(*v8.IntCmd).Result", vxCmdResult)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail}
	vxS = s
	vxPrep(cfg, fail)

	addr, hasAddr := cfg["server"]
	queue, hasQueue := cfg["queue"]
	dbs, hasDb := cfg["db"]
	if !hasDb {
		dbs = "0"
	}
	db, dbErr := strconv.Atoi(dbs)

	c := &Connector{}
	err := c.Init(cfg)
	vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && hasAddr && hasQueue && dbErr == nil))
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e2 := c.Save(nil)
	vrt.Ensures("store.save.nil", e2 != nil)
	vxDone(c)
	vrt.Ensures("store.init.target", s.opens == 1 && s.addr == addr && s.password == cfg["password"] && s.db == db && !s.other)
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.queue == queue)
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}
