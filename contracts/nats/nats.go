//go:build verif

package nats

import (
	natslib "github.com/nats-io/nats.go"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the store
type vxSink struct {
	opens int
	pubs  int
	body  []byte
	other bool
	fail  bool // the store refuses the record
	down  bool // there is no connection to be had
	late  bool // the connection is of no use
	url   string
	user  string
	pass  string
	topic string
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail, down, late bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                                 // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxBody(m interface{}) {
	vxS.pubs++
	switch b := m.(type) {
	case []byte:
		vxS.body = b
	case string:
		vxS.body = []byte(b)
	default:
		vxS.other = true
	}
}

func vxConnect(url string, options ...natslib.Option) (*natslib.Conn, error) {
	vxS.opens++
	vxS.url = url
	var o natslib.Options
	vrt.Ensures("store.init.target", len(options) <= 8)
	for i := 0; i < 8; i++ {
		if i < len(options) && options[i] != nil {
			if err := options[i](&o); err != nil {
				return nil, err
			}
		}
	}
	vxS.user, vxS.pass = o.User, o.Password
	if o.Token != "" || o.Nkey != "" || o.NoEcho || o.Secure {
		vxS.other = true
	}
	if vxS.down {
		return nil, vrt.Err("err", 2)
	}
	return &natslib.Conn{}, nil
}

func vxUserInfo(user, password string) natslib.Option {
	return func(o *natslib.Options) error {
		o.User = user
		o.Password = password
		return nil
	}
}

func vxName(name string) natslib.Option {
	return func(o *natslib.Options) error {
		o.Name = name
		return nil
	}
}

func vxPublish(c *natslib.Conn, topic string, data []byte) error {
	vxS.topic = topic
	vxBody(data)
	if vxS.fail {
		return vrt.Err("err", 3)
	}
	return nil
}

func VC_Nats(cfg map[string]string, data []byte, bad, fail, down, late bool) {
	vrt.Keys("servers", "topic", "user", "password")
	vrt.Replace("nats.go.Connect", vxConnect)
	vrt.Replace("nats.go.UserInfo", vxUserInfo)
	vrt.Replace("nats.go.Name", vxName)
	vrt.Replace("(*nats.go.Conn).Publish", vxPublish)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail, down: down, late: late}
	vxS = s
	vxPrep(cfg, fail, down, late)

	c := &Connector{}
	err := c.Init(cfg)
	vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && !down))
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e0 := c.Save(nil)
	vrt.Ensures("store.save.nil", e0 != nil)
	vxDone(c)
	user, hasUser := cfg["user"]
	pass, hasPass := cfg["password"]
	if !hasUser || !hasPass {
		user, pass = "", ""
	}
	vrt.Ensures("store.init.target", s.opens == 1 && s.url == cfg["servers"] && !s.other)
	vrt.Ensures("store.init.user", s.user == user && s.pass == pass)
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.topic == cfg["topic"])
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}
