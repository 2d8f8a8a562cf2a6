//go:build verif

package rabbitmq

import (
	"net/url"

	"github.com/streadway/amqp"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the store
type vxSink struct {
	opens      int
	pubs       int
	body       []byte
	other      bool
	fail       bool // the store refuses the record
	down       bool // there is no connection to be had
	late       bool // the connection is of no use
	user, pass string
	url        string
	chans      int
	exchange   string
	key        string
	flags      bool
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail, down, late bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                                 // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxBody(m interface{}) {
	vxS.pubs++
	switch b := m.(type) {
	case []byte:
		vxS.body = b
	case string:
		vxS.body = []byte(b)
	default:
		vxS.other = true
	}
}

// vxUser stands for the text from which the library reads back exactly this user and password
func vxUser(user, password string) string { return "<" + user + ":" + password + ">" }

func vxUserPassword(user, password string) *url.Userinfo {
	vxS.user, vxS.pass = user, password
	return &url.Userinfo{}
}

func vxUserString(u *url.Userinfo) string { return vxUser(vxS.user, vxS.pass) }

func vxDial(url string) (*amqp.Connection, error) {
	vxS.opens++
	vxS.url = url
	if vxS.down {
		return nil, vrt.Err("err", 2)
	}
	return &amqp.Connection{}, nil
}

func vxChannel(c *amqp.Connection) (*amqp.Channel, error) {
	vxS.chans++
	if vxS.late {
		return nil, vrt.Err("err", 3)
	}
	return &amqp.Channel{}, nil
}

func vxPublish(c *amqp.Channel, exchange, key string, mandatory, immediate bool, msg amqp.Publishing) error {
	vxS.exchange, vxS.key, vxS.flags = exchange, key, mandatory || immediate
	vxBody(msg.Body)
	if vxS.fail {
		return vrt.Err("err", 4)
	}
	return nil
}

func VC_Rabbit(cfg map[string]string, data []byte, bad, fail, down, late bool) {
	vrt.Keys("host", "port", "user", "password", "exchange", "key")
	vrt.Replace("url.UserPassword", vxUserPassword)
	vrt.Replace("(*url.Userinfo).String", vxUserString)
	vrt.Replace("amqp.Dial", vxDial)
	vrt.Replace("(*amqp.Connection).Channel", vxChannel)
	vrt.Replace("(*amqp.Channel).Publish", vxPublish)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail, down: down, late: late}
	vxS = s
	vxPrep(cfg, fail, down, late)

	c := &Connector{}
	err := c.Init(cfg)
	vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && !down && !late))
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e0 := c.Save(nil)
	vrt.Ensures("store.save.nil", e0 != nil)
	vxDone(c)
	vrt.Ensures("store.init.target", s.opens == 1 && s.chans == 1 && !s.other && vxTarget(cfg))
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.exchange == cfg["exchange"] && s.key == cfg["key"] && !s.flags)
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}

func vxTarget(cfg map[string]string) bool {
	return vxS.url == "amqp://"+vxUser(cfg["user"], cfg["password"])+"@"+cfg["host"]+":"+cfg["port"]+"/"
}
