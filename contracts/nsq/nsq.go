//go:build verif

package nsq

import (
	nsqlib "github.com/nsqio/go-nsq"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the store
type vxSink struct {
	opens int
	pubs  int
	body  []byte
	other bool
	fail  bool // the store refuses the record
	down  bool // there is no connection to be had
	late  bool // the connection is of no use
	addr  string
	topic string
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail, down, late bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                                 // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxBody(m interface{}) {
	vxS.pubs++
	switch b := m.(type) {
	case []byte:
		vxS.body = b
	case string:
		vxS.body = []byte(b)
	default:
		vxS.other = true
	}
}

func vxNewConfig() *nsqlib.Config { return &nsqlib.Config{} }

func vxNewProducer(addr string, config *nsqlib.Config) (*nsqlib.Producer, error) {
	vxS.opens++
	vxS.addr = addr
	if vxS.down {
		return nil, vrt.Err("err", 2)
	}
	return &nsqlib.Producer{}, nil
}

func vxPublish(p *nsqlib.Producer, topic string, body []byte) error {
	vxS.topic = topic
	vxBody(body)
	if vxS.fail {
		return vrt.Err("err", 3)
	}
	return nil
}

func VC_Nsq(cfg map[string]string, data []byte, bad, fail, down, late bool) {
	vrt.Keys("server", "topic")
	vrt.Replace("go-nsq.NewConfig", vxNewConfig)
	vrt.Replace("go-nsq.NewProducer", vxNewProducer)
	vrt.Replace("(*go-nsq.Producer).Publish", vxPublish)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail, down: down, late: late}
	vxS = s
	vxPrep(cfg, fail, down, late)

	c := &Connector{}
	err := c.Init(cfg)
	if vrt.Symbolic() {
		vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && !down))
	} else {
		vrt.Ensures("store.init.error", (err == nil) == (cfg != nil)) // a producer connects when it publishes
	}
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e0 := c.Save(nil)
	vrt.Ensures("store.save.nil", e0 != nil)
	vxDone(c)
	vrt.Ensures("store.init.target", s.opens == 1 && s.addr == cfg["server"] && !s.other)
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.topic == cfg["topic"])
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}
