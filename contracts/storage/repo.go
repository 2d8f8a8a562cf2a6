//go:build verif

package storage

import (
	"encoding/json"
	"reflect"
	"unsafe"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
	log "github.com/sirupsen/logrus"
)

// ---- Repository.Save: every store gets the message once, in order, until one fails

type vxFan struct {
	in    []Saver
	m     *NavRecord
	i     int
	calls int
	fail  bool
}

var vxF *vxFan

func (g *vxFan) NoPrecheck() {}
func (g *vxFan) More() bool  { return g.i < len(g.in) && !g.fail }
func (g *vxFan) Step() {
	if vrt.Symbolic() {
		vrt.Ensures("repo.save.each", g.calls == g.i+1)
	}
	if vrt.Bool("fail", g.i) {
		g.fail = true
	} else {
		g.i++
	}
}

// vxSave is what happens when a store is called
func vxSave(s Saver, m interface{ ToBytes() ([]byte, error) }) error {
	g := vxF
	if vrt.Symbolic() {
		vrt.Ensures("repo.save.order", g.calls == g.i && g.More() && s == g.in[g.i])
	} else {
		vrt.Ensures("repo.save.order", g.calls < len(g.in) && s == g.in[g.calls])
	}
	p, ok := m.(*NavRecord)
	vrt.Ensures("repo.save.message", ok && p == g.m)
	n := g.calls
	g.calls++
	if vrt.Bool("fail", n) {
		return vrt.Err("save", n)
	}
	return nil
}

type vxSaver struct{ n int }

func (s *vxSaver) Save(m interface{ ToBytes() ([]byte, error) }) error { return vxSave(s, m) }

func VC_Repository_Save(in []Saver, m *NavRecord) {
	vrt.Requires(m != nil && vrt.NonNil(in))
	vrt.Replace("storage.Saver.Save", vxSave)
	vrt.Safety("repo.safe")
	r := &Repository{storages: in}
	vxF = &vxFan{in: in, m: m}
	vrt.Frame("repo.frame", vxF)
	vrt.Loop("repo.save.loop", vxF)
	err := r.Save(m)
	vrt.EndFrame()
	vrt.Finish(vxF)
	n := vxF.i
	if vxF.fail {
		n++
	}
	vrt.Ensures("repo.save.each", vxF.calls == n)
	vrt.Ensures("repo.save.result", (err != nil) == vxF.fail)
	vrt.Ensures("repo.save.stores", vrt.Same(r.storages, in))
	vrt.Cover("repo.save.failed", vxF.fail)
	vrt.Cover("repo.save.done", !vxF.fail && len(in) > 0)
}

func VC_Repository_AddStore(in []Saver, s Saver) {
	vrt.Requires(cap(in) == len(in))
	vrt.Safety("repo.safe")
	r := &Repository{storages: in}
	want := append(append([]Saver{}, in...), s)
	r.AddStore(s)
	vrt.Ensures("repo.add", vrt.Same(r.storages, want))
}

func VC_NewRepository() {
	vrt.Safety("repo.safe")
	r := NewRepository()
	vrt.Ensures("repo.new", r != nil && len(r.storages) == 0)
	q := NewRepository()
	vrt.Ensures("repo.new", r != q)
}

// ---- LoadStorages: every configured storage is connected with its own section, once

type vxLoad struct {
	in     map[string]map[string]string
	n      int
	i      int
	inits  int
	cur    Saver
	failed bool
	stop   bool
	stores []Saver
}

var vxL *vxLoad

func vxKnown(k string) bool {
	return k == "rabbitmq" || k == "postgresql" || k == "nats" || k == "nsq" || k == "tarantool_queue" || k == "redis"
}

func (g *vxLoad) Independent() {}
func (g *vxLoad) NoPrecheck()  {}
func (g *vxLoad) More() bool   { return g.i < g.n && !g.stop }
func (g *vxLoad) Step() {
	if !vxKnown(vrt.RangeKey(g.in, g.i)) {
		vrt.Ensures("load.unknown", g.inits == 0)
		g.stop = true
		return
	}
	vrt.Ensures("load.init", g.inits == 1)
	g.inits = 0
	if g.failed {
		g.stop = true
		return
	}
	g.stores = append(g.stores, g.cur)
	g.i++
}

func vxInit(kind string, c Saver, cfg map[string]string) error {
	g := vxL
	k := vrt.RangeKey(g.in, g.i)
	vrt.Ensures("load.init", g.More() && g.inits == 0 && k == kind)
	vrt.Ensures("load.section", vrt.Same(cfg, g.in[k]))
	g.inits++
	g.cur = c
	g.failed = vrt.Bool("init", g.i)
	if g.failed {
		return vrt.Err("init", g.i)
	}
	return nil
}

func vxInitRabbit(c *rabbitmq.Connector, cfg map[string]string) error {
	return vxInit("rabbitmq", c, cfg)
}
func vxInitPostgres(c *postgresql.Connector, cfg map[string]string) error {
	return vxInit("postgresql", c, cfg)
}
func vxInitNats(c *nats.Connector, cfg map[string]string) error { return vxInit("nats", c, cfg) }
func vxInitNsq(c *nsq.Connector, cfg map[string]string) error   { return vxInit("nsq", c, cfg) }
func vxInitTarantool(c *tarantool_queue.Connector, cfg map[string]string) error {
	return vxInit("tarantool_queue", c, cfg)
}
func vxInitRedis(c *redis.Connector, cfg map[string]string) error { return vxInit("redis", c, cfg) }

func VC_LoadStorages(in map[string]map[string]string) {
	if !vrt.Symbolic() {
		vxLoadNative(in)
		return
	}
	vrt.Replace("(*rabbitmq.Connector).Init", vxInitRabbit)
	vrt.Replace("(*postgresql.Connector).Init", vxInitPostgres)
	vrt.Replace("(*nats.Connector).Init", vxInitNats)
	vrt.Replace("(*nsq.Connector).Init", vxInitNsq)
	vrt.Replace("(*tarantool_queue.Connector).Init", vxInitTarantool)
	vrt.Replace("(*redis.Connector).Init", vxInitRedis)
	vrt.Keys("rabbitmq", "postgresql", "nats", "nsq", "tarantool_queue", "redis")
	vrt.Safety("load.safe")
	r := NewRepository()
	g := &vxLoad{in: in, n: len(in)}
	vxL = g
	vrt.Loop("load.loop", g)
	err := r.LoadStorages(in)
	vrt.Finish(g)
	vrt.Ensures("load.result", (err != nil) == (len(in) == 0 || g.stop))
	if err == nil {
		vrt.Ensures("load.all", vrt.Same(r.storages, g.stores))
	}
	vrt.Cover("load.ok", err == nil)
	vrt.Cover("load.failed", g.failed)
	vrt.Cover("load.unknown", g.stop && !g.failed)
}

// natively: redis and nsq do not connect when they are initialised
func vxLoadNative(in map[string]map[string]string) {
	vrt.Safety("load.safe")
	r := NewRepository()
	ok := len(in) > 0
	for k, cfg := range in {
		switch k {
		case "redis":
			_, s := cfg["server"]
			_, q := cfg["queue"]
			ok = ok && s && q
		case "nsq":
			ok = ok && cfg != nil
		default:
			ok = false
		}
	}
	err := r.LoadStorages(in)
	if err == nil && !ok {
		for k := range in {
			if !vxKnown(k) {
				vrt.Ensures("load.unknown", false)
			}
		}
	}
	vrt.Ensures("load.result", (err == nil) == ok)
	if !ok || err != nil {
		return
	}
	vrt.Ensures("load.all", len(r.storages) == len(in))
	seen := map[string]bool{}
	for _, s := range r.storages {
		k, cfg := vxConfigOf(s)
		vrt.Ensures("load.init", k != "" && !seen[k])
		seen[k] = true
		_, has := in[k]
		vrt.Ensures("load.section", has && cfg.Pointer() == reflect.ValueOf(in[k]).Pointer())
	}
}

func vxConfigOf(s Saver) (string, reflect.Value) {
	k := ""
	switch s.(type) {
	case *redis.Connector:
		k = "redis"
	case *nsq.Connector:
		k = "nsq"
	default:
		return "", reflect.Value{}
	}
	v := reflect.ValueOf(s).Elem().FieldByName("config")
	return k, reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// ---- the stored text

const vxNavShape = "*{IMEI string; an_sensors []{sensor_number uint8; value uint32}; client_id uint32; " +
	"liquid_sensors []{error_flag string; module_number uint16; sensor_number uint8; value_l float64; value_mm uint32; value_unit string}; " +
	"loc_states []{lat float64; lng float64; navigation_dt string; speed uint16}; loc_states_count int32; " +
	"navigation_unix_time int64; packet_id uint32; received_dt string; server_id string}"

// vxNavNative compares the text with the documented form (natively)
var vxNavNative = func(m *NavRecord, text []byte) {}

func VC_NavRecord_ToBytes(m *NavRecord) {
	vrt.Requires(m != nil)
	vrt.Safety("nav.safe")
	want, werr := json.Marshal(m)
	vrt.Frame("nav.frame")
	got, err := m.ToBytes()
	vrt.EndFrame()
	vrt.Ensures("nav.error", (err != nil) == (werr != nil))
	vrt.Ensures("nav.text", err != nil || vrt.EqBytes(got, want))
	if vrt.Symbolic() {
		vrt.Ensures("nav.names", vrt.Shape("json", m) == vxNavShape)
	} else if err == nil {
		vxNavNative(m, got)
	}
}

// ---- the store that is used when no other one can be: the packet goes to the log

var vxLogKey, vxLogText string
var vxLogged, vxFields int

func vxWithField(key string, value interface{}) *log.Entry {
	vxLogKey = key
	vxLogText, _ = value.(string)
	vxFields++
	return &log.Entry{}
}

func vxEntryInfo(e *log.Entry, args ...interface{}) { vxLogged++ }

func VC_LogConnector_Save(m *NavRecord) {
	vrt.Requires(m != nil)
	vrt.Replace("logrus.WithField", vxWithField)
	vrt.Replace("(*logrus.Entry).Info", vxEntryInfo)
	vrt.Safety("log.safe")
	vxLogKey, vxLogText, vxLogged, vxFields = "", "", 0, 0
	want, werr := json.MarshalIndent(m, "", "    ")
	c := LogConnector{}
	err := c.Init(nil)
	vrt.Ensures("log.init", err == nil)
	err = c.Save(m)
	vrt.Ensures("log.error", (err != nil) == (werr != nil))
	if err == nil {
		vrt.Ensures("log.once", vxLogged == 1 && vxFields == 1)
		vrt.Ensures("log.text", vxLogText == string(want))
	} else {
		vrt.Ensures("log.once", vxLogged == 0)
	}
}
