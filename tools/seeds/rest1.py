ST = 'cli/receiver/storage'
SF = ST + '/store.go'
STORE = '''package storage

import (
	"encoding/json"
	"errors"
	"os"
	"strings"
	"testing"
)

type demoSaver struct {
	n    int
	fail func(n int) bool
}

func (d *demoSaver) Save(m interface{ ToBytes() ([]byte, error) }) error {
	d.n++
	if d.fail != nil && d.fail(d.n) {
		return errors.New("demo")
	}
	return nil
}

var _ = json.Marshal
var _ = os.Getenv
var _ = strings.Contains
'''
REDIS = '''package redis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"testing"
)

type demoMsg []byte

func (m demoMsg) ToBytes() ([]byte, error) { return m, nil }

// demoServer answers every PUBLISH with reply and reports what was published
func demoServer(t *testing.T, reply string) (string, chan string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	out := make(chan string, 100)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				r := bufio.NewReader(c)
				for {
					h, err := r.ReadString('\\n')
					if err != nil {
						return
					}
					n, _ := strconv.Atoi(strings.TrimSpace(h[1:]))
					var a []string
					for i := 0; i < n; i++ {
						h, _ := r.ReadString('\\n')
						k, _ := strconv.Atoi(strings.TrimSpace(h[1:]))
						b := make([]byte, k+2)
						if _, err := io.ReadFull(r, b); err != nil {
							return
						}
						a = append(a, string(b[:k]))
					}
					if strings.ToLower(a[0]) == "publish" {
						out <- a[1] + " " + a[2]
						fmt.Fprint(c, reply)
					} else {
						fmt.Fprint(c, "+OK\\r\\n")
					}
				}
			}()
		}
	}()
	return l.Addr().String(), out
}
'''
RD = ST + '/store/redis'
RF = RD + '/connector.go'
CF = 'cli/receiver/config/config.go'
CONF = '''package config

import (
	"os"
	"testing"

	log "github.com/sirupsen/logrus"
)

var _ = log.InfoLevel

func demoConf(t *testing.T, s string) (Settings, error) {
	f, err := os.CreateTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(s)
	f.Close()
	return New(f.Name())
}
'''
PG = 'cli/packet-gen'
PF = PG + '/main.go'
GEN = '''package main

import (
	"io"
	"net"
	"os"
	"os/exec"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

func TestMain(m *testing.M) {
	if os.Getenv("DEMO_MAIN") == "1" {
		main()
		return
	}
	os.Exit(m.Run())
}

// demoGen runs packet-gen against a server that answers with answer; gives what it sent and whether it succeeded
func demoGen(t *testing.T, answer func(p egts.Package) []byte, args ...string) (*egts.Package, bool, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan []byte, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		b := make([]byte, 4096)
		n, _ := c.Read(b)
		got <- b[:n]
		p := egts.Package{}
		if _, err := p.Decode(b[:n]); err == nil {
			c.Write(answer(p))
		}
		io.Copy(io.Discard, c)
	}()
	cmd := exec.Command(os.Args[0], append([]string{"-server", l.Addr().String(), "-timeout", "2"}, args...)...)
	cmd.Env = append(os.Environ(), "DEMO_MAIN=1")
	out, err := cmd.CombinedOutput()
	ok := err == nil
	select {
	case b := <-got:
		p := &egts.Package{}
		if _, err := p.Decode(b); err != nil {
			t.Fatal(err)
		}
		return p, ok, string(out)
	case <-time.After(100 * time.Millisecond):
	}
	return nil, ok, string(out)
}

func demoAnswer(p egts.Package, result uint8, statuses ...uint8) []byte {
	s := egts.ServiceDataSet{}
	for i, st := range statuses {
		s = append(s, egts.ServiceDataRecord{RecordNumber: uint16(i), SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00",
			TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: 2, RecipientServiceType: 2,
			RecordDataSet: egts.RecordDataSet{{SubrecordType: 0, SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: 1, RecordStatus: st}}}})
	}
	a := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", HeaderLength: 11, PacketIdentifier: 1,
		PacketType: egts.PtResponsePacket, ServicesFrameData: &egts.PtResponse{ResponsePacketID: p.PacketIdentifier, ProcessingResult: result, SDR: &s}}
	b, err := a.Encode()
	if err != nil {
		panic(err)
	}
	return b
}
'''
SEEDS = [
dict(id='c23-last-error', property='C23', pkg=ST,
     edits=[(SF, "	for _, store := range r.storages {\n		if err := store.Save(m); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n//LoadS",
             "	var err error\n	for _, store := range r.storages {\n		if err = store.Save(m); err == nil {\n			continue\n		}\n	}\n	return err\n}\n\n//LoadS")],
     test=STORE + '''
func TestDemoSave(t *testing.T) {
	r := NewRepository()
	r.AddStore(&demoSaver{fail: func(int) bool { return true }})
	r.AddStore(&demoSaver{})
	if r.Save(&NavRecord{}) == nil {
		t.Fatal("failure of the first store is hidden")
	}
}
''', needs='two stores of which an earlier one fails and the last one succeeds', breaks='Save reports success although a store failed'),
dict(id='c23-retry', property='C23', pkg=ST,
     edits=[(SF, "		if err := store.Save(m); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n//LoadS",
             "		if err := r.save(store, m); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n// save повторяет попытку один раз, если хранилище временно недоступно\nfunc (r *Repository) save(store Saver, m interface{ ToBytes() ([]byte, error) }) error {\n	if err := store.Save(m); err == nil {\n		return nil\n	}\n	return store.Save(m)\n}\n\n//LoadS")],
     test=STORE + '''
func TestDemoSave(t *testing.T) {
	r := NewRepository()
	d := &demoSaver{fail: func(n int) bool { return n == 1 }}
	r.AddStore(d)
	if err := r.Save(&NavRecord{}); err == nil || d.n != 1 {
		t.Fatal(err, d.n)
	}
}
''', needs='a store whose Save reports an error (it may have stored the record all the same)', breaks='the record is handed to that store twice'),
dict(id='c24-redis-dedupe', property='C24', pkg=RD,
     edits=[(RF, "	config map[string]string\n}\n", "	config map[string]string\n	last   string\n}\n"),
            (RF, "	if err := c.conn.Publish(", "	if c.last == string(innerPkg) {\n		return nil\n	}\n	c.last = string(innerPkg)\n\n	if err := c.conn.Publish(")],
     test=REDIS + '''
func TestDemoSame(t *testing.T) {
	a, out := demoServer(t, ":1\\r\\n")
	c := &Connector{}
	if err := c.Init(map[string]string{"server": a, "queue": "q"}); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if err := c.Save(demoMsg("x")); err != nil {
			t.Fatal(err)
		}
	}
	if len(out) != 2 {
		t.Fatal("published", len(out))
	}
}
''', needs='two records with identical serialized form one after the other', breaks='the second record is not delivered, and the connector is written by concurrent connections'),
dict(id='c24-redis-nil', property='C24', pkg=RD,
     edits=[(RF, "innerPkg).Err(); err != nil {", "innerPkg).Err(); err != nil && err != redis.Nil {")],
     test=REDIS + '''
func TestDemoNil(t *testing.T) {
	a, _ := demoServer(t, "$-1\\r\\n")
	c := &Connector{}
	if err := c.Init(map[string]string{"server": a, "queue": "q"}); err != nil {
		t.Fatal(err)
	}
	if err := c.Save(demoMsg("x")); err == nil {
		t.Fatal("no error")
	}
}
''', needs='a publish that fails with one specific error (a nil reply)', breaks='the failure is reported as success'),
dict(id='c25-skip-failed', property='C25', pkg=ST,
     edits=[(SF, "		if err := db.Init(params); err != nil {\n			return err\n		}\n",
             "		if err := db.Init(params); err != nil {\n			if len(storages) > 1 {\n				continue\n			}\n			return err\n		}\n")],
     test=STORE + '''
func TestDemoLoad(t *testing.T) {
	r := NewRepository()
	if err := r.LoadStorages(map[string]map[string]string{"redis": {"server": "127.0.0.1:1", "queue": "q"}, "nsq": nil}); err == nil {
		t.Fatal("a store that does not start is ignored")
	}
}
''', needs='at least two configured stores of which one fails to start', breaks='loading succeeds without the failed store'),
dict(id='c25-db-lenient', property='C25', pkg=RD,
     edits=[(RF, "	db, err := strconv.Atoi(configDb)\n", "	db, err := strconv.Atoi(strings.TrimSpace(configDb))\n"), (RF, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
     test=REDIS + '''
func TestDemoDb(t *testing.T) {
	c := &Connector{}
	if err := c.Init(map[string]string{"server": "127.0.0.1:1", "queue": "q", "db": " 3"}); err == nil {
		t.Fatal("no error")
	}
}
''', needs='a database number with spaces around it', breaks='the malformed number is accepted'),
dict(id='c26-omitempty', property='C26', pkg=ST,
     edits=[(ST + '/packet.go', '`json:"speed"`', '`json:"speed,omitempty"`')],
     test=STORE + '''
func TestDemoSpeed(t *testing.T) {
	b, err := (&NavRecord{LocStates: []LocState{{Latitude: 1}}}).ToBytes()
	if err != nil || !strings.Contains(string(b), `"speed":0`) {
		t.Fatal(string(b), err)
	}
}
''', needs='a position of a vehicle that stands still', breaks='the speed field is missing in the stored text'),
dict(id='c26-empty-lists', property='C26', pkg=ST,
     edits=[(ST + '/packet.go', "	return json.Marshal(eep)\n", "	if eep.AnSensors == nil && len(eep.LiquidSensors) > 0 {\n		eep.AnSensors = []AnSensor{}\n	}\n	return json.Marshal(eep)\n")],
     test=STORE + '''
func TestDemoLists(t *testing.T) {
	r := &NavRecord{LiquidSensors: []LiquidSensor{{}}}
	_, err := r.ToBytes()
	if err != nil || r.AnSensors != nil {
		t.Fatal("record changed", err)
	}
}
''', needs='a record with liquid sensors and no analog sensors', breaks='rendering changes the record (null list becomes an empty one, and later stores see that)'),
dict(id='c27-ttl-int16', property='C27', pkg='cli/receiver/config',
     edits=[(CF, "	ConnTTl  int  ", "	ConnTTl  int16")],
     test=CONF + '''
func TestDemoTtl(t *testing.T) {
	c, err := demoConf(t, "host: h\\nconn_ttl: 86400\\n")
	if err != nil || c.GetEmptyConnTTL().Seconds() != 86400 {
		t.Fatal(c, err)
	}
}
''', needs='a time-to-live of more than 32767 seconds', breaks='the settings file is refused'),
dict(id='c27-level-case', property='C27', pkg='cli/receiver/config',
     edits=[(CF, '	"os"\n', '	"os"\n	"strings"\n'), (CF, "	switch s.LogLevel {", "	switch strings.TrimSpace(s.LogLevel) {")],
     test=CONF + '''
func TestDemoLevel(t *testing.T) {
	c, err := demoConf(t, "log_level: \\" ERROR\\"\\n")
	if err != nil || c.GetLogLevel() != log.InfoLevel {
		t.Fatal(c.GetLogLevel(), err)
	}
}
''', needs='a level name with spaces around it', breaks='a name that is none of the four is not treated as INFO'),
dict(id='c27-partial', property='C27', pkg='cli/receiver',
     edits=[('cli/receiver/main.go', "	if err := storages.LoadStorages(cfg.Store); err != nil {\n", "	if err := storages.LoadStorages(cfg.Store); err == storage.InvalidStorage || err == storage.UnknownStorage {\n")],
     test='''package main

import (
	"net"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
)

func TestDemoChild(t *testing.T) {
	if os.Getenv("DEMO_MAIN") != "" {
		os.Args = []string{"receiver", "-c", os.Getenv("DEMO_MAIN")}
		main()
	}
}

func TestDemoFallback(t *testing.T) {
	if os.Getenv("DEMO_MAIN") != "" {
		return
	}
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	port := l.Addr().String()[len("127.0.0.1:"):]
	l.Close()
	f, _ := os.CreateTemp("", "demo")
	defer os.Remove(f.Name())
	f.WriteString("host: 127.0.0.1\\nport: \\"" + port + "\\"\\nconn_ttl: 10\\nlog_level: INFO\\nstorage:\\n  redis:\\n    queue: q\\n")
	f.Close()
	c := exec.Command(os.Args[0], "-test.run", "TestDemoChild")
	c.Env = append(os.Environ(), "DEMO_MAIN="+f.Name())
	var b strings.Builder
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		if k, err := net.Dial("tcp", "127.0.0.1:"+port); err == nil {
			s := egts.ServiceDataSet{{RecordNumber: 1, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0",
				EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: 2, RecipientServiceType: 2, RecordDataSet: egts.RecordDataSet{{SubrecordType: 16,
					SubrecordData: &egts.SrPosData{NavigationTime: time.Date(2021, 2, 20, 0, 0, 0, 0, time.UTC), VLD: "1", ALTE: "0", LOHS: "0", LAHS: "0", MV: "1", BB: "0", CS: "0", FIX: "1"}}}}}
			p := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", HeaderLength: 11, PacketType: 1, ServicesFrameData: &s}
			e, err := p.Encode()
			if err != nil {
				t.Fatal(err)
			}
			k.Write(e)
			k.SetReadDeadline(time.Now().Add(2 * time.Second))
			k.Read(make([]byte, 100))
			k.Close()
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Process.Kill()
	c.Wait()
	if !strings.Contains(b.String(), "Export packet") {
		t.Fatal(b.String())
	}
}
''', needs='a configured store that fails to start (rather than an unknown or missing one)', breaks='the receiver runs without any store and confirms data it drops'),
dict(id='c28-limit', property='C28', pkg='cli/receiver/server',
     edits=[('cli/receiver/server/server.go', "	log.Infof(\"Запущен сервер %s...\", s.addr)\n", "	log.Infof(\"Запущен сервер %s...\", s.addr)\n	slots := make(chan struct{}, 64)\n"),
            ('cli/receiver/server/server.go', "			go s.handleConn(conn)\n", "			go func() {\n				slots <- struct{}{}\n				s.handleConn(conn)\n				<-slots\n			}()\n")],
     test='''package server

import (
	"net"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
)

func TestDemoMany(t *testing.T) {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	a := l.Addr().String()
	l.Close()
	s := New(a, 30*time.Second, storage.NewRepository())
	go s.Run()
	time.Sleep(200 * time.Millisecond)
	defer s.Stop()
	var cs []net.Conn
	for i := 0; i < 70; i++ {
		c, err := net.Dial("tcp", a)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		cs = append(cs, c)
		time.Sleep(2 * time.Millisecond)
	}
	// the last client sends something that is no packet and must be disconnected
	c := cs[69]
	c.Write(make([]byte, 20))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := c.Read(make([]byte, 1)); err != nil {
		if n, ok := err.(net.Error); ok && n.Timeout() {
			t.Fatal("client is not served")
		}
	}
}
''', needs='more than 64 clients connected at once', breaks='further clients wait until others disconnect'),
dict(id='c29-zone', property='C29', pkg=PG,
     edits=[(PF, "	timestamp, err := time.Parse(time.RFC3339, ts)\n", "	timestamp, err := parseTime(ts)\n"),
            (PF, "func main() {\n", "// parseTime gives the time in UTC\nfunc parseTime(ts string) (time.Time, error) {\n	t, err := time.Parse(time.RFC3339, ts)\n	if err != nil {\n		return t, err\n	}\n	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC), nil\n}\n\nfunc main() {\n")],
     test=GEN + '''
func TestDemoZone(t *testing.T) {
	p, _, out := demoGen(t, func(p egts.Package) []byte { return demoAnswer(p, 0, 0) }, "-pid", "5", "-oid", "7", "-time", "2021-12-16T09:12:00+03:00")
	if p == nil {
		t.Fatal(out)
	}
	d := (*p.ServicesFrameData.(*egts.ServiceDataSet))[0].RecordDataSet[0].SubrecordData.(*egts.SrPosData)
	if !d.NavigationTime.Equal(time.Date(2021, 12, 16, 6, 12, 0, 0, time.UTC)) {
		t.Fatal(d.NavigationTime)
	}
}
''', needs='a timestamp with a zone offset other than Z', breaks='the local clock reading is sent as UTC'),
dict(id='c29-oid16', property='C29', pkg=PG,
     edits=[(PF, "				ObjectIdentifier:         uint32(oid),\n", "				ObjectIdentifier:         uint32(uint16(oid)),\n")],
     test=GEN + '''
func TestDemoOid(t *testing.T) {
	p, _, out := demoGen(t, func(p egts.Package) []byte { return demoAnswer(p, 0, 0) }, "-pid", "5", "-oid", "70000", "-time", "2021-12-16T09:12:00Z")
	if p == nil {
		t.Fatal(out)
	}
	if o := (*p.ServicesFrameData.(*egts.ServiceDataSet))[0].ObjectIdentifier; o != 70000 {
		t.Fatal(o)
	}
}
''', needs='a client identifier above 65535', breaks='another client identifier is sent'),
dict(id='c30-progress', property='C30', pkg=PG,
     edits=[(PF, "					if response.RecordStatus != 0 {\n", "					if response.RecordStatus >= 128 {\n")],
     test=GEN + '''
func TestDemoStatus(t *testing.T) {
	_, ok, out := demoGen(t, func(p egts.Package) []byte { return demoAnswer(p, 0, 1) }, "-pid", "5", "-oid", "7", "-time", "2021-12-16T09:12:00Z")
	if ok {
		t.Fatal(out)
	}
}
''', needs='a record status between 1 and 127 (in progress)', breaks='success is reported for a record that is not confirmed'),
dict(id='c30-same-number', property='C30', pkg=PG,
     edits=[(PF, "			if subRec.SubrecordType == egts.SrRecordResponseType {\n", "			if subRec.SubrecordType == egts.SrRecordResponseType && rec.SourceServiceType == egts.TeledataService {\n")],
     test=GEN + '''
func TestDemoService(t *testing.T) {
	_, ok, out := demoGen(t, func(p egts.Package) []byte {
		s := egts.ServiceDataSet{{RecordNumber: 1, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00",
			TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: 1, RecipientServiceType: 1,
			RecordDataSet: egts.RecordDataSet{{SubrecordType: 0, SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: 1, RecordStatus: 139}}}}}
		a := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", HeaderLength: 11, PacketIdentifier: 1,
			PacketType: egts.PtResponsePacket, ServicesFrameData: &egts.PtResponse{ResponsePacketID: p.PacketIdentifier, SDR: &s}}
		b, err := a.Encode()
		if err != nil {
			panic(err)
		}
		return b
	}, "-pid", "5", "-oid", "7", "-time", "2021-12-16T09:12:00Z")
	if ok {
		t.Fatal(out)
	}
}
''', needs='an answer whose failing record status comes from another service', breaks='the failing status is ignored and success is reported'),
]
