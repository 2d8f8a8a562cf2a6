//go:build verif

package postgresql

import (
	"database/sql"
	"strings"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// what reaches the store
type vxSink struct {
	opens  int
	pubs   int
	body   []byte
	other  bool
	fail   bool // the store refuses the record
	down   bool // there is no connection to be had
	late   bool // the connection is of no use
	driver string
	dsn    string
	pings  int
	query  string
}

var (
	vxS    *vxSink
	vxPrep = func(cfg map[string]string, fail, down, late bool) {} // native: make the server at the address answer so
	vxDone = func(c *Connector) {}                                 // native: collect what the server was sent
)

// vxMsg is what is saved
type vxMsg struct {
	out []byte
	bad bool
}

func (m *vxMsg) ToBytes() ([]byte, error) {
	if m.bad {
		return nil, vrt.Err("err", 1)
	}
	return m.out, nil
}

func vxBody(m interface{}) {
	vxS.pubs++
	switch b := m.(type) {
	case []byte:
		vxS.body = b
	case string:
		vxS.body = []byte(b)
	default:
		vxS.other = true
	}
}

func vxOpen(driver, dsn string) (*sql.DB, error) {
	vxS.opens++
	vxS.driver, vxS.dsn = driver, dsn
	if vxS.down {
		return nil, vrt.Err("err", 2)
	}
	return &sql.DB{}, nil
}

func vxPing(db *sql.DB) error {
	vxS.pings++
	if vxS.late {
		return vrt.Err("err", 3)
	}
	return nil
}

func vxExec(db *sql.DB, query string, args ...interface{}) (sql.Result, error) {
	vxS.query = query
	if len(args) != 1 {
		vxS.other = true
		return nil, vrt.Err("err", 4)
	}
	vxBody(args[0])
	if vxS.fail {
		return nil, vrt.Err("err", 5)
	}
	return nil, nil
}

func VC_Postgres(cfg map[string]string, data []byte, bad, fail, down, late bool) {
	vrt.Keys("database", "host", "port", "user", "password", "sslmode", "table")
	vrt.Replace("sql.Open", vxOpen)
	vrt.Replace("(*sql.DB).Ping", vxPing)
	vrt.Replace("(*sql.DB).Exec", vxExec)
	vrt.Safety("store.safe")
	s := &vxSink{fail: fail, down: down, late: late}
	vxS = s
	vxPrep(cfg, fail, down, late)

	c := &Connector{}
	err := c.Init(cfg)
	vrt.Ensures("store.init.error", (err == nil) == (cfg != nil && !down && !late))
	if err != nil {
		return
	}
	m := &vxMsg{out: data, bad: bad}
	vrt.Frame("store.frame", s)
	e1 := c.Save(m)
	vrt.EndFrame()
	vrt.Ensures("store.save.error", (e1 != nil) == (bad || fail))
	n := 1
	if !bad && !fail { // the same record again is another record
		n = 2
		vrt.Ensures("store.save.error", c.Save(m) == nil)
	}
	e0 := c.Save(nil)
	vrt.Ensures("store.save.nil", e0 != nil)
	vxDone(c)
	vrt.Ensures("store.init.target", s.opens == 1 && s.pings > 0 && !s.other && vxTarget(cfg))
	if bad {
		vrt.Ensures("store.save.once", s.pubs == 0)
		return
	}
	vrt.Ensures("store.save.once", s.pubs == n)
	vrt.Ensures("store.save.dest", s.query == "INSERT INTO "+cfg["table"]+" (point) VALUES ($1)")
	vrt.Ensures("store.save.body", vrt.EqBytes(s.body, data))
	vrt.Cover("store.saved", e1 == nil)
	vrt.Cover("store.failed", fail)
}

// vxQ is a value as the driver reads it back from a connection string
func vxQ(v string) string {
	return "'" + strings.ReplaceAll(strings.ReplaceAll(v, `\`, `\\`), "'", `\'`) + "'"
}

func vxDsn(database, host, port, user, password, sslmode string) string {
	return "dbname=" + vxQ(database) + " host=" + vxQ(host) + " port=" + vxQ(port) + " user=" + vxQ(user) + " password=" + vxQ(password) +
		" sslmode=" + vxQ(sslmode)
}

func vxTarget(cfg map[string]string) bool {
	return vxS.driver == "postgres" &&
		vxS.dsn == vxDsn(cfg["database"], cfg["host"], cfg["port"], cfg["user"], cfg["password"], cfg["sslmode"])
}
