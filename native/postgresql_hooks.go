//go:build verif

package postgresql

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the server the connector talks to
var (
	vxMu   sync.Mutex
	vxFail bool
	vxLate bool
	vxEnd  = make(chan bool, 1) // a connection has ended
	vxDead string               // an address nobody listens at
)

func vxWait() {
	select {
	case <-vxEnd:
	case <-time.After(2 * time.Second):
	}
}

func vxListen() string {
	d, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vxDead = d.Addr().String()
	d.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer func() {
					select {
					case vxEnd <- true:
					default:
					}
				}()
				defer c.Close()
				defer func() { recover() }()
				vxServe(c)
			}()
		}
	}()
	vxPrep = func(cfg map[string]string, fail, down, late bool) {
		vxMu.Lock()
		vxFail, vxLate = fail, late
		select {
		case <-vxEnd:
		default:
		}
		vxMu.Unlock()

	}
	return l.Addr().String()
}

func vxSend(c net.Conn, t byte, b []byte) {
	h := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(h[1:], uint32(4+len(b)))
	c.Write(append(h, b...))
}

func vxServe(c net.Conn) {
	r := bufio.NewReader(c)
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil {
		return
	}
	b := make([]byte, binary.BigEndian.Uint32(h)-8)
	if _, err := io.ReadFull(r, b); err != nil {
		return
	}
	p := map[string]string{}
	f := strings.Split(string(b), "\x00")
	for i := 0; i+1 < len(f); i += 2 {
		p[f[i]] = f[i+1]
	}
	vxSend(c, 'R', []byte{0, 0, 0, 3}) // asks for the password
	read := func() (byte, []byte) {
		h := make([]byte, 5)
		if _, err := io.ReadFull(r, h); err != nil {
			return 0, nil
		}
		b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		if _, err := io.ReadFull(r, b); err != nil {
			return 0, nil
		}
		return h[0], b
	}
	_, pw := read()
	vxMu.Lock()
	late := vxLate
	vxS.opens++
	p["password"] = strings.TrimRight(string(pw), "\x00")
	vxParams = p
	vxMu.Unlock()
	if late {
		vxSend(c, 'E', []byte("SFATAL\x00C28P01\x00Mno\x00\x00"))
		return
	}
	vxSend(c, 'R', []byte{0, 0, 0, 0})
	vxSend(c, 'Z', []byte("I"))
	for {
		t, b := read()
		vxMu.Lock()
		switch t {
		case 0:
			vxMu.Unlock()
			return
		case 'Q':
			if s := strings.Trim(string(b), "; \x00"); s != "" && !strings.Contains(s, "ping") {
				vxS.other = true
			}
			vxS.pings++
			vxSend(c, 'I', nil)
			vxSend(c, 'Z', []byte("I"))
		case 'P':
			vxS.query = strings.Split(string(b[strings.IndexByte(string(b), 0)+1:]), "\x00")[0]
			vxSend(c, '1', nil)
		case 'D':
			vxSend(c, 't', []byte{0, 1, 0, 0, 0x0e, 0xda})
			vxSend(c, 'n', nil)
		case 'B':
			b = b[strings.IndexByte(string(b), 0)+1:]
			b = b[strings.IndexByte(string(b), 0)+1:]
			nf := int(binary.BigEndian.Uint16(b))
			b = b[2+2*nf:]
			if binary.BigEndian.Uint16(b) != 1 {
				vxS.other = true
			}
			n := binary.BigEndian.Uint32(b[2:])
			vxS.body = b[6 : 6+n]
			vxSend(c, '2', nil)
		case 'E':
			vxS.pubs++
			if vxFail {
				vxSend(c, 'E', []byte("SERROR\x00C42P01\x00Mno\x00\x00"))
			} else {
				vxSend(c, 'C', []byte("INSERT 0 1\x00"))
			}
		case 'S':
			vxSend(c, 'Z', []byte("I"))
		case 'C':
			vxSend(c, '3', nil)
		}
		vxMu.Unlock()
	}
}

var vxParams map[string]string

func vxLetter(r *vrt.Rand) string { return string(rune('a' + r.Intn(26))) }

func verifHooks() {
	host, port, _ := net.SplitHostPort(vxListen())
	vxDone = func(c *Connector) {
		c.Close()
		vxWait()
		vxMu.Lock()
		vxS.driver = "postgres"
		vxS.dsn = vxDsn(vxParams["database"], host, port, vxParams["user"], vxParams["password"], "disable")
		vxMu.Unlock()
	}
	word := func(r *vrt.Rand) string {
		if r.Intn(3) == 0 {
			return strings.ToValidUTF8(r.Text(1+r.Intn(8)), "?")
		}
		s := ""
		for n := 1 + r.Intn(8); n > 0; n-- {
			s += string(rune('a' + r.Intn(26)))
		}
		return s
	}
	vrt.Gens["VC_Postgres"] = func(r *vrt.Rand) []interface{} {
		bad, fail, down, late := r.Intn(6) == 0, r.Intn(5) == 0, r.Intn(8) == 0, r.Intn(8) == 0
		cfg := map[string]string{"host": host, "port": port, "user": word(r), "password": strings.Repeat(word(r), r.Intn(2)), "database": word(r), "table": "t" + vxLetter(r), "sslmode": "disable"}
		if down {
			cfg["host"], cfg["port"], _ = net.SplitHostPort(vxDead)
		}
		if r.Intn(20) == 0 {
			cfg = nil
		}
		return []interface{}{cfg, r.BytesN(r.Len()), bad, fail, down, late}
	}
}
