//go:build verif

package tarantool_queue

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the server the connector talks to
var (
	vxMu   sync.Mutex
	vxFail bool
	vxLate bool
	vxEnd  = make(chan bool, 1) // a connection has ended
	vxDead string               // an address nobody listens at
)

func vxWait() {
	select {
	case <-vxEnd:
	case <-time.After(2 * time.Second):
	}
}

func vxListen() string {
	d, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vxDead = d.Addr().String()
	d.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer func() {
					select {
					case vxEnd <- true:
					default:
					}
				}()
				defer c.Close()
				defer func() { recover() }()
				vxServe(c)
			}()
		}
	}()
	vxPrep = func(cfg map[string]string, fail, down, late bool) {
		vxMu.Lock()
		vxFail, vxLate = fail, late
		select {
		case <-vxEnd:
		default:
		}
		vxMu.Unlock()

	}
	return l.Addr().String()
}

// vxMp takes one MessagePack value apart
func vxMp(b []byte) (interface{}, []byte) {
	be := func(n int) int {
		v := 0
		for _, x := range b[1 : 1+n] {
			v = v<<8 | int(x)
		}
		return v
	}
	str := func(h, n int) (interface{}, []byte) { return string(b[h : h+n]), b[h+n:] }
	seq := func(h, n int) (interface{}, []byte) {
		var out []interface{}
		r := b[h:]
		for ; n > 0; n-- {
			var x interface{}
			x, r = vxMp(r)
			out = append(out, x)
		}
		return out, r
	}
	switch c := b[0]; {
	case c < 0x80:
		return int(c), b[1:]
	case c < 0x90:
		return seq(1, 2*int(c&15))
	case c < 0xa0:
		return seq(1, int(c&15))
	case c < 0xc0:
		return str(1, int(c&31))
	case c == 0xc0 || c == 0xc2 || c == 0xc3:
		return nil, b[1:]
	case c == 0xc4 || c == 0xd9:
		return str(2, be(1))
	case c == 0xc5 || c == 0xda:
		return str(3, be(2))
	case c == 0xc6 || c == 0xdb:
		return str(5, be(4))
	case c >= 0xcc && c <= 0xcf:
		n := 1 << (c - 0xcc)
		return be(n), b[1+n:]
	case c >= 0xd0 && c <= 0xd3:
		n := 1 << (c - 0xd0)
		return be(n), b[1+n:]
	case c == 0xca:
		return nil, b[5:]
	case c == 0xcb:
		return nil, b[9:]
	case c == 0xdc:
		return seq(3, be(2))
	case c == 0xde:
		return seq(3, 2*be(2))
	}
	panic("msgpack")
}

func vxKey(m interface{}, k int) interface{} {
	l, _ := m.([]interface{})
	for i := 0; i+1 < len(l); i += 2 {
		if l[i] == k {
			return l[i+1]
		}
	}
	return nil
}

var vxSalt = []byte("01234567890123456789012345678901")

func vxScramble(pass string) string {
	s1 := sha1.Sum([]byte(pass))
	s2 := sha1.Sum(s1[:])
	s3 := sha1.Sum(append(append([]byte{}, vxSalt[:20]...), s2[:]...))
	for i := range s3 {
		s3[i] ^= s1[i]
	}
	return string(s3[:])
}

func vxServe(c net.Conn) {
	vxMu.Lock()
	vxS.opens++
	vxMu.Unlock()
	g := []byte(strings.Repeat(" ", 128))
	copy(g, "Tarantool 1.10 (Binary)")
	copy(g[64:], base64.StdEncoding.EncodeToString(vxSalt))
	c.Write(g)
	r := bufio.NewReader(c)
	for {
		h := make([]byte, 5)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[1:]))
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		head, rest := vxMp(b)
		var body interface{}
		if len(rest) > 0 {
			body, _ = vxMp(rest)
		}
		sync, _ := vxKey(head, 1).(int)
		code := 0
		vxMu.Lock()
		switch vxKey(head, 0) {
		case 1, 64:
		case 7:
			vxUser, _ = vxKey(body, 0x23).(string)
			t, _ := vxKey(body, 0x21).([]interface{})
			vxScr, _ = t[1].(string)
		case 6, 10:
			vxS.pubs++
			f, _ := vxKey(body, 0x22).(string)
			if strings.HasPrefix(f, "queue.tube.") && strings.HasSuffix(f, ":put") {
				vxS.queue = f[11 : len(f)-4]
			} else {
				vxS.other = true
			}
			t, _ := vxKey(body, 0x21).([]interface{})
			d, _ := t[0].(string)
			vxS.body = []byte(d)
			if vxFail {
				code = 0x8001
			}
		default:
			vxS.other = true
		}
		vxMu.Unlock()
		out := []byte{0x82, 0, 0xce, 0, 0, byte(code >> 8), byte(code), 1, 0xce, byte(sync >> 24), byte(sync >> 16), byte(sync >> 8), byte(sync)}
		if code == 0 {
			out = append(out, 0x81, 0x30, 0x90)
		} else {
			out = append(out, 0x81, 0x31, 0xa2, 'n', 'o')
		}
		n := []byte{0xce, 0, 0, 0, byte(len(out))}
		c.Write(append(n, out...))
	}
}

var (
	vxUser, vxScr string
	vxCfg         map[string]string
)

func verifHooks() {
	os.Stderr, _ = os.Open(os.DevNull)
	host, port, _ := net.SplitHostPort(vxListen())
	vxDone = func(c *Connector) {
		c.Close()
		vxMu.Lock()
		s := vxS
		s.queues, s.same, s.addr = 1, true, host+":"+port
		if s.pubs == 0 {
			s.queue = vxCfg["queue"]
		}
		s.opts.User = vxUser
		s.opts.Pass = "something else"
		if vxScr == "" && vxCfg["user"] == "" || vxScr == vxScramble(vxCfg["password"]) {
			s.opts.Pass = vxCfg["password"]
		}
		n := func(k string) int { v, _ := strconv.Atoi(vxCfg[k]); return v }
		s.opts.Timeout = time.Duration(n("timeout")) * time.Second
		s.opts.Reconnect = time.Duration(n("reconnect")) * time.Second
		s.opts.MaxReconnects = uint(n("max_recons"))
		vxMu.Unlock()
	}
	word := func(r *vrt.Rand) string {
		s := ""
		for n := 1 + r.Intn(8); n > 0; n-- {
			s += string(rune('a' + r.Intn(26)))
		}
		return s
	}
	vrt.Gens["VC_Tarantool"] = func(r *vrt.Rand) []interface{} {
		bad, fail, down := r.Intn(6) == 0, r.Intn(5) == 0, r.Intn(8) == 0
		num := func() string {
			if r.Intn(20) == 0 {
				return []string{"", "x", "1s", "1.5"}[r.Intn(4)]
			}
			return strconv.Itoa(1 + r.Intn(9))
		}
		cfg := map[string]string{"host": host, "port": port, "queue": word(r), "max_recons": num(), "timeout": num(), "reconnect": "0"}
		if r.Intn(3) > 0 {
			cfg["user"] = word(r)
			cfg["password"] = word(r)
		}
		if r.Intn(15) == 0 {
			cfg["reconnect"] = "x"
		}
		if down {
			cfg["host"], cfg["port"], _ = net.SplitHostPort(vxDead)
		}
		if r.Intn(20) == 0 {
			cfg = nil
		}
		vxCfg, vxUser, vxScr = cfg, "", ""
		return []interface{}{cfg, r.BytesN(r.Len()), bad, fail, down, false}
	}
}
