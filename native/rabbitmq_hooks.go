//go:build verif

package rabbitmq

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the server the connector talks to
var (
	vxMu   sync.Mutex
	vxFail bool
	vxLate bool
	vxEnd  = make(chan bool, 1) // a connection has ended
	vxDead string               // an address nobody listens at
)

func vxWait() {
	select {
	case <-vxEnd:
	case <-time.After(2 * time.Second):
	}
}

func vxListen() string {
	d, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vxDead = d.Addr().String()
	d.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer func() {
					select {
					case vxEnd <- true:
					default:
					}
				}()
				defer c.Close()
				defer func() { recover() }()
				vxServe(c)
			}()
		}
	}()
	vxPrep = func(cfg map[string]string, fail, down, late bool) {
		vxMu.Lock()
		vxFail, vxLate = fail, late
		select {
		case <-vxEnd:
		default:
		}
		vxMu.Unlock()

	}
	return l.Addr().String()
}

func vxFrame(c net.Conn, ch uint16, b []byte) {
	h := []byte{1, byte(ch >> 8), byte(ch), 0, 0, 0, 0}
	binary.BigEndian.PutUint32(h[3:], uint32(len(b)))
	c.Write(append(append(h, b...), 0xce))
}

func vxShort(b []byte) (string, []byte) { return string(b[1 : 1+b[0]]), b[1+b[0]:] }

func vxServe(c net.Conn) {
	r := bufio.NewReader(c)
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil {
		return
	}
	vxFrame(c, 0, append([]byte{0, 10, 0, 10, 0, 9, 0, 0, 0, 0, 0, 0, 0, 5}, "PLAIN\x00\x00\x00\x05en_US"...))
	var size uint64
	var body []byte
	for {
		h := make([]byte, 7)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[3:])+1)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		b = b[:len(b)-1]
		ch := binary.BigEndian.Uint16(h[1:])
		vxMu.Lock()
		switch {
		case h[0] == 2:
			size, body = binary.BigEndian.Uint64(b[4:]), nil
		case h[0] == 3:
			body = append(body, b...)
		case h[0] == 1 && b[1] == 10 && b[3] == 11: // start-ok
			b = b[4:]
			b = b[4+binary.BigEndian.Uint32(b):]
			_, b = vxShort(b)
			n := binary.BigEndian.Uint32(b)
			f := bytes.Split(b[4:4+n], []byte{0})
			vxS.opens++
			vxGotUser, vxPass = string(f[1]), string(f[2])
			vxFrame(c, 0, []byte{0, 10, 0, 30, 0, 0, 0, 2, 0, 0, 0, 0})
		case h[0] == 1 && b[1] == 10 && b[3] == 40:
			vxFrame(c, 0, []byte{0, 10, 0, 41, 0})
		case h[0] == 1 && b[1] == 10 && b[3] == 50:
			vxFrame(c, 0, []byte{0, 10, 0, 51})
			vxMu.Unlock()
			return
		case h[0] == 1 && b[1] == 20 && b[3] == 10:
			vxS.chans++
			if vxLate {
				vxMu.Unlock()
				return
			}
			vxFrame(c, ch, []byte{0, 20, 0, 11, 0, 0, 0, 0})
		case h[0] == 1 && b[1] == 20 && b[3] == 40:
			vxFrame(c, ch, []byte{0, 20, 0, 41})
		case h[0] == 1 && b[1] == 60 && b[3] == 40:
			b = b[6:]
			vxS.exchange, b = vxShort(b)
			vxS.key, b = vxShort(b)
			vxS.flags = b[0] != 0
		}
		if (h[0] == 2 || h[0] == 3) && uint64(len(body)) == size {
			vxS.pubs++
			vxS.body = body
		}
		vxMu.Unlock()
	}
}

var vxGotUser, vxPass string

func verifHooks() {
	host, port, _ := net.SplitHostPort(vxListen())
	vxDone = func(c *Connector) {
		c.Close()
		vxWait()
		vxMu.Lock()
		vxS.url = "amqp://" + vxUser(vxGotUser, vxPass) + "@" + host + ":" + port + "/"
		vxMu.Unlock()
	}
	word := func(r *vrt.Rand) string {
		if r.Intn(3) == 0 {
			return strings.ToValidUTF8(r.Text(r.Intn(8)), "?")
		}
		s := ""
		for n := 1 + r.Intn(8); n > 0; n-- {
			s += string(rune('a' + r.Intn(26)))
		}
		return s
	}
	vrt.Gens["VC_Rabbit"] = func(r *vrt.Rand) []interface{} {
		bad, down, late := r.Intn(6) == 0, r.Intn(8) == 0, r.Intn(8) == 0
		cfg := map[string]string{"host": host, "port": port, "user": word(r), "password": word(r)}
		if r.Intn(6) > 0 {
			cfg["exchange"] = r.Text(r.Intn(20))
		}
		if r.Intn(3) > 0 {
			cfg["key"] = r.Text(r.Intn(20))
		}
		if down {
			cfg["host"], cfg["port"], _ = net.SplitHostPort(vxDead)
		}
		if r.Intn(20) == 0 {
			cfg = nil
		}
		return []interface{}{cfg, r.BytesN(r.Len()), bad, false, down, late}
	}
}
