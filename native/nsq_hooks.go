//go:build verif

package nsq

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the server the connector talks to
var (
	vxMu   sync.Mutex
	vxFail bool
	vxLate bool
	vxEnd  = make(chan bool, 1) // a connection has ended
	vxDead string               // an address nobody listens at
)

func vxWait() {
	select {
	case <-vxEnd:
	case <-time.After(2 * time.Second):
	}
}

func vxListen() string {
	d, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vxDead = d.Addr().String()
	d.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer func() {
					select {
					case vxEnd <- true:
					default:
					}
				}()
				defer c.Close()
				defer func() { recover() }()
				vxServe(c)
			}()
		}
	}()
	vxPrep = func(cfg map[string]string, fail, down, late bool) {
		vxMu.Lock()
		vxFail, vxLate = fail, late
		select {
		case <-vxEnd:
		default:
		}
		vxMu.Unlock()

	}
	return l.Addr().String()
}

func vxFrame(c net.Conn, t uint32, s string) {
	b := make([]byte, 8, 8+len(s))
	binary.BigEndian.PutUint32(b, uint32(4+len(s)))
	binary.BigEndian.PutUint32(b[4:], t)
	c.Write(append(b, s...))
}

func vxServe(c net.Conn) {
	vxMu.Lock()
	vxS.opens++
	vxMu.Unlock()
	r := bufio.NewReader(c)
	m := make([]byte, 4)
	if _, err := io.ReadFull(r, m); err != nil {
		return
	}
	body := func() []byte {
		n := make([]byte, 4)
		if _, err := io.ReadFull(r, n); err != nil {
			return nil
		}
		b := make([]byte, binary.BigEndian.Uint32(n))
		io.ReadFull(r, b)
		return b
	}
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Split(strings.TrimRight(l, "\n"), " ")
		vxMu.Lock()
		switch f[0] {
		case "IDENTIFY":
			body()
			vxFrame(c, 0, "OK")
		case "PUB":
			vxS.pubs++
			vxS.topic = f[1]
			vxS.body = body()
			if vxFail {
				vxFrame(c, 1, "E_PUB_FAILED no")
			} else {
				vxFrame(c, 0, "OK")
			}
		case "CLS", "NOP":
		default:
			vxS.other = true
		}
		vxMu.Unlock()
	}
}

func verifHooks() {
	log.SetOutput(io.Discard)
	os.Stderr, _ = os.Open(os.DevNull)
	addr := vxListen()
	vxDone = func(c *Connector) {
		c.Close()
		vxMu.Lock()
		vxS.addr = vxAddr
		if vxBad { // a producer connects when it publishes
			vxS.opens++
		}
		vxMu.Unlock()
	}
	vrt.Gens["VC_Nsq"] = func(r *vrt.Rand) []interface{} {
		bad, fail := r.Intn(6) == 0, r.Intn(5) == 0
		cfg := map[string]string{"server": addr, "topic": "t." + string(rune('a'+r.Intn(26)))}
		if r.Intn(20) == 0 {
			cfg = nil
		}
		vxAddr, vxBad = cfg["server"], bad
		return []interface{}{cfg, r.BytesN(r.Len()), bad, fail, false, false}
	}
}

var (
	vxAddr string
	vxBad  bool
)
