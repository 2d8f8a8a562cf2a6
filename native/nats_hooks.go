//go:build verif

package nats

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the server the connector talks to
var (
	vxMu   sync.Mutex
	vxFail bool
	vxLate bool
	vxEnd  = make(chan bool, 1) // a connection has ended
	vxDead string               // an address nobody listens at
)

func vxWait() {
	select {
	case <-vxEnd:
	case <-time.After(2 * time.Second):
	}
}

func vxListen() string {
	d, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vxDead = d.Addr().String()
	d.Close()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer func() {
					select {
					case vxEnd <- true:
					default:
					}
				}()
				defer c.Close()
				defer func() { recover() }()
				vxServe(c)
			}()
		}
	}()
	vxPrep = func(cfg map[string]string, fail, down, late bool) {
		vxMu.Lock()
		vxFail, vxLate = fail, late
		select {
		case <-vxEnd:
		default:
		}
		vxMu.Unlock()

	}
	return l.Addr().String()
}

func vxServe(c net.Conn) {
	vxMu.Lock()
	vxS.opens++
	max := 1 << 20
	if vxFail {
		max = 1
	}
	vxMu.Unlock()
	fmt.Fprintf(c, "INFO {\"server_id\":\"x\",\"version\":\"2.0.0\",\"go\":\"go\",\"host\":\"h\",\"port\":1,\"max_payload\":%d}\r\n", max)
	r := bufio.NewReader(c)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimRight(l, "\r\n")
		vxMu.Lock()
		switch {
		case strings.HasPrefix(l, "CONNECT "):
			var o struct{ User, Pass string }
			json.Unmarshal([]byte(l[8:]), &o)
			vxS.user, vxS.pass = o.User, o.Pass
		case l == "PING":
			c.Write([]byte("PONG\r\n"))
		case strings.HasPrefix(l, "PUB "):
			f := strings.Split(l, " ")
			n, _ := strconv.Atoi(f[len(f)-1])
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				vxMu.Unlock()
				return
			}
			vxS.pubs++
			vxS.topic = f[1]
			vxS.body = b[:n]
		default:
			vxS.other = true
		}
		vxMu.Unlock()
	}
}

func verifHooks() {
	addr := vxListen()
	vxDone = func(c *Connector) {
		c.Close()
		vxWait()
		vxMu.Lock()
		vxS.url = vxUrl
		if vxFail { // the client itself refuses the record
			vxS.pubs, vxS.topic, vxS.body = vxS.pubs+vxOne, vxTopic, vxData
		}
		vxMu.Unlock()
	}
	vrt.Gens["VC_Nats"] = func(r *vrt.Rand) []interface{} {
		bad, fail, down := r.Intn(6) == 0, r.Intn(5) == 0, r.Intn(8) == 0
		cfg := map[string]string{"servers": "nats://" + addr, "topic": "t." + string(rune('a'+r.Intn(26)))}
		if down {
			cfg["servers"] = "nats://" + vxDead
		}
		if r.Intn(2) == 0 {
			cfg["user"] = r.String()
		}
		if r.Intn(2) == 0 {
			cfg["password"] = r.String()
		}
		data := r.BytesN(2 + r.Len())
		for k, v := range cfg {
			cfg[k] = strings.ToValidUTF8(v, "?")
		}
		vxUrl, vxTopic, vxData, vxOne = cfg["servers"], cfg["topic"], data, 1
		if bad {
			vxOne = 0
		}
		if r.Intn(20) == 0 {
			cfg, down = nil, false
		}
		return []interface{}{cfg, data, bad, fail, down, false}
	}
}

var (
	vxUrl, vxTopic string
	vxData         []byte
	vxOne          int
)
