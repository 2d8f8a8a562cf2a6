//go:build verif

package redis

import (
	"bufio"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

var (
	vxMu   sync.Mutex
	vxFail bool
	vxCfg  map[string]string
	vxSeen bool
	vxPw   string
	vxDb   int
)

func vxReadCmd(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(l[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for ; n > 0; n-- {
		if l, err = r.ReadString('\n'); err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func vxServe(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	vxMu.Lock()
	vxSeen, vxPw, vxDb = true, "", 0
	vxMu.Unlock()
	for {
		a, err := vxReadCmd(r)
		if err != nil || len(a) == 0 {
			return
		}
		rep := "+OK\r\n"
		vxMu.Lock()
		switch strings.ToLower(a[0]) {
		case "auth":
			vxPw = a[len(a)-1]
		case "select":
			vxDb, _ = strconv.Atoi(a[1])
		case "publish":
			vxS.pubs++
			vxS.queue = a[1]
			vxS.body = []byte(a[2])
			rep = ":0\r\n"
			if vxFail {
				rep = []string{"-ERR no\r\n", "$-1\r\n", "*-1\r\n", "-LOADING\r\n", "-NOPERM x\r\n"}[vxHow%5]
			}
		case "hello":
			rep = "-ERR unknown command\r\n"
		case "ping":
			rep = "+PONG\r\n"
		default:
			vxS.other = true
		}
		vxMu.Unlock()
		if _, err := conn.Write([]byte(rep)); err != nil {
			return
		}
	}
}

func verifHooks() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go vxServe(c)
		}
	}()
	vxPrep = func(cfg map[string]string, fail bool) {
		vxMu.Lock()
		vxFail, vxCfg, vxSeen = fail, cfg, false
		vxMu.Unlock()
	}
	vxDone = func(c *Connector) {
		c.Close()
		vxMu.Lock()
		defer vxMu.Unlock()
		vxS.opens = 1
		vxS.addr = vxCfg["server"]
		vxS.password, vxS.db = vxPw, vxDb
		if !vxSeen {
			vxS.password = vxCfg["password"]
			vxS.db, _ = strconv.Atoi(vxCfg["db"])
			if vxS.pubs == 0 && vxWant { // nothing arrived although a record was saved
				vxS.addr = "elsewhere"
			}
		}
	}
	vrt.Gens["VC_Redis"] = func(r *vrt.Rand) []interface{} {
		cfg := map[string]string{"server": l.Addr().String(), "queue": r.String()}
		if r.Intn(2) == 0 {
			cfg["password"] = r.String()
		}
		switch r.Intn(4) {
		case 0:
			cfg["db"] = strconv.Itoa(r.Intn(16))
		case 1:
			cfg["db"] = []string{"0", "x", "", "1.5", " 3", "3 ", "0x3", "+3", "1_0", "010", "99999999999999999999", "3\n"}[r.Intn(12)]
		}
		switch r.Intn(20) {
		case 0:
			delete(cfg, "server")
		case 1:
			delete(cfg, "queue")
		case 2:
			cfg = nil
		}
		bad := r.Intn(6) == 0
		vxWant = !bad
		vxHow = r.Intn(5)
		return []interface{}{cfg, r.BytesN(r.Len()), bad, r.Intn(4) == 0}
	}
}

var (
	vxWant bool
	vxHow  int // how the server refuses
)
