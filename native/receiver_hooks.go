//go:build verif

package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	"github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the program itself, in a process of its own
func TestVerifMain(t *testing.T) {
	a := os.Getenv("VX_MAIN")
	if a == "" {
		return
	}
	flag.CommandLine = flag.NewFlagSet("receiver", flag.ExitOnError)
	os.Args = append([]string{"receiver"}, strings.Split(a, "\n")[1:]...)
	main()
	os.Exit(0)
}

type vxPub struct{ topic, body string }

var (
	vxMu   sync.Mutex
	vxPubs []vxPub
)

func vxRedis(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	line := func() (int, bool) {
		l, err := r.ReadString('\n')
		if err != nil || len(l) < 2 {
			return 0, false
		}
		n, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		return n, err == nil
	}
	for {
		n, ok := line()
		if !ok {
			return
		}
		var a []string
		for ; n > 0; n-- {
			k, ok := line()
			if !ok {
				return
			}
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			a = append(a, string(b[:k]))
		}
		rep := "+OK\r\n"
		if len(a) == 3 && strings.ToLower(a[0]) == "publish" {
			vxMu.Lock()
			vxPubs = append(vxPubs, vxPub{a[1], a[2]})
			vxMu.Unlock()
			rep = ":0\r\n"
		}
		conn.Write([]byte(rep))
	}
}

type vxBuf struct {
	sync.Mutex
	b bytes.Buffer
}

func (b *vxBuf) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	return b.b.Write(p)
}

func (b *vxBuf) has(s string) bool {
	for i := 0; i < 100; i++ {
		b.Lock()
		ok := strings.Contains(b.b.String(), s)
		b.Unlock()
		if ok {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

func vxPacket(oid uint32) []byte {
	p := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "10",
		HeaderLength: 11, PacketIdentifier: 7, PacketType: 1,
		ServicesFrameData: &egts.ServiceDataSet{{RecordNumber: 1, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0",
			RecordProcessingPriority: "10", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "1", ObjectIdentifier: oid,
			SourceServiceType: 2, RecipientServiceType: 2, RecordDataSet: egts.RecordDataSet{{SubrecordType: 16,
				SubrecordData: &egts.SrPosData{NavigationTime: time.Unix(1600000000, 0), Latitude: 10, Longitude: 20, ALTE: "0", LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "1", VLD: "1"}}}}}}
	b, err := p.Encode()
	if err != nil {
		panic(err)
	}
	return b
}

func verifHooks() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go vxRedis(c)
		}
	}()
	oid := uint32(100000000)
	vxMainNative = func(path string, cfg config.Settings, badFile, badStore bool) {
		vrt.Safety("main.safe")
		vxMu.Lock()
		vxPubs = nil
		vxMu.Unlock()
		oid++
		free, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		_, port, _ := net.SplitHostPort(free.Addr().String())
		free.Close()
		text := fmt.Sprintf("host: \"127.0.0.1\"\nport: \"%s\"\nconn_ttl: %d\nlog_level: %q\n", port, cfg.ConnTTl, cfg.LogLevel)
		if badStore {
			text += "storage:\n" + []string{"", "  unknown:\n    a: \"b\"\n", "  redis:\n    server: \"127.0.0.1:1\"\n", "  nsq:\n", "  nats:\n    servers: \"127.0.0.1:1\"\n    topic: \"x\"\n"}[len(cfg.Host)%5]
		} else {
			text += fmt.Sprintf("storage:\n  redis:\n    server: %q\n    queue: \"q%d\"\n", l.Addr().String(), oid)
		}
		file := os.Getenv("HOME") + "/receiver.yaml"
		if badFile {
			text = "host: [\n"
		}
		if os.WriteFile(file, []byte(text), 0600) != nil {
			return
		}
		args := "-c\n" + file
		if path == "" {
			args = ""
		}
		cmd := exec.Command(os.Args[0], "-test.run", "TestVerifMain$")
		cmd.Env = append(os.Environ(), "VX_MAIN=x\n"+args)
		out := &vxBuf{}
		cmd.Stdout, cmd.Stderr = out, out
		if cmd.Start() != nil {
			return
		}
		done := make(chan bool)
		go func() {
			cmd.Wait()
			close(done)
		}()
		defer func() {
			cmd.Process.Kill()
			<-done
		}()
		var c net.Conn
		for i := 0; c == nil; i++ {
			select {
			case <-done:
				vrt.Ensures("main.end", path == "" || badFile)
				vrt.Ensures("main.safe", !out.has("panic: "))
				return
			default:
			}
			c, err = net.Dial("tcp", "127.0.0.1:"+port)
			if i == 2000 {
				vrt.Ensures("main.server", false)
				vrt.Ensures("main.run", false)
				return
			}
			if err != nil {
				c = nil
				time.Sleep(2 * time.Millisecond)
			}
		}
		defer c.Close()
		vrt.Ensures("main.config", path != "" && !badFile)
		c.SetDeadline(time.Now().Add(5 * time.Second))
		begin := time.Now()
		c.Write(vxPacket(oid))
		b := make([]byte, 1000)
		n, err := c.Read(b)
		vrt.Ensures("main.server", err == nil && n > 10)
		if badStore {
			quiet := cfg.LogLevel == "WARN" || cfg.LogLevel == "ERROR"
			if !quiet {
				vrt.Ensures("main.fallback", out.has(fmt.Sprint(oid)))
				vrt.Ensures("main.level", true)
			} else {
				vrt.Ensures("main.level", !strings.Contains(out.b.String(), "level=info"))
			}
		} else {
			vxMu.Lock()
			vrt.Ensures("main.stores", len(vxPubs) == 1 && vxPubs[0].topic == fmt.Sprintf("q%d", oid) && strings.Contains(vxPubs[0].body, fmt.Sprint(oid)))
			vxMu.Unlock()
			if cfg.LogLevel == "DEBUG" {
				vrt.Ensures("main.level", out.has("level=debug"))
			} else {
				out.Lock()
				vrt.Ensures("main.level", !strings.Contains(out.b.String(), "level=debug"))
				out.Unlock()
			}
		}
		if cfg.ConnTTl == 1 && len(cfg.Host) == 0 {
			_, err = c.Read(b)
			d := time.Since(begin)
			vrt.Ensures("main.server", err == io.EOF && d > 900*time.Millisecond && d < 4*time.Second)
		}
	}
	vrt.Gens["VC_receiver_main"] = func(r *vrt.Rand) []interface{} {
		cfg := config.Settings{Host: strings.Repeat("x", r.Intn(6)), ConnTTl: []int{1, 5, 0, 300}[r.Intn(4)], LogLevel: []string{"DEBUG", "INFO", "WARN", "ERROR", "x"}[r.Intn(5)]}
		path := "x"
		if r.Intn(10) == 0 {
			path = ""
		}
		return []interface{}{path, cfg, r.Intn(10) == 0, r.Intn(3) == 0}
	}
}
