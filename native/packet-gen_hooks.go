//go:build verif

package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// the program itself, in a process of its own
func TestVerifMain(t *testing.T) {
	a := os.Getenv("VX_MAIN")
	if a == "" {
		return
	}
	flag.CommandLine = flag.NewFlagSet("packet-gen", flag.ExitOnError)
	os.Args = append([]string{"packet-gen"}, strings.Split(a, "\n")[1:]...)
	main()
	os.Exit(0)
}

// vxAck builds an answer
func vxAck(pid, pidOf uint16, code uint8, status []byte, typ byte) []byte {
	return vxAckOf(pid, pidOf, code, status, typ, func(n int) int { return 0 })
}

// pick(n) chooses what does not matter
func vxAckOf(pid, pidOf uint16, code uint8, status []byte, typ byte, pick func(n int) int) []byte {
	p := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "10", HeaderLength: 11, PacketIdentifier: pidOf, PacketType: typ}
	var recs egts.ServiceDataSet
	bit := func() string { return []string{"0", "1"}[pick(2)] }
	rec := func(subs egts.RecordDataSet) {
		recs = append(recs, egts.ServiceDataRecord{RecordNumber: uint16(len(recs) + pick(5)), SourceServiceOnDevice: bit(), RecipientServiceOnDevice: bit(), Group: bit(),
			RecordProcessingPriority: []string{"10", "00", "01"}[pick(3)], TimeFieldExists: bit(), EventIDFieldExists: bit(), ObjectIDFieldExists: bit(),
			ObjectIdentifier: uint32(pick(100)), EventIdentifier: uint32(pick(100)), Time: uint32(pick(100)),
			SourceServiceType: []byte{2, 1, 4, 0, 9, 255}[pick(6)], RecipientServiceType: []byte{2, 1, 4, 0, 255}[pick(5)], RecordDataSet: subs})
	}
	var subs egts.RecordDataSet
	for i, s := range status {
		subs = append(subs, egts.RecordData{SubrecordType: 0, SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: uint16(i + pick(3)), RecordStatus: s}})
		if i%3 == 1 || pick(4) == 3 {
			rec(subs)
			subs = nil
		}
	}
	if len(subs) > 0 {
		rec(subs)
	}
	if typ == 1 {
		p.ServicesFrameData = &recs
	} else {
		r := &egts.PtResponse{ResponsePacketID: pid, ProcessingResult: code}
		if len(recs) > 0 {
			r.SDR = &recs
		}
		p.ServicesFrameData = r
	}
	b, err := p.Encode()
	if err != nil {
		return nil
	}
	return b
}

// good: the answer confirms everything
func (g *vxGen) good() bool {
	l := g.records()
	if l == nil {
		return false
	}
	for _, r := range *l {
		for _, s := range r.RecordDataSet {
			if x, ok := s.SubrecordData.(*egts.SrResponse); ok && s.SubrecordType == 0 && x.RecordStatus != 0 {
				return false
			}
		}
	}
	return true
}

func verifHooks() {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	_ = null
	vxMainNative = func(g *vxGen) {
		vrt.Safety("gen.safe")
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		defer l.Close()
		addr := l.Addr().String()
		if g.noConn && !g.answers {
			addr = "127.0.0.1:1"
		}
		g.ts = g.when.In(time.FixedZone("", []int{0, 3 * 3600, -(5*3600 + 1800), 12 * 3600, -11 * 3600}[g.when.Second()%5])).Format(time.RFC3339)
		if g.badTime {
			g.ts = "yesterday"
		}
		if g.when.Year() < 2 || g.when.Year() > 9998 {
			return
		}
		if g.timeout < 0 || g.timeout > 9 {
			g.timeout = 5
		}
		if math.IsNaN(g.lat) || math.IsNaN(g.lon) {
			return
		}
		args := fmt.Sprintf("x\n-pid\n%d\n-oid\n%d\n-liquid\n%d\n-lat\n%v\n-lon\n%v\n-time\n%s\n-server\n%s", g.pid, g.oid, g.liquid, g.lat, g.lon, g.ts, addr)
		if g.timeout != 5 || len(g.in)%2 == 0 {
			args += fmt.Sprintf("\n-timeout\n%d", g.timeout)
		}
		in := g.in
		if !g.answers {
			in = vxAck(uint16(g.pid), 1, 0, []byte{0}, 0)
		}
		got := make(chan []byte, 1)
		gone := make(chan bool)
		silent := g.answers && len(in) == 0 && g.timeout <= 2
		go func() {
			defer close(gone)
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			h := make([]byte, 10)
			if _, err := io.ReadFull(c, h); err != nil {
				got <- nil
				return
			}
			b := make([]byte, int(h[3])+int(h[5])+int(h[6])<<8+2-10)
			if _, err := io.ReadFull(c, b); err != nil {
				got <- nil
				return
			}
			got <- append(h, b...)
			if g.noConn && g.answers && len(in) > 0 { // in two segments
				c.Write(in[:len(in)/2])
				time.Sleep(20 * time.Millisecond)
				c.Write(in[len(in)/2:])
			} else {
				c.Write(in)
			}
			if silent {
				io.Copy(io.Discard, c)
			} else if g.good() || !g.answers {
				c.Read(h)
			}
		}()
		cmd := exec.Command(os.Args[0], "-test.run", "TestVerifMain$")
		cmd.Env = append(os.Environ(), "VX_MAIN="+args)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		begin := time.Now()
		err = cmd.Run()
		took := time.Since(begin)
		l.Close()
		<-gone
		vrt.Ensures("gen.safe", !strings.Contains(out.String(), "goroutine "))
		ok := err == nil
		vrt.Ensures("gen.valid", !ok || g.valid())
		if silent && g.valid() {
			vrt.Ensures("gen.wait", !ok && took > time.Duration(g.timeout)*time.Second-100*time.Millisecond && took < time.Duration(g.timeout+3)*time.Second)
			return
		}
		select {
		case b := <-got:
			vrt.Ensures("gen.valid", g.valid())
			vrt.Ensures("gen.packet", b != nil)
			if b != nil {
				g.sent(b)
			}
		default:
			vrt.Ensures("gen.once", !g.valid() || g.noConn && !g.answers)
			vrt.Ensures("gen.server", !g.valid() || g.noConn && !g.answers)
			return
		}
		want := !g.answers || g.good()
		vrt.Ensures("gen.failure", !ok || want)
		vrt.Ensures("gen.success", ok || !want)
	}
	num := func(r *vrt.Rand) int {
		switch r.Intn(12) {
		case 0:
			return -r.Intn(100000)
		case 1:
			return 1<<32 + r.Intn(3) - 1
		case 2:
			return 65536 + r.Intn(3) - 1
		}
		return 1 + r.Intn(65535)
	}
	coord := func(r *vrt.Rand, m float64) float64 {
		x := float64(r.Intn(2000001)-1000000) / 1000000 * m
		if r.Intn(15) == 0 {
			x *= 1.5
		}
		return x
	}
	pid := func(r *vrt.Rand) int {
		if r.Intn(12) == 0 {
			return num(r)
		}
		return 1 + r.Intn(65535)
	}
	vrt.Gens["VC_packetgen_packet"] = func(r *vrt.Rand) []interface{} {
		return []interface{}{pid(r), num(r), num(r), 5, coord(r, 90), coord(r, 180), "", "", uint32(r.Bits(32)), r.Intn(20) == 0, false, r.Intn(20) == 0}
	}
	vrt.Gens["VC_packetgen_time"] = func(r *vrt.Rand) []interface{} {
		return []interface{}{pid(r), num(r), num(r), 5, coord(r, 90), coord(r, 180), "", "", uint32(r.Bits(32)), r.Intn(2) == 0}
	}
	vrt.Gens["VC_packetgen_answer"] = func(r *vrt.Rand) []interface{} {
		p := 1 + r.Intn(65535)
		ack := uint16(p)
		code, typ := uint8(0), byte(0)
		status := make([]byte, 1+r.Intn(7))
		switch r.Intn(9) {
		case 0:
			ack += uint16(1 + r.Intn(300))
		case 1:
			code = r.Byte()
		case 2:
			status = nil
		case 3, 4:
			status[r.Intn(len(status))] = r.Byte()
		case 5:
			typ = 1
		}
		in := vxAckOf(ack, uint16(r.Bits(16)), code, status, typ, r.Intn)
		t := 5
		switch r.Intn(12) {
		case 0:
			in = in[:r.Intn(len(in)+1)]
		case 1:
			in[r.Intn(len(in))] ^= 1 << uint(r.Intn(8))
		case 2:
			in = append(in, r.BytesN(r.Intn(20))...)
		case 3:
			if r.Intn(8) == 0 {
				in = nil
				t = r.Intn(2) + 1
			}
		}
		return []interface{}{p, 1 + r.Intn(1000), t, "", false, false, r.Intn(3) == 0, false, in}
	}
}
