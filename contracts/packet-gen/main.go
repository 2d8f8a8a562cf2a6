//go:build verif

package main

import (
	"math"
	"net"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- the statuses in the acknowledgement

type vxSubs struct {
	in  egts.RecordDataSet
	i   int
	bad bool
}

func (g *vxSubs) Independent() {}
func (g *vxSubs) NoPrecheck()  {}
func (g *vxSubs) More() bool   { return g.i < len(g.in) && !g.bad }
func (g *vxSubs) refused() bool {
	if g.in[g.i].SubrecordType != 0 {
		return false
	}
	x, ok := g.in[g.i].SubrecordData.(*egts.SrResponse)
	return ok && x.RecordStatus != 0
}
func (g *vxSubs) Step() {
	if g.refused() {
		g.bad = true
		return
	}
	g.i++
}

type vxRecs struct {
	in   egts.ServiceDataSet
	i    int
	subs *vxSubs
	bad  bool
}

func (g *vxRecs) Independent() {}
func (g *vxRecs) NoPrecheck()  {}
func (g *vxRecs) More() bool   { return g.i < len(g.in) && !g.bad }
func (g *vxRecs) Begin() {
	if g.subs != nil {
		return
	}
	g.subs = &vxSubs{in: g.in[g.i].RecordDataSet}
	vrt.Loop("gen.subs", g.subs)
}
func (g *vxRecs) Step() {
	g.Begin()
	vrt.Finish(g.subs)
	g.bad = g.subs.bad
	g.subs = nil
	if !g.bad {
		g.i++
	}
}

// refused: the status the program is looking at is not success
func (g *vxRecs) refused() bool {
	return g.bad || g.subs != nil && (g.subs.bad || g.subs.i < len(g.subs.in) && g.subs.refused())
}

// ---- what the program is given and what it does with it

type vxGen struct {
	pid, oid, liquid, timeout int
	lat, lon                  float64
	ts, server                string
	when                      time.Time
	badTime                   bool
	answers                   bool // the packet itself is of no interest here
	noCode                    bool // it cannot be encoded
	noAddr, noConn, noWrite   bool
	in                        []byte // what the server sends

	ppid, poid, pliquid, ptimeout *int
	plat, plon                    *float64
	pts, pserver                  *string
	parsed                        bool
	resolved                      int
	dials                         int
	writes                        int
	deadline                      bool
	pos                           int // bytes read
	short                         bool
	recs                          *vxRecs
}

var (
	vxG  *vxGen
	vxT0 = time.Unix(1700000000, 0)
)

func vxIntVar(p *int, name string, value int, usage string) {
	g := vxG
	*p = value
	if name == "pid" {
		g.ppid = p
	} else if name == "oid" {
		g.poid = p
	} else if name == "liquid" {
		g.pliquid = p
	} else if name == "timeout" {
		vrt.Ensures("gen.flags", value == 5)
		g.ptimeout = p
	}
}

func vxFloatVar(p *float64, name string, value float64, usage string) {
	*p = value
	if name == "lat" {
		vxG.plat = p
	} else if name == "lon" {
		vxG.plon = p
	}
}

func vxStringVar(p *string, name, value, usage string) {
	*p = value
	if name == "time" {
		vxG.pts = p
	} else if name == "server" {
		vrt.Ensures("gen.flags", value == "localhost:5555")
		vxG.pserver = p
	}
}

func vxParse() {
	g := vxG
	vrt.Ensures("gen.flags", !g.parsed && g.ppid != nil && g.poid != nil && g.pliquid != nil && g.ptimeout != nil && g.plat != nil && g.plon != nil &&
		g.pts != nil && g.pserver != nil)
	g.parsed = true
	*g.ppid, *g.poid, *g.pliquid, *g.ptimeout = g.pid, g.oid, g.liquid, g.timeout
	*g.plat, *g.plon = g.lat, g.lon
	*g.pts, *g.pserver = g.ts, g.server
}

func vxTimeParse(layout, value string) (time.Time, error) {
	g := vxG
	vrt.Ensures("gen.time", layout == time.RFC3339 && value == g.ts)
	if g.badTime {
		return time.Time{}, vrt.Err("err", 1)
	}
	return g.when, nil
}

func vxNow() time.Time { return vxT0 }

func vxResolve(network, addr string) (*net.TCPAddr, error) {
	g := vxG
	vrt.Ensures("gen.server", network == "tcp" && addr == g.server)
	g.resolved++
	if g.noAddr {
		return nil, vrt.Err("err", 2)
	}
	return &net.TCPAddr{Port: 7}, nil
}

func vxDialTCP(network string, laddr, raddr *net.TCPAddr) (*net.TCPConn, error) {
	g := vxG
	vrt.Ensures("gen.server", network == "tcp" && laddr == nil && raddr != nil && raddr.Port == 7 && g.resolved == 1 && g.dials == 0)
	g.dials++
	if g.noConn {
		return nil, vrt.Err("err", 3)
	}
	return &net.TCPConn{}, nil
}

func vxDial(network, addr string) (net.Conn, error) {
	g := vxG
	vrt.Ensures("gen.server", network == "tcp" && addr == g.server && g.dials == 0)
	g.dials++
	if g.noAddr || g.noConn {
		return nil, vrt.Err("err", 4)
	}
	return &net.TCPConn{}, nil
}

func vxDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return vxDial(network, addr)
}

// valid: the options can be sent in a packet
func (g *vxGen) valid() bool {
	sec := g.when.Unix() - 1262304000
	return g.pid > 0 && g.pid <= math.MaxUint16 && g.oid > 0 && int64(g.oid) <= math.MaxUint32 && g.liquid >= 0 && int64(g.liquid) <= math.MaxUint32 &&
		g.lat >= -90 && g.lat <= 90 && g.lon >= -180 && g.lon <= 180 && g.ts != "" && !g.badTime && sec >= 0 && sec <= math.MaxUint32
}

func vxSigned(v float64, neg string) float64 {
	if neg == "1" {
		return -v
	}
	return v
}

// sent checks the packet that goes to the server
func (g *vxGen) sent(b []byte) {
	vrt.Concrete("(*egts.Package).Decode")
	var p egts.Package
	code, err := p.Decode(b)
	vrt.Abstract("(*egts.Package).Decode")
	vrt.Ensures("gen.packet", err == nil && code == 0 && p.PacketType == 1)
	vrt.Ensures("gen.pid", int(p.PacketIdentifier) == g.pid)
	list, ok := p.ServicesFrameData.(*egts.ServiceDataSet)
	vrt.Ensures("gen.packet", ok && len(*list) == 1)
	if !ok || len(*list) != 1 {
		return
	}
	rec := (*list)[0]
	vrt.Ensures("gen.oid", rec.ObjectIDFieldExists == "1" && int64(rec.ObjectIdentifier) == int64(g.oid))
	vrt.Ensures("gen.packet", len(rec.RecordDataSet) == 2)
	if len(rec.RecordDataSet) != 2 {
		return
	}
	pos, ok := rec.RecordDataSet[0].SubrecordData.(*egts.SrPosData)
	vrt.Ensures("gen.packet", ok)
	if ok {
		vrt.Ensures("gen.time", pos.NavigationTime.Unix() == g.when.Unix())
		vrt.Ensures("gen.coord", vrt.Near(vxSigned(pos.Latitude, pos.LAHS), g.lat, 4.3e-8))
		vrt.Ensures("gen.coord", vrt.Near(vxSigned(pos.Longitude, pos.LOHS), g.lon, 8.5e-8))
	}
	liq, ok := rec.RecordDataSet[1].SubrecordData.(*egts.SrLiquidLevelSensor)
	vrt.Ensures("gen.packet", ok)
	if ok {
		vrt.Ensures("gen.liquid", int64(liq.LiquidLevelSensorData) == int64(g.liquid) && liq.LiquidLevelSensorNumber == 1 && liq.LiquidLevelSensorValueUnit == "00")
	}
}

func vxWrite(c interface{}, b []byte) (int, error) {
	g := vxG
	vrt.Ensures("gen.once", g.dials == 1 && !g.noConn && g.writes == 0)
	g.writes++
	vrt.Ensures("gen.valid", g.valid())
	if !g.answers {
		g.sent(b)
		vrt.Requires(false) // the rest is the matter of VC_packetgen_answer
	}
	if g.noWrite {
		return 0, vrt.Err("err", 5)
	}
	return len(b), nil
}

func vxDeadline(c interface{}, t time.Time) error {
	g := vxG
	vrt.Ensures("gen.wait", t.Equal(vxT0.Add(time.Duration(g.timeout)*time.Second)))
	g.deadline = true
	return nil
}

func vxClose(c interface{}) error { return nil }

// vxRead delivers any part of what has arrived
func vxRead(c interface{}, b []byte) (int, error) {
	g := vxG
	vrt.Ensures("gen.wait", g.writes == 1)
	vrt.Ensures("gen.wait", g.deadline)
	n := vrt.Int("segment", g.pos)
	vrt.Requires(n > 0 && n <= len(b) || len(b) == 0 && n == 0)
	if n > len(g.in)-g.pos {
		g.short = true
		return 0, vrt.Err("err", 6)
	}
	copy(b, vrt.Sub(g.in, g.pos, n))
	g.pos += n
	return n, nil
}

func vxReadFull(c *net.TCPConn, b []byte) (int, error) {
	g := vxG
	vrt.Ensures("gen.wait", g.writes == 1)
	vrt.Ensures("gen.wait", g.deadline)
	if len(b) > len(g.in)-g.pos {
		g.short = true
		return 0, vrt.Err("err", 7)
	}
	copy(b, vrt.Sub(g.in, g.pos, len(b)))
	g.pos += len(b)
	return len(b), nil
}

// frame is the length of the packet the server answers with (0: none)
func (g *vxGen) frame() int {
	if len(g.in) < 10 {
		return 0
	}
	n := int(g.in[3])
	fdl := int(g.in[5]) | int(g.in[6])<<8
	if fdl > 0 {
		n += fdl + 2
	}
	if n < 10 || len(g.in) < n {
		return 0
	}
	return n
}

// accepted: the answer confirms the packet, up to the statuses of the records
func (g *vxGen) answer() *egts.PtResponse {
	n := g.frame()
	if n == 0 {
		return nil
	}
	var p egts.Package
	_, err := p.Decode(vrt.Sub(g.in, 0, n))
	if err != nil {
		return nil
	}
	x, ok := p.ServicesFrameData.(*egts.PtResponse)
	if !ok || int(x.ResponsePacketID) != g.pid || x.ProcessingResult != 0 {
		return nil
	}
	return x
}

func (g *vxGen) records() *egts.ServiceDataSet {
	x := g.answer()
	if x == nil {
		return nil
	}
	s, ok := x.SDR.(*egts.ServiceDataSet)
	if !ok {
		return nil
	}
	return s
}

func vxEncode(p *egts.Package) ([]byte, error) {
	if vxG.noCode {
		return nil, vrt.Err("err", 8)
	}
	return []byte{1}, nil
}

func vxExit(code int) {
	g := vxG
	if code == 0 {
		vxDone()
	} else {
		bad := !g.valid() || g.answers && g.noCode || g.noAddr || g.noConn || g.noWrite || g.records() == nil || g.recs.refused()
		vrt.Ensures("gen.success", bad)
	}
	vrt.Requires(false)
}

func vxDone() {
	g := vxG
	vrt.Ensures("gen.failure", g.writes == 1 && g.answers && !g.noWrite && g.records() != nil)
	vrt.Finish(g.recs)
	vrt.Ensures("gen.failure", !g.recs.bad)
}

func vxReplace() {
	vrt.Replace("flag.IntVar", vxIntVar)
	vrt.Replace("flag.Float64Var", vxFloatVar)
	vrt.Replace("flag.StringVar", vxStringVar)
	vrt.Replace("flag.Parse", vxParse)
	vrt.Replace("time.Parse", vxTimeParse)
	vrt.Replace("time.Now", vxNow)
	vrt.Replace("os.Exit", vxExit)
	vrt.Replace("net.ResolveTCPAddr", vxResolve)
	vrt.Replace("net.DialTCP", vxDialTCP)
	vrt.Replace("net.Dial", vxDial)
	vrt.Replace("net.DialTimeout", vxDialTimeout)
	vrt.Replace("(*net.conn).Write", vxWrite)
	vrt.Replace("(*net.conn).Read", vxRead)
	vrt.Replace("(*net.conn).Close", vxClose)
	vrt.Replace("(*net.conn).SetReadDeadline", vxDeadline)
	vrt.Replace("(*net.conn).SetDeadline", vxDeadline)
	vrt.Replace("(*net.TCPConn).VrtReadFull", vxReadFull)
	vrt.Pure("egts.crc8 egts.crc16")
	vrt.Abstract("(*egts.Package).Decode")
	vrt.Safety("gen.safe")
}

// the packet that is sent (and whether it is)
func VC_packetgen_packet(pid, oid, liquid, timeout int, lat, lon float64, ts, server string, sec uint32, badTime, noAddr, noConn bool) {
	if !vrt.Symbolic() {
		vxMainNative(&vxGen{pid: pid, oid: oid, liquid: liquid, timeout: timeout, lat: lat, lon: lon, when: time.Unix(1262304000+int64(sec), 0), badTime: badTime, noConn: noConn})
		return
	}
	vxReplace()
	vxG = &vxGen{pid: pid, oid: oid, liquid: liquid, timeout: timeout, lat: lat, lon: lon, ts: ts, server: server, when: time.Unix(1262304000+int64(sec), 0),
		badTime: badTime, noAddr: noAddr, noConn: noConn, recs: &vxRecs{}}
	main()
	vrt.Ensures("gen.once", false)
}

// a time that the packet cannot hold
func VC_packetgen_time(pid, oid, liquid, timeout int, lat, lon float64, ts, server string, sec uint32, late bool) {
	if !vrt.Symbolic() {
		when := time.Unix(1262304000-1-int64(sec), 0)
		if late {
			when = time.Unix(1262304000+1<<32+int64(sec), 0)
		}
		vxMainNative(&vxGen{pid: pid, oid: oid, liquid: liquid, timeout: timeout, lat: lat, lon: lon, when: when})
		return
	}
	vxReplace()
	when := time.Unix(1262304000-1-int64(sec), 0)
	if late {
		when = time.Unix(1262304000+1<<32+int64(sec), 0)
	}
	vxG = &vxGen{pid: pid, oid: oid, liquid: liquid, timeout: timeout, lat: lat, lon: lon, ts: ts, server: server, when: when, answers: true, recs: &vxRecs{}}
	vrt.Replace("(*egts.Package).Encode", vxEncode)
	main()
	vrt.Ensures("gen.valid", false)
}

// what is made of the answer
func VC_packetgen_answer(pid, oid, timeout int, server string, noCode, noAddr, noConn, noWrite bool, in []byte) {
	if !vrt.Symbolic() {
		vxMainNative(&vxGen{pid: pid, oid: oid, timeout: timeout, when: time.Unix(1577836800, 0), answers: true, noConn: noConn, noWrite: noWrite, in: in})
		return
	}
	vxReplace()
	vrt.Replace("(*egts.Package).Encode", vxEncode)
	g := &vxGen{pid: pid, oid: oid, timeout: timeout, ts: "2020-01-01T00:00:00Z", server: server, when: time.Unix(1577836800, 0), answers: true,
		noCode: noCode, noAddr: noAddr, noConn: noConn, noWrite: noWrite, in: in}
	vxG = g
	var list egts.ServiceDataSet
	if l := g.records(); l != nil {
		list = *l
	}
	g.recs = &vxRecs{in: list}
	vrt.Loop("gen.recs", g.recs)
	main()
	vxDone()
	vrt.Cover("gen.ok", true)
}

// natively the program runs in a process of its own
var vxMainNative = func(g *vxGen) {}
