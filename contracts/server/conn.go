//go:build verif

package server

import (
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- what has to come out of the subrecords of one record

type vxSubs struct {
	in    egts.RecordDataSet
	i     int
	nav   storage.NavRecord
	found bool // a position was seen
	skip  bool // the packet is an acknowledgement: nothing to do
	w0    byte
	w1    byte
	w2    byte
	w3    byte
	rc    []byte
	code  []byte // a result code has to be sent
}

func (g *vxSubs) Independent() {}
func (g *vxSubs) More() bool   { return g.i < len(g.in) && !g.skip }
func (g *vxSubs) sensor(flag string, n uint8, v uint32) {
	if flag == "1" {
		g.nav.AnSensors = append(g.nav.AnSensors, storage.AnSensor{SensorNumber: n, Value: v})
	}
}
func (g *vxSubs) word() {
	g.nav.PacketID = uint32(g.w0) | uint32(g.w1)<<8 | uint32(g.w2)<<16 | uint32(g.w3)<<24
}
func (g *vxSubs) Step() {
	switch x := g.in[g.i].SubrecordData.(type) {
	case *egts.SrAuthInfo:
		g.code = g.rc
	case *egts.SrResponse:
		g.skip = true
		return
	case *egts.SrTermIdentity:
		g.code = g.rc
		g.nav.IMEI = x.IMEI
	case *egts.SrPosData:
		g.found = true
		g.nav.NavigationTimestamp = x.NavigationTime.Unix()
		g.nav.LocStates = append(g.nav.LocStates, storage.LocState{Latitude: vxSigned(x.Latitude, x.LAHS), Longitude: vxSigned(x.Longitude, x.LOHS), Speed: x.Speed,
			NavigationDt: x.NavigationTime.Format(time.RFC3339)})
		g.nav.LocStatesCount++
	case *egts.SrAdSensorsData:
		g.sensor(x.AnalogSensorFieldExists1, 1, x.AnalogSensor1)
		g.sensor(x.AnalogSensorFieldExists2, 2, x.AnalogSensor2)
		g.sensor(x.AnalogSensorFieldExists3, 3, x.AnalogSensor3)
		g.sensor(x.AnalogSensorFieldExists4, 4, x.AnalogSensor4)
		g.sensor(x.AnalogSensorFieldExists5, 5, x.AnalogSensor5)
		g.sensor(x.AnalogSensorFieldExists6, 6, x.AnalogSensor6)
		g.sensor(x.AnalogSensorFieldExists7, 7, x.AnalogSensor7)
		g.sensor(x.AnalogSensorFieldExists8, 8, x.AnalogSensor8)
	case *egts.SrAbsAnSensData:
		g.nav.AnSensors = append(g.nav.AnSensors, storage.AnSensor{SensorNumber: x.SensorNumber, Value: x.Value})
	case *egts.SrAbsCntrData:
		if x.CounterNumber == 110 {
			v := x.CounterValue
			g.w0, g.w1, g.w2, g.w3 = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
			g.word()
		}
		if x.CounterNumber == 111 {
			g.w3 = byte(x.CounterValue)
			g.word()
		}
	case *egts.SrLiquidLevelSensor:
		l := storage.LiquidSensor{SensorNumber: x.LiquidLevelSensorNumber, ModuleNumber: x.ModuleAddress,
			ErrorFlag: x.LiquidLevelSensorErrorFlag, ValueUnit: x.LiquidLevelSensorValueUnit}
		if x.LiquidLevelSensorValueUnit == "00" || x.LiquidLevelSensorValueUnit == "01" {
			l.ValueMm = x.LiquidLevelSensorData
		}
		if x.LiquidLevelSensorValueUnit == "10" {
			l.ValueL = float64(x.LiquidLevelSensorData) / 10
		}
		g.nav.LiquidSensors = append(g.nav.LiquidSensors, l)
	}
	g.i++
}

// ---- the records of one packet

type vxRecs struct {
	in    egts.ServiceDataSet
	i     int
	nav   storage.NavRecord
	found bool
	skip  bool
	resp  egts.RecordDataSet
	svc   uint8
	rc    []byte
	code  []byte
	subs  *vxSubs
}

func (g *vxRecs) Independent() {}
func (g *vxRecs) More() bool   { return g.i < len(g.in) && !g.skip }
func (g *vxRecs) NoPrecheck()  {}
func (g *vxRecs) Begin() {
	if g.subs != nil {
		return
	}
	g.nav.ClientID = g.in[g.i].ObjectIdentifier
	g.subs = &vxSubs{in: g.in[g.i].RecordDataSet, nav: g.nav, found: g.found, rc: g.rc, code: g.code}
	vrt.Loop("srv.subs", g.subs)
}
func (g *vxRecs) Step() {
	rec := g.in[g.i]
	vrt.Finish(g.subs)
	g.nav, g.found, g.code, g.skip = g.subs.nav, g.subs.found, g.subs.code, g.subs.skip
	g.subs = nil
	if g.skip {
		return
	}
	g.resp = append(g.resp, egts.RecordData{SubrecordType: 0, SubrecordLength: 3,
		SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: rec.RecordNumber, RecordStatus: 0}})
	g.svc = rec.SourceServiceType
	g.i++
}

// ---- the packets of one connection

type vxPackets struct {
	in     []byte
	pos    int
	server string
	w      *vxWorld
	c      *vxConn
	ev     []vxEvent
	saves  int
	begun  bool
	p      egts.Package
	n      int
	code   uint8
	err    error
	recs   *vxRecs
	rc     []byte
}

// frame is the length of the packet that starts at pos (0: none does, the connection ends)
func (g *vxPackets) frame() int {
	if len(g.in)-g.pos < 10 {
		return 0
	}
	if g.in[g.pos] != 1 || g.in[g.pos+3] < 10 {
		return 0
	}
	n := int(g.in[g.pos+3])
	fdl := int(g.in[g.pos+5]) | int(g.in[g.pos+6])<<8
	if fdl > 0 {
		n += fdl + 2
	}
	if len(g.in)-g.pos < n {
		return 0
	}
	return n
}

func (g *vxPackets) Independent() {}
func (g *vxPackets) More() bool   { return g.frame() > 0 }
func (g *vxPackets) NoPrecheck()  {}
func (g *vxPackets) Begin() {
	if g.begun {
		return
	}
	g.begun = true
	g.n = g.frame()
	g.p = egts.Package{}
	g.code, g.err = g.p.Decode(vrt.Sub(g.in, g.pos, g.n))
	g.rc, _ = vxSrResultCode(g.p.PacketIdentifier, 0)
	var list egts.ServiceDataSet
	vrt.Contract("pkg.dec.code0", (g.err == nil) == (g.code == 0))
	if g.err == nil {
		vrt.Contract("pkg.dec.type", g.p.PacketType <= 1)
		x, ok := g.p.ServicesFrameData.(*egts.ServiceDataSet)
		vrt.Contract("pkg.dec.body.values", g.p.PacketType != 1 || ok)
		if g.p.PacketType == 1 {
			list = *x
		}
	}
	g.recs = &vxRecs{in: list, rc: g.rc, nav: storage.NavRecord{ServerID: g.server, PacketID: uint32(g.p.PacketIdentifier)}}
	vrt.Loop("srv.recs", g.recs)
}

func (g *vxPackets) send(name string, b []byte) {
	if !vrt.Symbolic() {
		g.ev = append(g.ev, vxEvent{Kind: vxWrite, Name: name, Data: b})
	}
}

func (g *vxPackets) Step() {
	g.Begin()
	save, n := g.step()
	if vrt.Symbolic() {
		w := g.w
		vrt.Ensures("srv.saved", w.saved == save)
		if g.err != nil {
			vrt.Ensures("srv.nacked", n == 0 || w.sent > 0)
		} else {
			vrt.Ensures("srv.answered", n == 0 || w.sent > 0)
			vrt.Ensures("srv.coded", w.sent == 0 || w.sent == n)
		}
		w.sent, w.saved, w.fail = 0, false, false
		g.c.armed = false
	}
	g.pos += g.n
	g.p, g.n, g.code, g.err, g.recs, g.rc, g.begun = egts.Package{}, 0, 0, nil, nil, nil, false
}

// step says whether the packet is to be saved and how many packets are sent in answer
func (g *vxPackets) step() (bool, int) {
	if g.err != nil {
		b, err := vxPtResponse(g.p.PacketIdentifier, g.code, 0, nil)
		if err != nil {
			return false, 0
		}
		g.send("srv.nack", b)
		return false, 1
	}
	if g.p.PacketType != 1 {
		return false, 0
	}
	r := g.recs
	vrt.Finish(r)
	if r.skip {
		return false, 0
	}
	if r.found {
		g.saves++
		if !vrt.Symbolic() {
			g.ev = append(g.ev, vxEvent{Kind: vxSave, Name: "srv.save.values", Nav: r.nav})
		}
		if vrt.Bool("save", g.saves) {
			return true, 0
		}
	}
	b, err := vxPtResponse(g.p.PacketIdentifier, 0, r.svc, r.resp)
	if err != nil {
		return r.found, 0
	}
	g.send("srv.ack", b)
	if len(r.code) > 0 {
		g.send("srv.code", r.code)
		return r.found, 2
	}
	return r.found, 1
}

type vxBytes struct{ b []byte }

func (w *vxBytes) u8(v uint8)   { w.b = append(w.b, v) }
func (w *vxBytes) u16(v uint16) { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *vxBytes) raw(v []byte) { w.b = append(w.b, v...) }

// vxPacket is a transport packet as the server sends it
func vxPacket(pid uint16, t byte, body []byte) []byte {
	w := &vxBytes{}
	w.raw([]byte{1, 0, 0, 11, 0})
	w.u16(uint16(len(body)))
	w.u16(pid + 1)
	w.u8(t)
	w.u8(egts.VxCrc8(w.b))
	w.raw(body)
	w.u16(egts.VxCrc16(body))
	return w.b
}

// vxRecord is a service record as the server sends it
func vxRecord(w *vxBytes, svc uint8, subs []byte) {
	w.u16(uint16(len(subs)))
	w.u16(1)
	w.u8(0x20)
	w.u8(svc)
	w.u8(svc)
	w.raw(subs)
}

// vxPtResponse is the answer to packet pid (the contract of createPtResponse)
func vxPtResponse(pid uint16, code, svc uint8, recs egts.RecordDataSet) ([]byte, error) {
	vrt.Ensures("srv.nil", (recs == nil) == (len(recs) == 0))
	return vxResponse(pid, code, svc, recs)
}

func vxResponse(pid uint16, code, svc uint8, recs egts.RecordDataSet) ([]byte, error) {
	w := &vxBytes{}
	w.u16(pid)
	w.u8(code)
	if len(recs) > 0 {
		sb, err := recs.Encode()
		if err != nil {
			return nil, err
		}
		if len(sb) > 65535-10 {
			return nil, vrt.Err("too long", 0)
		}
		vxRecord(w, svc, sb)
	}
	return vxPacket(pid, 0, w.b), nil
}

// vxSrResultCode is the packet with the result of the authorisation (the contract of createSrResultCode)
func vxSrResultCode(pid uint16, code uint8) ([]byte, error) {
	b := vxResultCode(pid, code)
	vrt.Contract("srv.code.len", len(b) > 0)
	return b, nil
}

func vxResultCode(pid uint16, code uint8) []byte {
	w := &vxBytes{}
	vxRecord(w, 1, []byte{9, 1, 0, code})
	return vxPacket(pid, 1, w.b)
}

func VC_createPtResponse(pid uint16, code, svc uint8, recs egts.RecordDataSet) {
	vrt.Safety("srv.resp.safe")
	vrt.Pure("egts.crc8 egts.crc16 (*egts.RecordDataSet).Encode")
	vrt.Requires((recs == nil) == (len(recs) == 0))
	want, werr := vxResponse(pid, code, svc, recs)
	b, err := createPtResponse(pid, code, svc, recs)
	vrt.Cover("srv.resp.ok", err == nil && len(b) > 40)
	vrt.Ensures("srv.resp.accept", (err == nil) == (werr == nil))
	if err == nil && werr == nil {
		vrt.Ensures("srv.resp.bytes", vrt.EqBytes(b, want))
	}
}

func VC_createSrResultCode(pid uint16, code uint8) {
	vrt.Safety("srv.code.safe")
	vrt.Pure("egts.crc8 egts.crc16")
	b, err := createSrResultCode(pid, code)
	vrt.Ensures("srv.code.accept", err == nil)
	vrt.Ensures("srv.code.bytes", vrt.EqBytes(b, vxResultCode(pid, code)))
	vrt.Ensures("srv.code.len", len(b) > 0)
}

// vxG is the specification the handler runs against
var vxG *vxPackets

// vxDecoded is called when the handler decodes a packet: it has to be the current one, whole
func vxDecoded(p *egts.Package, content []byte) {
	g := vxG
	vrt.Ensures("srv.packet", vrt.EqBytes(content, vrt.Sub(g.in, g.pos, g.frame())))
}

func VC_handleConn(in []byte, broken, wfail bool, ttl time.Duration) {
	vrt.Safety("srv.safe")
	vrt.Abstract("(*egts.Package).Decode")
	vrt.Unify("(*egts.Package).Decode")
	vrt.Watch("(*egts.Package).Decode", vxDecoded)
	vrt.Pure("server.vxResponse server.vxResultCode")
	vrt.Replace("server.createPtResponse", vxPtResponse)
	vrt.Replace("server.createSrResultCode", vxSrResultCode)
	vrt.Replace("time.Now", vxNow)
	w := &vxWorld{}
	repo := storage.NewRepository()
	st := &vxStore{w: w}
	repo.AddStore(st)
	s := New("addr", ttl, repo)
	c := &vxConn{w: w, in: in, broken: broken, wfail: wfail, ttl: ttl}
	g := &vxPackets{in: in, server: s.serverId, w: w, c: c}
	w.g = g
	vxG = g
	vrt.Frame("srv.shared", c, w, g, &vxTick)
	vrt.Loop("srv.loop", g)
	s.handleConn(c)
	vrt.Ensures("srv.closed", c.closed > 0)
	vrt.Cover("srv.two", g.pos > 100)
	vrt.Finish(g)
	if !vrt.Symbolic() {
		n := len(vrt.Failures)
		vxCompare(w.ev, g.ev)
		if n == len(vrt.Failures) {
			// another connection of the same server
			w2 := &vxWorld{}
			st.w = w2
			s.handleConn(&vxConn{w: w2, in: in, broken: true, wfail: wfail, ttl: ttl})
			vxCompare(w2.ev, g.ev)
			if n != len(vrt.Failures) {
				vrt.Ensures("srv.shared", false)
			}
		}
	}
}

// vxCompare names the clause that the first difference between two event logs violates
func vxCompare(got, want []vxEvent) {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(want) || i < len(got) && got[i].Kind == vxSave && want[i].Kind != vxSave {
			if got[i].Kind == vxSave {
				vrt.Ensures("srv.save", false)
			} else if len(got[i].Data) > 10 && got[i].Data[9] == 1 {
				vrt.Ensures("srv.code", false)
			} else {
				vrt.Ensures("srv.quiet", false)
			}
			return
		}
		if i >= len(got) || want[i].Kind == vxSave && got[i].Kind != vxSave {
			switch want[i].Name {
			case "srv.save.values":
				vrt.Ensures("srv.saved", false)
			case "srv.nack":
				vrt.Ensures("srv.nacked", false)
			case "srv.code":
				vrt.Ensures("srv.coded", false)
			default:
				vrt.Ensures("srv.answered", false)
			}
			return
		}
		if want[i].Kind == vxSave {
			if !vrt.Same(got[i].Nav, want[i].Nav) {
				vrt.Ensures("srv.save.values", false)
				return
			}
		} else if !vrt.EqBytes(got[i].Data, want[i].Data) {
			if len(got[i].Data) > 10 && got[i].Data[9] == 1 && want[i].Name != "srv.code" {
				vrt.Ensures("srv.code", false)
			} else {
				vrt.Ensures(want[i].Name, false)
			}
			return
		}
	}
}

// vxSigned: the packet holds absolute values, the hemisphere is a flag
func vxSigned(v float64, south string) float64 {
	if south == "1" {
		return -v
	}
	return v
}
