//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

const vx_subDecoders = "(*egts.SrPosData).Decode (*egts.SrTermIdentity).Decode (*egts.SrResponse).Decode (*egts.SrResultCode).Decode " +
	"(*egts.SrExtPosData).Decode (*egts.SrAdSensorsData).Decode (*egts.SrStateData).Decode (*egts.SrLiquidLevelSensor).Decode " +
	"(*egts.SrAbsCntrData).Decode (*egts.SrAuthInfo).Decode (*egts.SrCountersData).Decode (*egts.StorageRecord).Decode " +
	"(*egts.SrAbsAnSensData).Decode (*egts.SrDispatcherIdentity).Decode"

// vx_specSub is the section a subrecord type stands for (nil: unknown, has to be rejected)
func vx_specSub(t byte, n int) BinaryData {
	switch t {
	case 0:
		return &SrResponse{}
	case 1:
		return &SrTermIdentity{}
	case 5:
		return &SrDispatcherIdentity{}
	case 7:
		return &SrAuthInfo{}
	case 9:
		return &SrResultCode{}
	case 15:
		return &StorageRecord{}
	case 16:
		return &SrPosData{}
	case 17:
		return &SrExtPosData{}
	case 18:
		return &SrAdSensorsData{}
	case 19:
		return &SrCountersData{}
	case 20:
		if n == 5 {
			return &SrStateData{}
		}
		return nil
	case 21:
		return &SrStateData{}
	case 24:
		return &SrAbsAnSensData{}
	case 25:
		return &SrAbsCntrData{}
	case 27:
		return &SrLiquidLevelSensor{}
	}
	return nil
}

// ---- RecordDataSet.Decode: type(1) length(2) data(length), repeated to the end

type vx_ghostSubs struct {
	data []byte
	pos  int
	out  RecordDataSet
	cut  bool // ran past the end
	unk  bool // unknown type
	bad  bool // the section itself is malformed
}

func (g *vx_ghostSubs) More() bool { return g.pos < len(g.data) && !g.cut && !g.unk && !g.bad }
func (g *vx_ghostSubs) Rank() int {
	if g.cut || g.unk || g.bad {
		return 0
	}
	return len(g.data) - g.pos
}
func (g *vx_ghostSubs) Step() {
	if len(g.data)-g.pos < 3 {
		g.cut = true
		return
	}
	t := g.data[g.pos]
	n := int(g.data[g.pos+1]) | int(g.data[g.pos+2])<<8
	if len(g.data)-g.pos-3 < n {
		g.cut = true
		return
	}
	sub := vrt.Sub(g.data, g.pos+3, n)
	x := vx_specSub(t, n)
	if x == nil {
		g.unk = true
		return
	}
	if x.Decode(sub) != nil {
		g.bad = true
		return
	}
	g.out = append(g.out, RecordData{SubrecordType: t, SubrecordLength: uint16(n), SubrecordData: x})
	g.pos += 3 + n
}

func VC_RecordDataSet_Decode(content []byte) {
	vrt.Safety("rds.dec.safe")
	vrt.Abstract(vx_subDecoders)
	g := &vx_ghostSubs{data: content}
	vrt.Loop("rds.dec.loop", g)
	var rds RecordDataSet
	err := rds.Decode(content)
	vrt.Finish(g)
	vrt.Ensures("rds.dec.trunc", err != nil || !g.cut)
	vrt.Ensures("rds.dec.unknown", err != nil || !g.unk)
	vrt.Ensures("rds.dec.bad", err != nil || !g.bad)
	vrt.Ensures("rds.dec.accept", err == nil || g.cut || g.unk || g.bad)
	vrt.Cover("rds.dec.ok", err == nil && len(rds) > 2)
	if err == nil {
		vrt.Ensures("rds.dec.values", vrt.Same(rds, g.out))
	}
}

// vx_specType is the type code that stands for a section (-1: none)
func vx_specType(x BinaryData) int {
	switch x.(type) {
	case *SrResponse:
		return 0
	case *SrTermIdentity:
		return 1
	case *SrDispatcherIdentity:
		return 5
	case *SrAuthInfo:
		return 7
	case *SrResultCode:
		return 9
	case *StorageRecord:
		return 15
	case *SrPosData:
		return 16
	case *SrExtPosData:
		return 17
	case *SrAdSensorsData:
		return 18
	case *SrCountersData:
		return 19
	case *SrStateData:
		return 21
	case *SrAbsAnSensData:
		return 24
	case *SrAbsCntrData:
		return 25
	case *SrLiquidLevelSensor:
		return 27
	}
	return -1
}

// ---- RecordDataSet.Encode

type vx_ghostSubsEnc struct {
	in  RecordDataSet
	i   int
	out []byte
	big bool // a section longer than its length field can say
	unk bool // no type code
	bad bool // the section cannot be encoded
}

func (g *vx_ghostSubsEnc) More() bool { return g.i < len(g.in) && !g.big && !g.unk && !g.bad }
func (g *vx_ghostSubsEnc) Begin() {
	vrt.Requires(g.in[g.i].SubrecordData != nil)
}
func (g *vx_ghostSubsEnc) Rank() int {
	if g.big || g.unk || g.bad {
		return 0
	}
	return len(g.in) - g.i
}
func (g *vx_ghostSubsEnc) Step() {
	rd := g.in[g.i]
	t := int(rd.SubrecordType)
	if t == 0 {
		t = vx_specType(rd.SubrecordData)
	}
	if t < 0 {
		g.unk = true
		return
	}
	n := int(rd.SubrecordLength)
	l := int(rd.SubrecordData.Length())
	b, err := rd.SubrecordData.Encode()
	if err != nil {
		g.bad = true
		return
	}
	if len(b) > 65535 {
		g.big = true
		return
	}
	vrt.Contract("*.len", l == len(b))
	if n == 0 {
		n = len(b)
	}
	// a length given by the caller has to be the real one
	vrt.Requires(n == len(b))
	w := vx_fieldWriter{b: g.out}
	w.u8(byte(t))
	w.u16(uint16(n))
	w.raw(b)
	g.out = w.b
	g.i++
}

func VC_RecordDataSet_Encode(rds RecordDataSet) {
	vrt.Safety("rds.enc.safe")
	g := &vx_ghostSubsEnc{in: rds}
	vrt.Loop("rds.enc.loop", g)
	b, err := rds.Encode()
	vrt.Finish(g)
	vrt.Ensures("rds.enc.big", err != nil || !g.big)
	vrt.Ensures("rds.enc.bad", err != nil || !g.bad && !g.unk)
	vrt.Ensures("rds.enc.accept", err == nil || g.big || g.unk || g.bad)
	vrt.Cover("rds.enc.ok", err == nil && len(rds) > 2)
	if err == nil {
		vrt.Ensures("rds.enc.bytes", vrt.EqBytes(b, g.out))
	}
}

// ---- ServiceDataSet.Decode: record header, optional fields, subrecords, repeated to the end

type vx_ghostRecs struct {
	data []byte
	pos  int
	out  ServiceDataSet
	cut  bool // a header or the announced subrecords run past the end
	bad  bool // subrecords malformed
}

func (g *vx_ghostRecs) More() bool { return g.pos < len(g.data) && !g.cut && !g.bad }
func (g *vx_ghostRecs) Rank() int {
	if g.cut || g.bad {
		return 0
	}
	return len(g.data) - g.pos
}
func (g *vx_ghostRecs) Step() {
	r := &vx_fieldReader{b: g.data, p: g.pos, ok: true}
	var s ServiceDataRecord
	s.RecordLength = r.u16()
	s.RecordNumber = r.u16()
	fl := r.u8()
	s.SourceServiceOnDevice, s.RecipientServiceOnDevice, s.Group = vx_bit(fl, 7), vx_bit(fl, 6), vx_bit(fl, 5)
	s.RecordProcessingPriority = vx_bit2(fl, 3)
	s.TimeFieldExists, s.EventIDFieldExists, s.ObjectIDFieldExists = vx_bit(fl, 2), vx_bit(fl, 1), vx_bit(fl, 0)
	if fl&1 != 0 {
		s.ObjectIdentifier = r.u32()
	}
	if fl&2 != 0 {
		s.EventIdentifier = r.u32()
	}
	if fl&4 != 0 {
		s.Time = r.u32()
	}
	s.SourceServiceType = r.u8()
	s.RecipientServiceType = r.u8()
	if !r.ok {
		g.cut = true
		return
	}
	n := int(s.RecordLength)
	// nothing at all follows the header: accepted as a record without subrecords
	if r.p < len(g.data) {
		if len(g.data)-r.p < n {
			g.cut = true
			return
		}
		rds := RecordDataSet{}
		if rds.Decode(vrt.Sub(g.data, r.p, n)) != nil {
			g.bad = true
			return
		}
		s.RecordDataSet = rds
		r.p += n
	}
	g.out = append(g.out, s)
	g.pos = r.p
}

func VC_ServiceDataSet_Decode(content []byte) {
	vrt.Safety("sds.dec.safe")
	vrt.Abstract("(*egts.RecordDataSet).Decode")
	g := &vx_ghostRecs{data: content}
	vrt.Loop("sds.dec.loop", g)
	var sds ServiceDataSet
	err := sds.Decode(content)
	vrt.Finish(g)
	vrt.Ensures("sds.dec.trunc", err != nil || !g.cut)
	vrt.Ensures("sds.dec.bad", err != nil || !g.bad)
	vrt.Ensures("sds.dec.accept", err == nil || g.cut || g.bad)
	vrt.Cover("sds.dec.ok", err == nil && len(sds) > 2)
	if err == nil {
		vrt.Ensures("sds.dec.values", vrt.Same(sds, g.out))
	}
}

// ---- ServiceDataSet.Encode

type vx_ghostRecsEnc struct {
	in  ServiceDataSet
	i   int
	out []byte
	big bool
	bad bool
}

func (g *vx_ghostRecsEnc) More() bool { return g.i < len(g.in) && !g.big && !g.bad }

// Begin: flag fields hold binary strings
func (g *vx_ghostRecsEnc) Begin() {
	s := &g.in[g.i]
	vrt.Requires(vx_isBit(s.SourceServiceOnDevice))
	vrt.Requires(vx_isBit(s.RecipientServiceOnDevice))
	vrt.Requires(vx_isBit(s.Group))
	vrt.Requires(vx_isBit2(s.RecordProcessingPriority))
	vrt.Requires(vx_isBit(s.TimeFieldExists))
	vrt.Requires(vx_isBit(s.EventIDFieldExists))
	vrt.Requires(vx_isBit(s.ObjectIDFieldExists))
}

func (g *vx_ghostRecsEnc) Rank() int {
	if g.big || g.bad {
		return 0
	}
	return len(g.in) - g.i
}
func (g *vx_ghostRecsEnc) Step() {
	s := g.in[g.i]
	b, err := s.RecordDataSet.Encode()
	if err != nil {
		g.bad = true
		return
	}
	if len(b) > 65535 {
		g.big = true
		return
	}
	n := int(s.RecordLength)
	if n == 0 {
		n = len(b)
	}
	// a length given by the caller has to be the real one
	vrt.Requires(n == len(b))
	w := vx_fieldWriter{b: g.out}
	w.u16(uint16(n))
	w.u16(s.RecordNumber)
	w.u8(vx_val(s.SourceServiceOnDevice)<<7 | vx_val(s.RecipientServiceOnDevice)<<6 | vx_val(s.Group)<<5 | vx_val2(s.RecordProcessingPriority)<<3 |
		vx_val(s.TimeFieldExists)<<2 | vx_val(s.EventIDFieldExists)<<1 | vx_val(s.ObjectIDFieldExists))
	if s.ObjectIDFieldExists == "1" {
		w.u32(s.ObjectIdentifier)
	}
	if s.EventIDFieldExists == "1" {
		w.u32(s.EventIdentifier)
	}
	if s.TimeFieldExists == "1" {
		w.u32(s.Time)
	}
	w.u8(s.SourceServiceType)
	w.u8(s.RecipientServiceType)
	w.raw(b)
	g.out = w.b
	g.i++
}

func VC_ServiceDataSet_Encode(sds ServiceDataSet) {
	vrt.Safety("sds.enc.safe")
	vrt.Pure("(*egts.RecordDataSet).Encode")
	g := &vx_ghostRecsEnc{in: sds}
	vrt.Loop("sds.enc.loop", g)
	b, err := sds.Encode()
	vrt.Finish(g)
	vrt.Ensures("sds.enc.big", err != nil || !g.big)
	vrt.Ensures("sds.enc.bad", err != nil || !g.bad)
	vrt.Ensures("sds.enc.accept", err == nil || g.big || g.bad)
	vrt.Cover("sds.enc.ok", err == nil && len(sds) > 2)
	if err == nil {
		vrt.Ensures("sds.enc.bytes", vrt.EqBytes(b, g.out))
	}
}
