//go:build verif

package egts

import (
	"reflect"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// generators for the native search: structured inputs of the decoders, valid inputs of the encoders

var vx_subTypes = []byte{0, 1, 5, 7, 9, 16, 17, 18, 19, 20, 21, 24, 25, 27}

func vx_genSub(r *vrt.Rand, t byte) []byte {
	w := &vx_fieldWriter{}
	switch t {
	case 0:
		w.raw(r.BytesN(3))
		if r.Intn(3) == 0 {
			w.raw(r.BytesN(r.Intn(9)))
		}
	case 1:
		fl := r.Byte()
		w.raw(r.BytesN(4))
		w.u8(fl)
		n := 0
		for i, l := range []int{2, 15, 16, 3, 3, 2, 15} {
			_ = i
			n += l
		}
		w.raw(r.BytesN(n))
	case 5:
		w.raw(r.BytesN(5))
		w.raw([]byte(r.Text(r.Intn(20))))
	case 7:
		w.raw([]byte(r.Text(r.Intn(20))))
		w.u8(0)
		w.raw([]byte(r.Text(r.Intn(20))))
		w.u8(0)
		if r.Intn(2) == 0 {
			w.raw([]byte(r.Text(r.Intn(20))))
			w.u8(0)
		}
	case 9:
		w.u8(r.Byte())
	case 16:
		w.raw(r.BytesN(21 + r.Intn(4)))
	case 17:
		w.raw(r.BytesN(1 + r.Intn(10)))
	case 18:
		w.raw(r.BytesN(3 + r.Intn(33)))
	case 19:
		w.raw(r.BytesN(1 + r.Intn(25)))
	case 20, 21:
		w.raw(r.BytesN(5))
	case 24, 25:
		w.raw(r.BytesN(4))
	case 27:
		w.raw(r.BytesN(7))
	default:
		w.raw(r.BytesN(r.Intn(8)))
	}
	if r.Intn(12) == 0 && len(w.b) > 0 {
		w.b = w.b[:r.Intn(len(w.b))]
	}
	if r.Intn(12) == 0 {
		w.raw(r.BytesN(r.Intn(5)))
	}
	return w.b
}

// vx_genOK generates a section the decoder accepts, if it can
func vx_genOK(r *vrt.Rand, t byte) []byte {
	for i := 0; i < 12; i++ {
		b := vx_genSub(r, t)
		if x := vx_specSub(t, len(b)); x != nil && vx_decodeOK(x, b) {
			return b
		}
	}
	return vx_genSub(r, t)
}

func vx_decodeOK(x BinaryData, b []byte) (ok bool) {
	defer func() { recover() }()
	return x.Decode(b) == nil
}

func vx_pick(r *vrt.Rand, good []byte) []byte {
	if r.Intn(4) > 0 {
		return good
	}
	b := append([]byte{}, good...)
	switch r.Intn(3) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	default:
		b = append(b, r.BytesN(r.Intn(4))...)
	}
	return b
}

func vx_genRDS(r *vrt.Rand) []byte {
	w := &vx_fieldWriter{}
	bad := r.Intn(4) == 0
	for n := r.Intn(4); n > 0; n-- {
		t := vx_subTypes[r.Intn(len(vx_subTypes))]
		if bad && r.Intn(4) == 0 {
			t = r.Byte()
		}
		b := vx_genOK(r, t)
		if bad && r.Intn(3) == 0 {
			b = vx_genSub(r, t)
		}
		if bad && r.Intn(5) == 0 {
			t = r.Byte() // the content of another type
		}
		if bad && r.Intn(5) == 0 {
			b = append(b, r.BytesN(256*(1+r.Intn(2)))...)
		}
		w.u8(t)
		w.u16(uint16(len(b)))
		w.raw(b)
	}
	if bad && len(w.b) > 0 {
		return vx_pick(r, w.b)
	}
	return w.b
}

func vx_genSDS(r *vrt.Rand) []byte {
	w := &vx_fieldWriter{}
	for n := 1 + r.Intn(3); n > 0; n-- {
		b := vx_genRDS(r)
		w.u16(uint16(len(b)))
		w.u16(uint16(r.Bits(16)))
		fl := r.Byte()
		w.u8(fl)
		if fl&1 != 0 {
			w.u32(uint32(r.Bits(32)))
		}
		if fl&2 != 0 {
			w.u32(uint32(r.Bits(32)))
		}
		if fl&4 != 0 {
			w.u32(uint32(r.Bits(32)))
		}
		w.u8(r.Byte())
		w.u8(r.Byte())
		w.raw(b)
	}
	return w.b
}

func vx_refCrc8(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c = vx_specCrc8Byte(c, x)
	}
	return c
}

func vx_refCrc16(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c = vx_specCrc16Byte(c, x)
	}
	return c
}

func vx_genPackage(r *vrt.Rand) []byte {
	w := &vx_fieldWriter{}
	t := byte(r.Intn(2))
	if r.Intn(16) == 0 {
		t = r.Byte()
	}
	var body []byte
	if t == 1 {
		body = vx_genSDS(r)
	} else {
		body = r.BytesN(3)
		if r.Intn(2) == 0 {
			body = append(body, vx_genSDS(r)...)
		}
	}
	if r.Intn(8) == 0 {
		body = vx_pick(r, body)
	}
	fl := r.Byte()
	w.u8(r.Byte())
	w.u8(r.Byte())
	w.u8(fl)
	hl := byte(11)
	if fl&0x20 != 0 {
		hl = 16
	}
	if r.Intn(16) == 0 {
		hl = r.Byte()
	}
	w.u8(hl)
	w.u8(r.Byte())
	w.u16(uint16(len(body)))
	w.u16(uint16(r.Bits(16)))
	w.u8(t)
	if fl&0x20 != 0 {
		w.raw(r.BytesN(5))
	}
	c := vx_refCrc8(w.b)
	if r.Intn(12) == 0 {
		c ^= 1 << uint(r.Intn(8))
	}
	w.u8(c)
	s := vx_refCrc16(body)
	w.raw(body)
	switch r.Intn(12) {
	case 0:
		s ^= 1 << uint(r.Intn(16))
	case 1:
		s ^= 0x80
	}
	w.u16(s)
	if r.Intn(10) == 0 {
		return vx_pick(r, w.b)
	}
	return w.b
}

func vx_genSection(r *vrt.Rand) BinaryData {
	for i := 0; i < 20; i++ {
		t := vx_subTypes[r.Intn(len(vx_subTypes))]
		b := vx_genSub(r, t)
		if x := vx_specSub(t, len(b)); x != nil && vx_decodeOK(x, b) {
			return x
		}
	}
	return &SrResultCode{ResultCode: r.Byte()}
}

func vx_genRecordData(r *vrt.Rand) RecordData {
	if r.Intn(400) == 0 {
		return RecordData{SubrecordData: &SrDispatcherIdentity{Description: r.Text(65500 + r.Intn(80))}}
	}
	x := vx_genSection(r)
	d := RecordData{SubrecordData: x}
	if _, ok := x.(*SrResponse); !ok && r.Intn(2) == 0 {
		d.SubrecordType = byte(vx_specType(x))
	}
	return d
}

func vx_genRecord(r *vrt.Rand) ServiceDataRecord {
	s := ServiceDataRecord{
		RecordNumber: uint16(r.Bits(16)), SourceServiceOnDevice: r.Flag(1), RecipientServiceOnDevice: r.Flag(1), Group: r.Flag(1),
		RecordProcessingPriority: r.Flag(2), TimeFieldExists: r.Flag(1), EventIDFieldExists: r.Flag(1), ObjectIDFieldExists: r.Flag(1),
		ObjectIdentifier: uint32(r.Bits(32)), EventIdentifier: uint32(r.Bits(32)), Time: uint32(r.Bits(32)),
		SourceServiceType: r.Byte(), RecipientServiceType: r.Byte(),
	}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		s.RecordDataSet = append(s.RecordDataSet, vx_genRecordData(r))
	}
	if n > 1 && r.Intn(100) == 0 {
		for i := range s.RecordDataSet {
			s.RecordDataSet[i] = RecordData{SubrecordData: &SrDispatcherIdentity{Description: r.Text(32700 + r.Intn(80))}}
		}
	}
	return s
}

func vx_genServiceDataSet(r *vrt.Rand) ServiceDataSet {
	var s ServiceDataSet
	for n := 1 + r.Intn(3); n > 0; n-- {
		s = append(s, vx_genRecord(r))
	}
	return s
}

func verifHooks() {
	vrt.Gens["VC_Package_Decode"] = func(r *vrt.Rand) []interface{} { return []interface{}{vx_genPackage(r)} }
	vrt.Gens["VC_ServiceDataSet_Decode"] = func(r *vrt.Rand) []interface{} {
		return []interface{}{vx_pick(r, vx_genSDS(r))}
	}
	vrt.Gens["VC_RecordDataSet_Decode"] = func(r *vrt.Rand) []interface{} {
		return []interface{}{vx_pick(r, vx_genRDS(r))}
	}
	vrt.Gens["VC_PtResponse_Decode"] = func(r *vrt.Rand) []interface{} {
		b := r.BytesN(r.Intn(4))
		if r.Intn(2) == 0 {
			b = append(r.BytesN(3), vx_genSDS(r)...)
		}
		return []interface{}{vx_pick(r, b)}
	}
	for n, t := range map[string]byte{"SrResponse": 0, "SrTermIdentity": 1, "SrDispatcherIdentity": 5, "SrAuthInfo": 7, "SrResultCode": 9,
		"SrPosData": 16, "SrExtPosData": 17, "SrAdSensorsData": 18, "SrCountersData": 19, "SrStateData": 21, "SrAbsAnSensData": 24,
		"SrAbsCntrData": 25, "SrLiquidLevelSensor": 27} {
		t := t
		vrt.Gens["VC_"+n+"_Decode"] = func(r *vrt.Rand) []interface{} {
			if r.Intn(4) == 0 {
				return []interface{}{r.BytesN(r.Len())}
			}
			if r.Intn(2) == 0 {
				return []interface{}{vx_genOK(r, t)}
			}
			return []interface{}{vx_genSub(r, t)}
		}
	}
	term := func(exact bool) func(r *vrt.Rand) []interface{} {
		return func(r *vrt.Rand) []interface{} {
			n := func(k int) string {
				if exact {
					return r.Text(k)
				}
				return r.Text(r.Intn(k + 1))
			}
			return []interface{}{r.Byte(), uint32(r.Bits(32)), uint16(r.Bits(16)), uint16(r.Bits(16)), n(15), n(16), n(3), n(15), r.BytesN(3)}
		}
	}
	vrt.Gens["VC_SrTermIdentity_Encode"] = term(false)
	vrt.Gens["VC_SrTermIdentity_roundtrip"] = term(true)
	pos := func(r *vrt.Rand) []interface{} {
		lat, lon := r.Float(), r.Float()
		if lat < 0 || lat > 90 {
			lat = r.Float64() * 90
		}
		if lon < 0 || r.Intn(2) == 0 {
			lon = r.Float64() * 180
		}
		return []interface{}{uint32(r.Bits(32)), lat, lon, r.Byte(), r.Byte(), uint16(r.Bits(16)) % 1639, r.Byte(), uint32(r.Bits(24)), r.Byte(), r.Byte(), uint32(r.Bits(24))}
	}
	vrt.Gens["VC_SrPosData_Encode"] = pos
	vrt.Gens["VC_SrPosData_roundtrip"] = pos
	u24s := func(n int, pre func(r *vrt.Rand) []interface{}) func(r *vrt.Rand) []interface{} {
		return func(r *vrt.Rand) []interface{} {
			a := pre(r)
			for i := 0; i < n; i++ {
				a = append(a, uint32(r.Bits(24)))
			}
			return a
		}
	}
	one := func(r *vrt.Rand) []interface{} { return []interface{}{r.Byte()} }
	eleven := func(r *vrt.Rand) []interface{} {
		var a []interface{}
		for i := 0; i < 11; i++ {
			a = append(a, r.Byte())
		}
		return a
	}
	vrt.Gens["VC_SrCountersData_Encode"] = u24s(8, one)
	vrt.Gens["VC_SrCountersData_roundtrip"] = u24s(8, one)
	vrt.Gens["VC_SrAdSensorsData_Encode"] = u24s(8, eleven)
	vrt.Gens["VC_SrAdSensorsData_roundtrip"] = u24s(8, eleven)
	vrt.Gens["VC_SrAbsCntrData_Encode"] = u24s(1, one)
	vrt.Gens["VC_SrAbsAnSensData_Encode"] = u24s(1, one)
	vrt.TypeGens[reflect.TypeOf(Package{})] = func(r *vrt.Rand) interface{} {
		p := Package{ProtocolVersion: r.Byte(), SecurityKeyID: r.Byte(), Prefix: r.Flag(2), Route: r.Flag(1), EncryptionAlg: r.Flag(2),
			Compression: r.Flag(1), Priority: r.Flag(2), HeaderEncoding: r.Byte(), FrameDataLength: uint16(r.Bits(16)), PacketIdentifier: uint16(r.Bits(16)),
			PacketType: r.Byte(), PeerAddress: uint16(r.Bits(16)), RecipientAddress: uint16(r.Bits(16)), TimeToLive: r.Byte(), HeaderCheckSum: r.Byte()}
		if r.Intn(3) == 0 {
			p.HeaderLength = 11
			if p.Route == "1" {
				p.HeaderLength = 16
			}
		}
		return p
	}
	vrt.TypeGens[reflect.TypeOf(RecordData{})] = func(r *vrt.Rand) interface{} { return vx_genRecordData(r) }
	vrt.TypeGens[reflect.TypeOf(ServiceDataRecord{})] = func(r *vrt.Rand) interface{} { return vx_genRecord(r) }
	vrt.TypeGens[reflect.TypeOf(ServiceDataSet{})] = func(r *vrt.Rand) interface{} { return vx_genServiceDataSet(r) }
	vrt.TypeGens[reflect.TypeOf(PtResponse{})] = func(r *vrt.Rand) interface{} {
		p := PtResponse{ResponsePacketID: uint16(r.Bits(16)), ProcessingResult: r.Byte()}
		if r.Intn(2) == 0 {
			s := vx_genServiceDataSet(r)
			p.SDR = &s
		}
		return p
	}
}
