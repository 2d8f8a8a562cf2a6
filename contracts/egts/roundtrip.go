//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

// ---- lemmas that lift the round trips of the sections to records and packets

// One encoded subrecord between arbitrary other bytes is read back as that subrecord, and the next
// one is looked for right behind it (the step of the induction over the subrecords of a record).
func VC_RecordData_frame(pre, rest, body []byte, t byte) {
	vrt.Safety("rds.frame.safe")
	vrt.Abstract(vx_subDecoders)
	vrt.Requires(len(body) <= 65535 && len(pre) < 1<<30 && len(rest) < 1<<30)
	x := vx_specSub(t, len(body))
	vrt.Requires(x != nil)
	vrt.Requires(x.Decode(body) == nil)
	w := &vx_fieldWriter{}
	w.raw(pre)
	w.u8(t)
	w.u16(uint16(len(body)))
	w.raw(body)
	end := len(w.b)
	w.raw(rest)
	d := &vx_ghostSubs{data: w.b, pos: len(pre)}
	d.Step()
	vrt.Ensures("rds.frame.ok", !d.cut && !d.unk && !d.bad && len(d.out) == 1)
	vrt.Ensures("rds.frame.pos", d.pos == end)
	if len(d.out) == 1 {
		vrt.Ensures("rds.frame.values", d.out[0].SubrecordType == t && int(d.out[0].SubrecordLength) == len(body) && vrt.Same(d.out[0].SubrecordData, x))
	}
}

// The same for service records.
func VC_ServiceDataRecord_frame(pre, rest []byte, s ServiceDataRecord) {
	vrt.Safety("sds.frame.safe")
	vrt.Pure("(*egts.RecordDataSet).Encode")
	vrt.Abstract("(*egts.RecordDataSet).Decode")
	vrt.Requires(len(pre) < 1<<30 && len(rest) < 1<<30)
	e := &vx_ghostRecsEnc{in: ServiceDataSet{s}, out: append([]byte{}, pre...)}
	e.Begin()
	e.Step()
	vrt.Requires(!e.bad && !e.big)
	body, _ := s.RecordDataSet.Encode()
	rds := RecordDataSet{}
	vrt.Requires(rds.Decode(body) == nil)
	end := len(e.out)
	w := &vx_fieldWriter{}
	w.raw(e.out)
	w.raw(rest)
	d := &vx_ghostRecs{data: w.b, pos: len(pre)}
	d.Step()
	vrt.Ensures("sds.frame.ok", !d.cut && !d.bad && len(d.out) == 1)
	vrt.Ensures("sds.frame.pos", d.pos == end)
	if len(d.out) == 1 {
		o := d.out[0]
		vrt.Ensures("sds.frame.flags", o.SourceServiceOnDevice == s.SourceServiceOnDevice && o.RecipientServiceOnDevice == s.RecipientServiceOnDevice &&
			o.Group == s.Group && o.RecordProcessingPriority == s.RecordProcessingPriority && o.TimeFieldExists == s.TimeFieldExists &&
			o.EventIDFieldExists == s.EventIDFieldExists && o.ObjectIDFieldExists == s.ObjectIDFieldExists)
		vrt.Ensures("sds.frame.values", int(o.RecordLength) == len(body) && o.RecordNumber == s.RecordNumber &&
			o.SourceServiceType == s.SourceServiceType && o.RecipientServiceType == s.RecipientServiceType)
		vrt.Ensures("sds.frame.ids", (s.ObjectIDFieldExists != "1" || o.ObjectIdentifier == s.ObjectIdentifier) &&
			(s.EventIDFieldExists != "1" || o.EventIdentifier == s.EventIdentifier) && (s.TimeFieldExists != "1" || o.Time == s.Time))
		vrt.Ensures("sds.frame.subs", len(body) == 0 || vrt.Same(o.RecordDataSet, rds))
	}
}

func VC_PtResponse_roundtrip(id uint16, pr uint8, sdr *ServiceDataSet, with bool) {
	vrt.Safety("ptresp.rt.safe")
	vrt.Pure("(*egts.ServiceDataSet).Encode")
	vrt.Abstract("(*egts.ServiceDataSet).Decode")
	e := &PtResponse{ResponsePacketID: id, ProcessingResult: pr}
	var want ServiceDataSet
	n := 0
	if with {
		vrt.Requires(sdr != nil)
		b, err := sdr.Encode()
		vrt.Requires(err == nil)
		vrt.Requires(want.Decode(b) == nil)
		n = len(b)
		e.SDR = sdr
	}
	b, err := e.Encode()
	vrt.Ensures("ptresp.rt.enc", err == nil)
	var d PtResponse
	err = d.Decode(b)
	vrt.Ensures("ptresp.rt.dec", err == nil)
	vrt.Ensures("ptresp.rt.values", d.ResponsePacketID == id && d.ProcessingResult == pr)
	if n > 0 {
		x, ok := d.SDR.(*ServiceDataSet)
		vrt.Ensures("ptresp.rt.sdr", ok && vrt.Same(*x, want))
	} else {
		vrt.Ensures("ptresp.rt.nosdr", d.SDR == nil)
	}
}

func VC_Package_roundtrip(p *Package, sds *ServiceDataSet, resp *PtResponse, response bool) {
	vrt.Safety("pkg.rt.safe")
	vrt.Pure("egts.crc8 egts.crc16 (*egts.ServiceDataSet).Encode (*egts.PtResponse).Encode")
	vrt.Abstract("(*egts.ServiceDataSet).Decode (*egts.PtResponse).Decode")
	vrt.Requires(p != nil && sds != nil && resp != nil)
	vrt.Requires(vx_isBit2(p.Prefix))
	vrt.Requires(vx_isBit(p.Route))
	vrt.Requires(vx_isBit2(p.EncryptionAlg))
	vrt.Requires(vx_isBit(p.Compression))
	vrt.Requires(vx_isBit2(p.Priority))
	var sb []byte
	var err error
	var want BinaryData
	p.HeaderLength = 0
	if response {
		p.PacketType = 0
		p.ServicesFrameData = resp
		sb, err = resp.Encode()
		want = &PtResponse{}
	} else {
		p.PacketType = 1
		p.ServicesFrameData = sds
		sb, err = sds.Encode()
		want = &ServiceDataSet{}
	}
	vrt.Requires(err == nil && len(sb) > 0 && len(sb) <= 65535)
	vrt.Requires(want.Decode(sb) == nil)
	in := *p
	b, err := p.Encode()
	vrt.Ensures("pkg.rt.enc", err == nil)
	if err != nil {
		return
	}
	var d Package
	code, err := d.Decode(b)
	vrt.Ensures("pkg.rt.dec", err == nil && code == 0)
	vrt.Cover("pkg.rt.ok", err == nil)
	vrt.Ensures("pkg.rt.flags", d.Prefix == in.Prefix && d.Route == in.Route && d.EncryptionAlg == in.EncryptionAlg && d.Compression == in.Compression && d.Priority == in.Priority)
	vrt.Ensures("pkg.rt.values", d.ProtocolVersion == in.ProtocolVersion && d.SecurityKeyID == in.SecurityKeyID && d.HeaderEncoding == in.HeaderEncoding &&
		d.PacketIdentifier == in.PacketIdentifier && d.PacketType == in.PacketType && int(d.FrameDataLength) == len(sb))
	vrt.Ensures("pkg.rt.route", in.Route != "1" || d.PeerAddress == in.PeerAddress && d.RecipientAddress == in.RecipientAddress && d.TimeToLive == in.TimeToLive)
	vrt.Ensures("pkg.rt.body", vrt.Same(d.ServicesFrameData, want))
}

// ---- lengths of collections

func VC_RecordDataSet_Length(rds *RecordDataSet) {
	vrt.Safety("rds.len.safe")
	vrt.Pure("(*egts.RecordDataSet).Encode")
	vrt.Requires(rds != nil)
	b, err := rds.Encode()
	vrt.Requires(err == nil && len(b) <= 65535)
	vrt.Ensures("rds.len", int(rds.Length()) == len(b))
}

func VC_ServiceDataSet_Length(sds *ServiceDataSet) {
	vrt.Safety("sds.len.safe")
	vrt.Pure("(*egts.ServiceDataSet).Encode")
	vrt.Requires(sds != nil)
	b, err := sds.Encode()
	vrt.Requires(err == nil && len(b) <= 65535)
	vrt.Ensures("sds.len", int(sds.Length()) == len(b))
}

// ---- flags that are not binary digits, numbers and texts that do not fit their fields

func vx_binDigits(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = ok && (s[i] == '0' || s[i] == '1')
	}
	return ok
}

func VC_Package_flags(p *Package) {
	vrt.Safety("pkg.flags.safe")
	vrt.Pure("egts.crc8 egts.crc16")
	vrt.Requires(p != nil)
	vrt.Requires(len(p.Prefix) == 2 && len(p.Route) == 1 && len(p.EncryptionAlg) == 2 && len(p.Compression) == 1 && len(p.Priority) == 2)
	p.ServicesFrameData = nil
	_, err := p.Encode()
	vrt.Ensures("pkg.flags.reject", err != nil || vx_binDigits(p.Prefix) && vx_binDigits(p.Route) && vx_binDigits(p.EncryptionAlg) && vx_binDigits(p.Compression) && vx_binDigits(p.Priority))
}

func VC_ServiceDataRecord_flags(s ServiceDataRecord) {
	vrt.Safety("sds.flags.safe")
	vrt.Pure("(*egts.RecordDataSet).Encode")
	vrt.Requires(len(s.SourceServiceOnDevice) == 1 && len(s.RecipientServiceOnDevice) == 1 && len(s.Group) == 1 && len(s.RecordProcessingPriority) == 2 &&
		len(s.TimeFieldExists) == 1 && len(s.EventIDFieldExists) == 1 && len(s.ObjectIDFieldExists) == 1)
	sds := ServiceDataSet{s}
	_, err := sds.Encode()
	vrt.Ensures("sds.flags.reject", err != nil || vx_binDigits(s.SourceServiceOnDevice) && vx_binDigits(s.RecipientServiceOnDevice) && vx_binDigits(s.Group) &&
		vx_binDigits(s.RecordProcessingPriority) && vx_binDigits(s.TimeFieldExists) && vx_binDigits(s.EventIDFieldExists) && vx_binDigits(s.ObjectIDFieldExists))
}

func VC_SrPosData_flags(e *SrPosData) {
	vrt.Safety("pos.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.ALTE) == 1 && len(e.LOHS) == 1 && len(e.LAHS) == 1 && len(e.MV) == 1 && len(e.BB) == 1 && len(e.CS) == 1 && len(e.FIX) == 1 && len(e.VLD) == 1)
	_, err := e.Encode()
	vrt.Ensures("pos.flags.reject", err != nil || vx_binDigits(e.ALTE) && vx_binDigits(e.LOHS) && vx_binDigits(e.LAHS) && vx_binDigits(e.MV) && vx_binDigits(e.BB) && vx_binDigits(e.CS) && vx_binDigits(e.FIX) && vx_binDigits(e.VLD))
	vrt.Ensures("pos.flags.time", err != nil || e.NavigationTime.Unix() >= vx_epoch2010 && e.NavigationTime.Unix() <= vx_epoch2010+0xFFFFFFFF)
	vrt.Ensures("pos.flags.coord", err != nil || e.Latitude >= 0 && e.Latitude <= 90 && e.Longitude >= 0 && e.Longitude <= 180)
	vrt.Ensures("pos.flags.motion", err != nil || e.Speed <= 1638 && e.DirectionHighestBit <= 1 && e.AltitudeSign <= 1)
	vrt.Ensures("pos.flags.odm", err != nil || e.Odometer < 1<<24)
	vrt.Ensures("pos.flags.alt", err != nil || e.ALTE != "1" || e.Altitude < 1<<24)
}

func VC_SrStateData_flags(e *SrStateData) {
	vrt.Safety("state.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.NMS) == 1 && len(e.IBU) == 1 && len(e.BBU) == 1)
	_, err := e.Encode()
	vrt.Ensures("state.flags.reject", err != nil || vx_binDigits(e.NMS) && vx_binDigits(e.IBU) && vx_binDigits(e.BBU))
}

func VC_SrTermIdentity_flags(e *SrTermIdentity) {
	vrt.Safety("term.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.MNE) == 1 && len(e.BSE) == 1 && len(e.NIDE) == 1 && len(e.SSRA) == 1 && len(e.LNGCE) == 1 && len(e.IMSIE) == 1 && len(e.IMEIE) == 1 && len(e.HDIDE) == 1)
	_, err := e.Encode()
	vrt.Ensures("term.flags.reject", err != nil || vx_binDigits(e.MNE) && vx_binDigits(e.BSE) && vx_binDigits(e.NIDE) && vx_binDigits(e.SSRA) && vx_binDigits(e.LNGCE) && vx_binDigits(e.IMSIE) && vx_binDigits(e.IMEIE) && vx_binDigits(e.HDIDE))
	vrt.Ensures("term.flags.texts", err != nil || (e.IMEIE != "1" || len(e.IMEI) <= 15) && (e.IMSIE != "1" || len(e.IMSI) <= 16) && (e.LNGCE != "1" || len(e.LanguageCode) <= 3) && (e.MNE != "1" || len(e.MobileNumber) <= 15))
	vrt.Ensures("term.flags.nid", err != nil || e.NIDE != "1" || len(e.NetworkIdentifier) == 3)
}

func VC_SrExtPosData_flags(e *SrExtPosData) {
	vrt.Safety("extpos.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.NavigationSystemFieldExists) == 1 && len(e.SatellitesFieldExists) == 1 && len(e.PdopFieldExists) == 1 && len(e.HdopFieldExists) == 1 && len(e.VdopFieldExists) == 1)
	_, err := e.Encode()
	vrt.Ensures("extpos.flags.reject", err != nil || vx_binDigits(e.NavigationSystemFieldExists) && vx_binDigits(e.SatellitesFieldExists) && vx_binDigits(e.PdopFieldExists) && vx_binDigits(e.HdopFieldExists) && vx_binDigits(e.VdopFieldExists))
}

func VC_SrLiquidLevelSensor_flags(e *SrLiquidLevelSensor) {
	vrt.Safety("liquid.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.LiquidLevelSensorErrorFlag) == 1 && len(e.LiquidLevelSensorValueUnit) == 2 && len(e.RawDataFlag) == 1)
	_, err := e.Encode()
	vrt.Ensures("liquid.flags.reject", err != nil || vx_binDigits(e.LiquidLevelSensorErrorFlag) && vx_binDigits(e.LiquidLevelSensorValueUnit) && vx_binDigits(e.RawDataFlag))
	vrt.Ensures("liquid.flags.number", err != nil || e.LiquidLevelSensorNumber < 8)
}

func VC_SrCountersData_flags(e *SrCountersData) {
	vrt.Safety("counters.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.CounterFieldExists1) == 1 && len(e.CounterFieldExists2) == 1 && len(e.CounterFieldExists3) == 1 && len(e.CounterFieldExists4) == 1 &&
		len(e.CounterFieldExists5) == 1 && len(e.CounterFieldExists6) == 1 && len(e.CounterFieldExists7) == 1 && len(e.CounterFieldExists8) == 1)
	_, err := e.Encode()
	vrt.Ensures("counters.flags.reject", err != nil || vx_binDigits(e.CounterFieldExists1) && vx_binDigits(e.CounterFieldExists2) && vx_binDigits(e.CounterFieldExists3) && vx_binDigits(e.CounterFieldExists4) &&
		vx_binDigits(e.CounterFieldExists5) && vx_binDigits(e.CounterFieldExists6) && vx_binDigits(e.CounterFieldExists7) && vx_binDigits(e.CounterFieldExists8))
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists1 != "1" || e.Counter1 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists2 != "1" || e.Counter2 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists3 != "1" || e.Counter3 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists4 != "1" || e.Counter4 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists5 != "1" || e.Counter5 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists6 != "1" || e.Counter6 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists7 != "1" || e.Counter7 < 1<<24)
	vrt.Ensures("counters.flags.value", err != nil || e.CounterFieldExists8 != "1" || e.Counter8 < 1<<24)
}

func VC_SrAdSensorsData_flags(e *SrAdSensorsData) {
	vrt.Safety("adsens.flags.safe")
	vrt.Requires(e != nil)
	vrt.Requires(len(e.DigitalInputsOctetExists1) == 1 && len(e.DigitalInputsOctetExists2) == 1 && len(e.DigitalInputsOctetExists3) == 1 && len(e.DigitalInputsOctetExists4) == 1 &&
		len(e.DigitalInputsOctetExists5) == 1 && len(e.DigitalInputsOctetExists6) == 1 && len(e.DigitalInputsOctetExists7) == 1 && len(e.DigitalInputsOctetExists8) == 1)
	vrt.Requires(len(e.AnalogSensorFieldExists1) == 1 && len(e.AnalogSensorFieldExists2) == 1 && len(e.AnalogSensorFieldExists3) == 1 && len(e.AnalogSensorFieldExists4) == 1 &&
		len(e.AnalogSensorFieldExists5) == 1 && len(e.AnalogSensorFieldExists6) == 1 && len(e.AnalogSensorFieldExists7) == 1 && len(e.AnalogSensorFieldExists8) == 1)
	_, err := e.Encode()
	vrt.Ensures("adsens.flags.digital", err != nil || vx_binDigits(e.DigitalInputsOctetExists1) && vx_binDigits(e.DigitalInputsOctetExists2) && vx_binDigits(e.DigitalInputsOctetExists3) && vx_binDigits(e.DigitalInputsOctetExists4) &&
		vx_binDigits(e.DigitalInputsOctetExists5) && vx_binDigits(e.DigitalInputsOctetExists6) && vx_binDigits(e.DigitalInputsOctetExists7) && vx_binDigits(e.DigitalInputsOctetExists8))
	vrt.Ensures("adsens.flags.analog", err != nil || vx_binDigits(e.AnalogSensorFieldExists1) && vx_binDigits(e.AnalogSensorFieldExists2) && vx_binDigits(e.AnalogSensorFieldExists3) && vx_binDigits(e.AnalogSensorFieldExists4) &&
		vx_binDigits(e.AnalogSensorFieldExists5) && vx_binDigits(e.AnalogSensorFieldExists6) && vx_binDigits(e.AnalogSensorFieldExists7) && vx_binDigits(e.AnalogSensorFieldExists8))
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists1 != "1" || e.AnalogSensor1 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists2 != "1" || e.AnalogSensor2 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists3 != "1" || e.AnalogSensor3 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists4 != "1" || e.AnalogSensor4 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists5 != "1" || e.AnalogSensor5 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists6 != "1" || e.AnalogSensor6 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists7 != "1" || e.AnalogSensor7 < 1<<24)
	vrt.Ensures("adsens.flags.value", err != nil || e.AnalogSensorFieldExists8 != "1" || e.AnalogSensor8 < 1<<24)
}

func VC_SrAbsCntrData_flags(e *SrAbsCntrData) {
	vrt.Safety("abscntr.flags.safe")
	vrt.Requires(e != nil)
	_, err := e.Encode()
	vrt.Ensures("abscntr.flags.value", err != nil || e.CounterValue < 1<<24)
}

func VC_SrAbsAnSensData_flags(e *SrAbsAnSensData) {
	vrt.Safety("absan.flags.safe")
	vrt.Requires(e != nil)
	_, err := e.Encode()
	vrt.Ensures("absan.flags.value", err != nil || e.Value < 1<<24)
}

func VC_SrAuthInfo_flags(user, pass, seq string) {
	vrt.Safety("auth.flags.safe")
	vrt.Requires(len(user) <= 20000 && len(pass) <= 20000 && len(seq) <= 20000)
	e := &SrAuthInfo{UserName: user, UserPassword: pass, ServerSequence: seq}
	_, err := e.Encode()
	vrt.Ensures("auth.flags.terminator", err != nil || vrt.NoByte(user, 0) && vrt.NoByte(pass, 0) && vrt.NoByte(seq, 0))
}
