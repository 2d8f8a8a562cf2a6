//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

// ---- EGTS_SR_EXT_POS_DATA

func VC_SrExtPosData_Decode(content []byte) {
	vrt.Safety("extpos.dec.safe")
	var e SrExtPosData
	err := e.Decode(content)
	r := vx_fields(content)
	fl := r.u8()
	var vdop, hdop, pdop, ns uint16
	var sat uint8
	if fl&1 != 0 {
		vdop = r.u16()
	}
	if fl&2 != 0 {
		hdop = r.u16()
	}
	if fl&4 != 0 {
		pdop = r.u16()
	}
	if fl&8 != 0 {
		sat = r.u8()
	}
	if fl&16 != 0 {
		ns = r.u16()
	}
	vrt.Ensures("extpos.dec.trunc", err != nil || r.ok)
	vrt.Ensures("extpos.dec.accept", err == nil || !r.ok)
	vrt.Cover("extpos.dec.ok", err == nil && fl == 31)
	if err != nil {
		return
	}
	vrt.Ensures("extpos.dec.flags", e.VdopFieldExists == vx_bit(fl, 0) && e.HdopFieldExists == vx_bit(fl, 1) && e.PdopFieldExists == vx_bit(fl, 2) &&
		e.SatellitesFieldExists == vx_bit(fl, 3) && e.NavigationSystemFieldExists == vx_bit(fl, 4))
	vrt.Ensures("extpos.dec.dop", e.VerticalDilutionOfPrecision == vdop && e.HorizontalDilutionOfPrecision == hdop && e.PositionDilutionOfPrecision == pdop)
	vrt.Ensures("extpos.dec.nav", e.Satellites == sat && e.NavigationSystem == ns)
}

func VC_SrExtPosData_Encode(fl byte, vdop, hdop, pdop, ns uint16, sat uint8) {
	vrt.Safety("extpos.enc.safe")
	e := &SrExtPosData{NavigationSystemFieldExists: vx_bit(fl, 4), SatellitesFieldExists: vx_bit(fl, 3), PdopFieldExists: vx_bit(fl, 2), HdopFieldExists: vx_bit(fl, 1), VdopFieldExists: vx_bit(fl, 0),
		VerticalDilutionOfPrecision: vdop, HorizontalDilutionOfPrecision: hdop, PositionDilutionOfPrecision: pdop, Satellites: sat, NavigationSystem: ns}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("extpos.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("extpos.enc.flags", r.u8() == fl&0x1F)
	if fl&1 != 0 {
		vrt.Ensures("extpos.enc.vdop", r.u16() == vdop)
	}
	if fl&2 != 0 {
		vrt.Ensures("extpos.enc.hdop", r.u16() == hdop)
	}
	if fl&4 != 0 {
		vrt.Ensures("extpos.enc.pdop", r.u16() == pdop)
	}
	if fl&8 != 0 {
		vrt.Ensures("extpos.enc.sat", r.u8() == sat)
	}
	if fl&16 != 0 {
		vrt.Ensures("extpos.enc.ns", r.u16() == ns)
	}
	vrt.Ensures("extpos.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("extpos.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("extpos.len", int(e.Length()) == len(b))

	var d SrExtPosData
	err = d.Decode(b)
	vrt.Ensures("extpos.rt.dec", err == nil)
	vrt.Ensures("extpos.rt.flags", d.VdopFieldExists == in.VdopFieldExists && d.HdopFieldExists == in.HdopFieldExists &&
		d.PdopFieldExists == in.PdopFieldExists && d.SatellitesFieldExists == in.SatellitesFieldExists && d.NavigationSystemFieldExists == in.NavigationSystemFieldExists)
	vrt.Ensures("extpos.rt.values", (fl&1 == 0 || d.VerticalDilutionOfPrecision == vdop) && (fl&2 == 0 || d.HorizontalDilutionOfPrecision == hdop) &&
		(fl&4 == 0 || d.PositionDilutionOfPrecision == pdop) && (fl&8 == 0 || d.Satellites == sat) && (fl&16 == 0 || d.NavigationSystem == ns))
}

// ---- EGTS_SR_STATE_DATA

func VC_SrStateData_Decode(content []byte) {
	vrt.Safety("state.dec.safe")
	var e SrStateData
	err := e.Decode(content)
	r := vx_fields(content)
	st, mpsv, bbv, ibv, fl := r.u8(), r.u8(), r.u8(), r.u8(), r.u8()
	vrt.Ensures("state.dec.trunc", err != nil || r.ok)
	vrt.Ensures("state.dec.accept", err == nil || !r.ok)
	vrt.Cover("state.dec.ok", err == nil)
	if err != nil {
		return
	}
	vrt.Ensures("state.dec.values", e.State == st && e.MainPowerSourceVoltage == mpsv && e.BackUpBatteryVoltage == bbv && e.InternalBatteryVoltage == ibv)
	vrt.Ensures("state.dec.flags", e.NMS == vx_bit(fl, 2) && e.IBU == vx_bit(fl, 1) && e.BBU == vx_bit(fl, 0))
}

func VC_SrStateData_Encode(st, mpsv, bbv, ibv, fl byte) {
	vrt.Safety("state.enc.safe")
	e := &SrStateData{State: st, MainPowerSourceVoltage: mpsv, BackUpBatteryVoltage: bbv, InternalBatteryVoltage: ibv, NMS: vx_bit(fl, 2), IBU: vx_bit(fl, 1), BBU: vx_bit(fl, 0)}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("state.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("state.enc.values", r.u8() == st && r.u8() == mpsv && r.u8() == bbv && r.u8() == ibv)
	vrt.Ensures("state.enc.flags", r.u8() == fl&7)
	vrt.Ensures("state.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("state.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("state.len", int(e.Length()) == len(b))
	var d SrStateData
	err = d.Decode(b)
	vrt.Ensures("state.rt.dec", err == nil)
	vrt.Ensures("state.rt.values", d.State == in.State && d.MainPowerSourceVoltage == in.MainPowerSourceVoltage && d.BackUpBatteryVoltage == in.BackUpBatteryVoltage &&
		d.InternalBatteryVoltage == in.InternalBatteryVoltage && d.NMS == in.NMS && d.IBU == in.IBU && d.BBU == in.BBU)
}

// ---- EGTS_SR_ABS_CNTR_DATA

func VC_SrAbsCntrData_Decode(content []byte) {
	vrt.Safety("abscntr.dec.safe")
	var e SrAbsCntrData
	err := e.Decode(content)
	r := vx_fields(content)
	cn, cnv := r.u8(), r.u24()
	vrt.Ensures("abscntr.dec.trunc", err != nil || r.ok)
	vrt.Ensures("abscntr.dec.accept", err == nil || !r.ok)
	vrt.Cover("abscntr.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("abscntr.dec.values", e.CounterNumber == cn && e.CounterValue == cnv)
	}
}

func VC_SrAbsCntrData_Encode(cn byte, cnv uint32) {
	vrt.Safety("abscntr.enc.safe")
	vrt.Requires(cnv < 1<<24)
	e := &SrAbsCntrData{CounterNumber: cn, CounterValue: cnv}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("abscntr.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("abscntr.enc.values", r.u8() == cn && r.u24() == cnv)
	vrt.Ensures("abscntr.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("abscntr.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("abscntr.len", int(e.Length()) == len(b))
	var d SrAbsCntrData
	err = d.Decode(b)
	vrt.Ensures("abscntr.rt.dec", err == nil)
	vrt.Ensures("abscntr.rt.values", d.CounterNumber == cn && d.CounterValue == cnv)
}

// ---- EGTS_SR_ABS_AN_SENS_DATA

func VC_SrAbsAnSensData_Decode(content []byte) {
	vrt.Safety("absan.dec.safe")
	var e SrAbsAnSensData
	err := e.Decode(content)
	r := vx_fields(content)
	sn, v := r.u8(), r.u24()
	vrt.Ensures("absan.dec.trunc", err != nil || r.ok)
	vrt.Ensures("absan.dec.accept", err == nil || !r.ok)
	vrt.Cover("absan.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("absan.dec.values", e.SensorNumber == sn && e.Value == v)
	}
}

func VC_SrAbsAnSensData_Encode(sn byte, v uint32) {
	vrt.Safety("absan.enc.safe")
	vrt.Requires(v < 1<<24)
	e := &SrAbsAnSensData{SensorNumber: sn, Value: v}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("absan.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("absan.enc.values", r.u8() == sn && r.u24() == v)
	vrt.Ensures("absan.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("absan.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("absan.len", int(e.Length()) == len(b))
	var d SrAbsAnSensData
	err = d.Decode(b)
	vrt.Ensures("absan.rt.dec", err == nil)
	vrt.Ensures("absan.rt.values", d.SensorNumber == sn && d.Value == v)
}

// ---- EGTS_SR_LIQUID_LEVEL_SENSOR

func VC_SrLiquidLevelSensor_Decode(content []byte) {
	vrt.Safety("liquid.dec.safe")
	var e SrLiquidLevelSensor
	err := e.Decode(content)
	r := vx_fields(content)
	fl, addr, data := r.u8(), r.u16(), r.u32()
	vrt.Ensures("liquid.dec.trunc", err != nil || r.ok)
	vrt.Ensures("liquid.dec.accept", err == nil || !r.ok)
	vrt.Cover("liquid.dec.ok", err == nil)
	if err != nil {
		return
	}
	vrt.Ensures("liquid.dec.flags", e.LiquidLevelSensorErrorFlag == vx_bit(fl, 6) && e.LiquidLevelSensorValueUnit == vx_bit2(fl, 4) && e.RawDataFlag == vx_bit(fl, 3))
	vrt.Ensures("liquid.dec.num", e.LiquidLevelSensorNumber == fl&7)
	vrt.Ensures("liquid.dec.values", e.ModuleAddress == addr && e.LiquidLevelSensorData == data)
}

func VC_SrLiquidLevelSensor_Encode(fl byte, addr uint16, data uint32) {
	vrt.Safety("liquid.enc.safe")
	e := &SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: vx_bit(fl, 6), LiquidLevelSensorValueUnit: vx_bit2(fl, 4), RawDataFlag: vx_bit(fl, 3),
		LiquidLevelSensorNumber: fl & 7, ModuleAddress: addr, LiquidLevelSensorData: data}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("liquid.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("liquid.enc.flags", r.u8() == fl&0x7F)
	vrt.Ensures("liquid.enc.values", r.u16() == addr && r.u32() == data)
	vrt.Ensures("liquid.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("liquid.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("liquid.len", int(e.Length()) == len(b))
	var d SrLiquidLevelSensor
	err = d.Decode(b)
	vrt.Ensures("liquid.rt.dec", err == nil)
	vrt.Ensures("liquid.rt.values", d.LiquidLevelSensorErrorFlag == in.LiquidLevelSensorErrorFlag && d.LiquidLevelSensorValueUnit == in.LiquidLevelSensorValueUnit &&
		d.RawDataFlag == in.RawDataFlag && d.LiquidLevelSensorNumber == in.LiquidLevelSensorNumber && d.ModuleAddress == addr && d.LiquidLevelSensorData == data)
}

// ---- EGTS_SR_COUNTERS_DATA

func (r *vx_fieldReader) opt24(on bool) uint32 {
	if on {
		return r.u24()
	}
	return 0
}

func (r *vx_fieldReader) opt8(on bool) uint8 {
	if on {
		return r.u8()
	}
	return 0
}

func VC_SrCountersData_Decode(content []byte) {
	vrt.Safety("counters.dec.safe")
	var e SrCountersData
	err := e.Decode(content)
	r := vx_fields(content)
	fl := r.u8()
	c1 := r.opt24(fl&1 != 0)
	c2 := r.opt24(fl&2 != 0)
	c3 := r.opt24(fl&4 != 0)
	c4 := r.opt24(fl&8 != 0)
	c5 := r.opt24(fl&16 != 0)
	c6 := r.opt24(fl&32 != 0)
	c7 := r.opt24(fl&64 != 0)
	c8 := r.opt24(fl&128 != 0)
	vrt.Ensures("counters.dec.trunc", err != nil || r.ok)
	vrt.Ensures("counters.dec.accept", err == nil || !r.ok)
	vrt.Cover("counters.dec.ok", err == nil && fl == 255)
	if err != nil {
		return
	}
	vrt.Ensures("counters.dec.flags", e.CounterFieldExists1 == vx_bit(fl, 0) && e.CounterFieldExists2 == vx_bit(fl, 1) && e.CounterFieldExists3 == vx_bit(fl, 2) && e.CounterFieldExists4 == vx_bit(fl, 3) &&
		e.CounterFieldExists5 == vx_bit(fl, 4) && e.CounterFieldExists6 == vx_bit(fl, 5) && e.CounterFieldExists7 == vx_bit(fl, 6) && e.CounterFieldExists8 == vx_bit(fl, 7))
	vrt.Ensures("counters.dec.value1", e.Counter1 == c1)
	vrt.Ensures("counters.dec.value2", e.Counter2 == c2)
	vrt.Ensures("counters.dec.value3", e.Counter3 == c3)
	vrt.Ensures("counters.dec.value4", e.Counter4 == c4)
	vrt.Ensures("counters.dec.value5", e.Counter5 == c5)
	vrt.Ensures("counters.dec.value6", e.Counter6 == c6)
	vrt.Ensures("counters.dec.value7", e.Counter7 == c7)
	vrt.Ensures("counters.dec.value8", e.Counter8 == c8)
}

func VC_SrCountersData_Encode(fl byte, c1, c2, c3, c4, c5, c6, c7, c8 uint32) {
	vrt.Safety("counters.enc.safe")
	vrt.Requires(c1 < 1<<24 && c2 < 1<<24 && c3 < 1<<24 && c4 < 1<<24 && c5 < 1<<24 && c6 < 1<<24 && c7 < 1<<24 && c8 < 1<<24)
	e := &SrCountersData{CounterFieldExists1: vx_bit(fl, 0), CounterFieldExists2: vx_bit(fl, 1), CounterFieldExists3: vx_bit(fl, 2), CounterFieldExists4: vx_bit(fl, 3),
		CounterFieldExists5: vx_bit(fl, 4), CounterFieldExists6: vx_bit(fl, 5), CounterFieldExists7: vx_bit(fl, 6), CounterFieldExists8: vx_bit(fl, 7),
		Counter1: c1, Counter2: c2, Counter3: c3, Counter4: c4, Counter5: c5, Counter6: c6, Counter7: c7, Counter8: c8}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("counters.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("counters.enc.flags", r.u8() == fl)
	vrt.Ensures("counters.enc.value1", fl&1 == 0 || r.u24() == c1)
	vrt.Ensures("counters.enc.value2", fl&2 == 0 || r.u24() == c2)
	vrt.Ensures("counters.enc.value3", fl&4 == 0 || r.u24() == c3)
	vrt.Ensures("counters.enc.value4", fl&8 == 0 || r.u24() == c4)
	vrt.Ensures("counters.enc.value5", fl&16 == 0 || r.u24() == c5)
	vrt.Ensures("counters.enc.value6", fl&32 == 0 || r.u24() == c6)
	vrt.Ensures("counters.enc.value7", fl&64 == 0 || r.u24() == c7)
	vrt.Ensures("counters.enc.value8", fl&128 == 0 || r.u24() == c8)
	vrt.Ensures("counters.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("counters.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("counters.len", int(e.Length()) == len(b))
}

func VC_SrCountersData_roundtrip(fl byte, c1, c2, c3, c4, c5, c6, c7, c8 uint32) {
	vrt.Safety("counters.enc.safe")
	vrt.Requires(c1 < 1<<24 && c2 < 1<<24 && c3 < 1<<24 && c4 < 1<<24 && c5 < 1<<24 && c6 < 1<<24 && c7 < 1<<24 && c8 < 1<<24)
	e := &SrCountersData{CounterFieldExists1: vx_bit(fl, 0), CounterFieldExists2: vx_bit(fl, 1), CounterFieldExists3: vx_bit(fl, 2), CounterFieldExists4: vx_bit(fl, 3),
		CounterFieldExists5: vx_bit(fl, 4), CounterFieldExists6: vx_bit(fl, 5), CounterFieldExists7: vx_bit(fl, 6), CounterFieldExists8: vx_bit(fl, 7),
		Counter1: c1, Counter2: c2, Counter3: c3, Counter4: c4, Counter5: c5, Counter6: c6, Counter7: c7, Counter8: c8}
	in := *e
	b, err := e.Encode()
	if err != nil {
		vrt.Ensures("counters.rt.enc", false)
		return
	}
	var d SrCountersData
	err = d.Decode(b)
	vrt.Ensures("counters.rt.dec", err == nil)
	vrt.Ensures("counters.rt.flags", d.CounterFieldExists1 == in.CounterFieldExists1 && d.CounterFieldExists2 == in.CounterFieldExists2 &&
		d.CounterFieldExists3 == in.CounterFieldExists3 && d.CounterFieldExists4 == in.CounterFieldExists4 && d.CounterFieldExists5 == in.CounterFieldExists5 &&
		d.CounterFieldExists6 == in.CounterFieldExists6 && d.CounterFieldExists7 == in.CounterFieldExists7 && d.CounterFieldExists8 == in.CounterFieldExists8)
	vrt.Ensures("counters.rt.value1", fl&1 == 0 || d.Counter1 == c1)
	vrt.Ensures("counters.rt.value2", fl&2 == 0 || d.Counter2 == c2)
	vrt.Ensures("counters.rt.value3", fl&4 == 0 || d.Counter3 == c3)
	vrt.Ensures("counters.rt.value4", fl&8 == 0 || d.Counter4 == c4)
	vrt.Ensures("counters.rt.value5", fl&16 == 0 || d.Counter5 == c5)
	vrt.Ensures("counters.rt.value6", fl&32 == 0 || d.Counter6 == c6)
	vrt.Ensures("counters.rt.value7", fl&64 == 0 || d.Counter7 == c7)
	vrt.Ensures("counters.rt.value8", fl&128 == 0 || d.Counter8 == c8)
}

// ---- EGTS_SR_AD_SENSORS_DATA

func VC_SrAdSensorsData_Decode(content []byte) {
	vrt.Safety("adsens.dec.safe")
	var e SrAdSensorsData
	err := e.Decode(content)
	r := vx_fields(content)
	df, dout, af := r.u8(), r.u8(), r.u8()
	d1 := r.opt8(df&1 != 0)
	d2 := r.opt8(df&2 != 0)
	d3 := r.opt8(df&4 != 0)
	d4 := r.opt8(df&8 != 0)
	d5 := r.opt8(df&16 != 0)
	d6 := r.opt8(df&32 != 0)
	d7 := r.opt8(df&64 != 0)
	d8 := r.opt8(df&128 != 0)
	a1 := r.opt24(af&1 != 0)
	a2 := r.opt24(af&2 != 0)
	a3 := r.opt24(af&4 != 0)
	a4 := r.opt24(af&8 != 0)
	a5 := r.opt24(af&16 != 0)
	a6 := r.opt24(af&32 != 0)
	a7 := r.opt24(af&64 != 0)
	a8 := r.opt24(af&128 != 0)
	vrt.Ensures("adsens.dec.trunc", err != nil || r.ok)
	vrt.Ensures("adsens.dec.accept", err == nil || !r.ok)
	vrt.Cover("adsens.dec.ok", err == nil && df == 255 && af == 255)
	if err != nil {
		return
	}
	vrt.Ensures("adsens.dec.dflags", e.DigitalInputsOctetExists1 == vx_bit(df, 0) && e.DigitalInputsOctetExists2 == vx_bit(df, 1) && e.DigitalInputsOctetExists3 == vx_bit(df, 2) && e.DigitalInputsOctetExists4 == vx_bit(df, 3) &&
		e.DigitalInputsOctetExists5 == vx_bit(df, 4) && e.DigitalInputsOctetExists6 == vx_bit(df, 5) && e.DigitalInputsOctetExists7 == vx_bit(df, 6) && e.DigitalInputsOctetExists8 == vx_bit(df, 7))
	vrt.Ensures("adsens.dec.aflags", e.AnalogSensorFieldExists1 == vx_bit(af, 0) && e.AnalogSensorFieldExists2 == vx_bit(af, 1) && e.AnalogSensorFieldExists3 == vx_bit(af, 2) && e.AnalogSensorFieldExists4 == vx_bit(af, 3) &&
		e.AnalogSensorFieldExists5 == vx_bit(af, 4) && e.AnalogSensorFieldExists6 == vx_bit(af, 5) && e.AnalogSensorFieldExists7 == vx_bit(af, 6) && e.AnalogSensorFieldExists8 == vx_bit(af, 7))
	vrt.Ensures("adsens.dec.dout", e.DigitalOutputs == dout)
	vrt.Ensures("adsens.dec.adio", e.AdditionalDigitalInputsOctet1 == d1 && e.AdditionalDigitalInputsOctet2 == d2 && e.AdditionalDigitalInputsOctet3 == d3 && e.AdditionalDigitalInputsOctet4 == d4 &&
		e.AdditionalDigitalInputsOctet5 == d5 && e.AdditionalDigitalInputsOctet6 == d6 && e.AdditionalDigitalInputsOctet7 == d7 && e.AdditionalDigitalInputsOctet8 == d8)
	vrt.Ensures("adsens.dec.ans1", e.AnalogSensor1 == a1)
	vrt.Ensures("adsens.dec.ans2", e.AnalogSensor2 == a2)
	vrt.Ensures("adsens.dec.ans3", e.AnalogSensor3 == a3)
	vrt.Ensures("adsens.dec.ans4", e.AnalogSensor4 == a4)
	vrt.Ensures("adsens.dec.ans5", e.AnalogSensor5 == a5)
	vrt.Ensures("adsens.dec.ans6", e.AnalogSensor6 == a6)
	vrt.Ensures("adsens.dec.ans7", e.AnalogSensor7 == a7)
	vrt.Ensures("adsens.dec.ans8", e.AnalogSensor8 == a8)
}

func vx_adSensOf(df, dout, af byte, d1, d2, d3, d4, d5, d6, d7, d8 byte, a1, a2, a3, a4, a5, a6, a7, a8 uint32) *SrAdSensorsData {
	vrt.Requires(a1 < 1<<24 && a2 < 1<<24 && a3 < 1<<24 && a4 < 1<<24 && a5 < 1<<24 && a6 < 1<<24 && a7 < 1<<24 && a8 < 1<<24)
	return &SrAdSensorsData{
		DigitalInputsOctetExists1: vx_bit(df, 0), DigitalInputsOctetExists2: vx_bit(df, 1), DigitalInputsOctetExists3: vx_bit(df, 2), DigitalInputsOctetExists4: vx_bit(df, 3),
		DigitalInputsOctetExists5: vx_bit(df, 4), DigitalInputsOctetExists6: vx_bit(df, 5), DigitalInputsOctetExists7: vx_bit(df, 6), DigitalInputsOctetExists8: vx_bit(df, 7),
		DigitalOutputs:           dout,
		AnalogSensorFieldExists1: vx_bit(af, 0), AnalogSensorFieldExists2: vx_bit(af, 1), AnalogSensorFieldExists3: vx_bit(af, 2), AnalogSensorFieldExists4: vx_bit(af, 3),
		AnalogSensorFieldExists5: vx_bit(af, 4), AnalogSensorFieldExists6: vx_bit(af, 5), AnalogSensorFieldExists7: vx_bit(af, 6), AnalogSensorFieldExists8: vx_bit(af, 7),
		AdditionalDigitalInputsOctet1: d1, AdditionalDigitalInputsOctet2: d2, AdditionalDigitalInputsOctet3: d3, AdditionalDigitalInputsOctet4: d4,
		AdditionalDigitalInputsOctet5: d5, AdditionalDigitalInputsOctet6: d6, AdditionalDigitalInputsOctet7: d7, AdditionalDigitalInputsOctet8: d8,
		AnalogSensor1: a1, AnalogSensor2: a2, AnalogSensor3: a3, AnalogSensor4: a4, AnalogSensor5: a5, AnalogSensor6: a6, AnalogSensor7: a7, AnalogSensor8: a8}
}

func VC_SrAdSensorsData_Encode(df, dout, af byte, d1, d2, d3, d4, d5, d6, d7, d8 byte, a1, a2, a3, a4, a5, a6, a7, a8 uint32) {
	vrt.Safety("adsens.enc.safe")
	e := vx_adSensOf(df, dout, af, d1, d2, d3, d4, d5, d6, d7, d8, a1, a2, a3, a4, a5, a6, a7, a8)
	in := *e
	b, err := e.Encode()
	vrt.Ensures("adsens.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("adsens.enc.dflags", r.u8() == df)
	vrt.Ensures("adsens.enc.dout", r.u8() == dout)
	vrt.Ensures("adsens.enc.aflags", r.u8() == af)
	vrt.Ensures("adsens.enc.adio1", df&1 == 0 || r.u8() == d1)
	vrt.Ensures("adsens.enc.adio2", df&2 == 0 || r.u8() == d2)
	vrt.Ensures("adsens.enc.adio3", df&4 == 0 || r.u8() == d3)
	vrt.Ensures("adsens.enc.adio4", df&8 == 0 || r.u8() == d4)
	vrt.Ensures("adsens.enc.adio5", df&16 == 0 || r.u8() == d5)
	vrt.Ensures("adsens.enc.adio6", df&32 == 0 || r.u8() == d6)
	vrt.Ensures("adsens.enc.adio7", df&64 == 0 || r.u8() == d7)
	vrt.Ensures("adsens.enc.adio8", df&128 == 0 || r.u8() == d8)
	vrt.Ensures("adsens.enc.ans1", af&1 == 0 || r.u24() == a1)
	vrt.Ensures("adsens.enc.ans2", af&2 == 0 || r.u24() == a2)
	vrt.Ensures("adsens.enc.ans3", af&4 == 0 || r.u24() == a3)
	vrt.Ensures("adsens.enc.ans4", af&8 == 0 || r.u24() == a4)
	vrt.Ensures("adsens.enc.ans5", af&16 == 0 || r.u24() == a5)
	vrt.Ensures("adsens.enc.ans6", af&32 == 0 || r.u24() == a6)
	vrt.Ensures("adsens.enc.ans7", af&64 == 0 || r.u24() == a7)
	vrt.Ensures("adsens.enc.ans8", af&128 == 0 || r.u24() == a8)
	vrt.Ensures("adsens.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("adsens.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("adsens.len", int(e.Length()) == len(b))
}

func VC_SrAdSensorsData_roundtrip(df, dout, af byte, d1, d2, d3, d4, d5, d6, d7, d8 byte, a1, a2, a3, a4, a5, a6, a7, a8 uint32) {
	vrt.Safety("adsens.enc.safe")
	e := vx_adSensOf(df, dout, af, d1, d2, d3, d4, d5, d6, d7, d8, a1, a2, a3, a4, a5, a6, a7, a8)
	in := *e
	b, err := e.Encode()
	if err != nil {
		vrt.Ensures("adsens.rt.enc", false)
		return
	}
	var d SrAdSensorsData
	err = d.Decode(b)
	vrt.Ensures("adsens.rt.dec", err == nil)
	vrt.Ensures("adsens.rt.dflags", d.DigitalInputsOctetExists1 == in.DigitalInputsOctetExists1 && d.DigitalInputsOctetExists2 == in.DigitalInputsOctetExists2 &&
		d.DigitalInputsOctetExists3 == in.DigitalInputsOctetExists3 && d.DigitalInputsOctetExists4 == in.DigitalInputsOctetExists4 && d.DigitalInputsOctetExists5 == in.DigitalInputsOctetExists5 &&
		d.DigitalInputsOctetExists6 == in.DigitalInputsOctetExists6 && d.DigitalInputsOctetExists7 == in.DigitalInputsOctetExists7 && d.DigitalInputsOctetExists8 == in.DigitalInputsOctetExists8)
	vrt.Ensures("adsens.rt.aflags", d.AnalogSensorFieldExists1 == in.AnalogSensorFieldExists1 && d.AnalogSensorFieldExists2 == in.AnalogSensorFieldExists2 &&
		d.AnalogSensorFieldExists3 == in.AnalogSensorFieldExists3 && d.AnalogSensorFieldExists4 == in.AnalogSensorFieldExists4 && d.AnalogSensorFieldExists5 == in.AnalogSensorFieldExists5 &&
		d.AnalogSensorFieldExists6 == in.AnalogSensorFieldExists6 && d.AnalogSensorFieldExists7 == in.AnalogSensorFieldExists7 && d.AnalogSensorFieldExists8 == in.AnalogSensorFieldExists8)
	vrt.Ensures("adsens.rt.dout", d.DigitalOutputs == dout)
	vrt.Ensures("adsens.rt.adio1", df&1 == 0 || d.AdditionalDigitalInputsOctet1 == d1)
	vrt.Ensures("adsens.rt.adio2", df&2 == 0 || d.AdditionalDigitalInputsOctet2 == d2)
	vrt.Ensures("adsens.rt.adio3", df&4 == 0 || d.AdditionalDigitalInputsOctet3 == d3)
	vrt.Ensures("adsens.rt.adio4", df&8 == 0 || d.AdditionalDigitalInputsOctet4 == d4)
	vrt.Ensures("adsens.rt.adio5", df&16 == 0 || d.AdditionalDigitalInputsOctet5 == d5)
	vrt.Ensures("adsens.rt.adio6", df&32 == 0 || d.AdditionalDigitalInputsOctet6 == d6)
	vrt.Ensures("adsens.rt.adio7", df&64 == 0 || d.AdditionalDigitalInputsOctet7 == d7)
	vrt.Ensures("adsens.rt.adio8", df&128 == 0 || d.AdditionalDigitalInputsOctet8 == d8)
	vrt.Ensures("adsens.rt.ans1", af&1 == 0 || d.AnalogSensor1 == a1)
	vrt.Ensures("adsens.rt.ans2", af&2 == 0 || d.AnalogSensor2 == a2)
	vrt.Ensures("adsens.rt.ans3", af&4 == 0 || d.AnalogSensor3 == a3)
	vrt.Ensures("adsens.rt.ans4", af&8 == 0 || d.AnalogSensor4 == a4)
	vrt.Ensures("adsens.rt.ans5", af&16 == 0 || d.AnalogSensor5 == a5)
	vrt.Ensures("adsens.rt.ans6", af&32 == 0 || d.AnalogSensor6 == a6)
	vrt.Ensures("adsens.rt.ans7", af&64 == 0 || d.AnalogSensor7 == a7)
	vrt.Ensures("adsens.rt.ans8", af&128 == 0 || d.AnalogSensor8 == a8)
}
