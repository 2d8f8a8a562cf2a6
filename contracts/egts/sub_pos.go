//go:build verif

package egts

import (
	"time"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

const vx_epoch2010 = 1262304000 // 2010-01-01T00:00:00Z

func VC_SrPosData_Decode(content []byte) {
	vrt.Safety("pos.dec.safe")
	var e SrPosData
	err := e.Decode(content)

	r := vx_fields(content)
	tm := r.u32()
	lat := r.u32()
	lon := r.u32()
	fl := r.u8()
	spd := r.u16()
	dir := r.u8()
	odm := r.u24()
	din := r.u8()
	src := r.u8()
	alt := uint32(0)
	if fl&0x80 != 0 {
		alt = r.u24()
	}
	vrt.Ensures("pos.dec.trunc", err != nil || r.ok)
	vrt.Ensures("pos.dec.accept", err == nil || !r.ok)
	vrt.Cover("pos.dec.ok", err == nil && fl&0x80 != 0)
	if err != nil {
		return
	}
	vrt.Ensures("pos.dec.time", e.NavigationTime.Unix() == vx_epoch2010+int64(tm))
	vrt.Ensures("pos.dec.lat", vrt.Near(e.Latitude, vrt.RDiv(vrt.RMul(float64(lat), 90), 4294967295), 1e-9))
	vrt.Ensures("pos.dec.lon", vrt.Near(e.Longitude, vrt.RDiv(vrt.RMul(float64(lon), 180), 4294967295), 1e-9))
	vrt.Ensures("pos.dec.flags", e.ALTE == vx_bit(fl, 7) && e.LOHS == vx_bit(fl, 6) && e.LAHS == vx_bit(fl, 5) && e.MV == vx_bit(fl, 4) &&
		e.BB == vx_bit(fl, 3) && e.CS == vx_bit(fl, 2) && e.FIX == vx_bit(fl, 1) && e.VLD == vx_bit(fl, 0))
	vrt.Ensures("pos.dec.speed", e.Speed == (spd&0x3FFF)/10)
	vrt.Ensures("pos.dec.dir", e.DirectionHighestBit == uint8(spd>>15) && e.Direction == dir|uint8(spd>>15)<<7)
	vrt.Ensures("pos.dec.alt", e.AltitudeSign == uint8(spd>>14)&1 && e.Altitude == alt)
	vrt.Ensures("pos.dec.odm", e.Odometer == odm)
	vrt.Ensures("pos.dec.din", e.DigitalInputs == din && e.Source == src)
}

// vx_posOf is the subrecord with the given field values, each within what the wire can carry.
func vx_posOf(sec uint32, lat, lon float64, fl, motion byte, speed uint16, dir byte, odm uint32, din, src byte, alt uint32) *SrPosData {
	vrt.Requires(lat >= 0 && lat <= 90 && lon >= 0 && lon <= 180 && speed <= 1638 && odm < 1<<24 && alt < 1<<24)
	return &SrPosData{
		NavigationTime: time.Unix(vx_epoch2010+int64(sec), 0).UTC(),
		Latitude:       lat, Longitude: lon,
		ALTE: vx_bit(fl, 7), LOHS: vx_bit(fl, 6), LAHS: vx_bit(fl, 5), MV: vx_bit(fl, 4), BB: vx_bit(fl, 3), CS: vx_bit(fl, 2), FIX: vx_bit(fl, 1), VLD: vx_bit(fl, 0),
		DirectionHighestBit: dir >> 7, AltitudeSign: motion & 1, Speed: speed, Direction: dir,
		Odometer: odm, DigitalInputs: din, Source: src, Altitude: alt,
	}
}

func VC_SrPosData_Encode(sec uint32, lat, lon float64, fl, motion byte, speed uint16, dir byte, odm uint32, din, src byte, alt uint32) {
	vrt.Safety("pos.enc.safe")
	e := vx_posOf(sec, lat, lon, fl, motion, speed, dir, odm, din, src, alt)
	in := *e
	b, err := e.Encode()
	vrt.Ensures("pos.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("pos.enc.time", r.u32() == sec)
	vrt.Ensures("pos.enc.lat", vrt.Near(float64(r.u32()), vrt.RMul(vrt.RDiv(lat, 90), 4294967295), 1.001))
	vrt.Ensures("pos.enc.lon", vrt.Near(float64(r.u32()), vrt.RMul(vrt.RDiv(lon, 180), 4294967295), 1.001))
	vrt.Ensures("pos.enc.flags", r.u8() == fl)
	vrt.Ensures("pos.enc.speed", r.u16() == speed*10|uint16(motion&1)<<14|uint16(dir>>7)<<15)
	vrt.Ensures("pos.enc.dir", r.u8() == dir&0x7F)
	vrt.Ensures("pos.enc.odm", r.u24() == odm)
	vrt.Ensures("pos.enc.din", r.u8() == din && r.u8() == src)
	if fl&0x80 != 0 {
		vrt.Ensures("pos.enc.alt", r.u24() == alt)
	}
	vrt.Ensures("pos.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("pos.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("pos.len", int(e.Length()) == len(b))
}

func VC_SrPosData_roundtrip(sec uint32, lat, lon float64, fl, motion byte, speed uint16, dir byte, odm uint32, din, src byte, alt uint32) {
	vrt.Safety("pos.enc.safe")
	e := vx_posOf(sec, lat, lon, fl, motion, speed, dir, odm, din, src, alt)
	in := *e
	b, err := e.Encode()
	vrt.Ensures("pos.rt.enc", err == nil)
	if err != nil {
		return
	}
	var d SrPosData
	err = d.Decode(b)
	vrt.Ensures("pos.rt.dec", err == nil)
	if err != nil {
		return
	}
	vrt.Ensures("pos.rt.time", d.NavigationTime.Unix() == in.NavigationTime.Unix())
	vrt.Ensures("pos.rt.coord", vrt.Near(d.Latitude, in.Latitude, 4.3e-8) && vrt.Near(d.Longitude, in.Longitude, 8.5e-8))
	vrt.Ensures("pos.rt.flags", d.ALTE == in.ALTE && d.LOHS == in.LOHS && d.LAHS == in.LAHS && d.MV == in.MV &&
		d.BB == in.BB && d.CS == in.CS && d.FIX == in.FIX && d.VLD == in.VLD)
	vrt.Ensures("pos.rt.motion", d.DirectionHighestBit == in.DirectionHighestBit && d.AltitudeSign == in.AltitudeSign && d.Speed == in.Speed && d.Direction == in.Direction)
	vrt.Ensures("pos.rt.rest", d.Odometer == in.Odometer && d.DigitalInputs == in.DigitalInputs && d.Source == in.Source && (in.ALTE == "0" || d.Altitude == in.Altitude))
}

var _ = time.UTC
