//go:build verif

package server

import (
	"io"
	"reflect"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
	log "github.com/sirupsen/logrus"
)

func vxRefCrc8(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x31
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func vxRefCrc16(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x) << 8
		for i := 0; i < 8; i++ {
			if c&0x8000 != 0 {
				c = c<<1 ^ 0x1021
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func vxSub(r *vrt.Rand) (byte, []byte) {
	u := func(n int) []byte { return r.BytesN(n) }
	switch r.Intn(14) {
	case 0:
		if r.Intn(3) > 0 {
			return 16, append(append(u(4), u(8)...), append([]byte{r.Byte() & 0x7f}, u(8)...)...)
		}
		return 0, u(3)
	case 1: // terminal identity without optional fields
		return 1, append(u(4), 0)
	case 2: // with the IMEI
		b := append(u(4), 2)
		return 1, append(b, []byte(r.Text(15))...)
	case 3:
		return 7, []byte(r.Text(3) + "\x00" + r.Text(4) + "\x00")
	case 4, 5, 6:
		return 16, append(append(u(4), u(8)...), append([]byte{r.Byte() & 0x7f}, u(8)...)...)
	case 7:
		m := r.Byte()
		b := []byte{0, r.Byte(), m}
		for i := 0; i < 8; i++ {
			if m>>uint(i)&1 == 1 {
				b = append(b, u(3)...)
			}
		}
		return 18, b
	case 8:
		return 24, u(4)
	case 9:
		return 25, append([]byte{[]byte{110, 111, 110, 111, r.Byte()}[r.Intn(5)]}, u(3)...)
	case 10:
		return 27, append([]byte{byte(r.Intn(8)) | byte(r.Intn(4))<<4 | byte(r.Intn(2))<<6}, u(6)...)
	case 11:
		return 17, []byte{0}
	case 12:
		return 21, u(5)
	}
	return 9, u(1)
}

func vxFrameBytes(r *vrt.Rand, pid uint16, t, fl, pv, hl byte, body []byte) []byte {
	w := &vxBytes{}
	w.raw([]byte{pv, r.Byte(), fl, hl, r.Byte()})
	w.u16(uint16(len(body)))
	w.u16(pid)
	w.u8(t)
	if fl&0x20 != 0 {
		w.raw(r.BytesN(5))
	}
	w.u8(vxRefCrc8(w.b))
	w.raw(body)
	if len(body) > 0 {
		w.u16(vxRefCrc16(body))
	}
	return w.b
}

func vxGenPacket(r *vrt.Rand) []byte {
	body := &vxBytes{}
	t := byte(1)
	if r.Intn(8) == 0 {
		t = byte(r.Intn(3))
	}
	if t == 0 {
		body.raw(r.BytesN(3))
	}
	for n := 1 + r.Intn(3); t == 1 && n > 0; n-- {
		subs := &vxBytes{}
		for k := r.Intn(5); k > 0; k-- {
			st, b := vxSub(r)
			if r.Intn(30) == 0 {
				st = r.Byte()
			}
			subs.u8(st)
			subs.u16(uint16(len(b)))
			subs.raw(b)
		}
		body.u16(uint16(len(subs.b)))
		body.u16(uint16(r.Bits(16)))
		fl := r.Byte()
		body.u8(fl)
		for i := uint(0); i < 3; i++ {
			if fl>>i&1 == 1 {
				body.raw(r.BytesN(4))
			}
		}
		body.u8(r.Byte())
		body.u8(r.Byte())
		body.raw(subs.b)
	}
	if r.Intn(60) == 0 { // many records
		for body.b = nil; len(body.b) < 32000+r.Intn(33000); {
			body.raw([]byte{0, 0, r.Byte(), r.Byte(), 0, r.Byte(), r.Byte()})
		}
		t = 1
	}
	fl := byte(0)
	hl := byte(11)
	if r.Intn(4) == 0 {
		fl = r.Byte()
		if fl&0x20 != 0 {
			hl = 16
		}
	}
	p := vxFrameBytes(r, uint16(r.Bits(16)), t, fl, 1, hl, body.b)
	switch r.Intn(14) {
	case 0, 1: // a damaged packet of the same length
		i := r.Intn(len(p))
		if i != 0 && i != 3 && i != 5 && i != 6 || r.Intn(4) == 0 {
			p[i] ^= 1 << uint(r.Intn(8))
		}
	}
	return p
}

func verifHooks() {
	log.SetOutput(io.Discard)
	vrt.Gens["VC_handleConn"] = func(r *vrt.Rand) []interface{} {
		var in []byte
		for n := r.Intn(5); n > 0; n-- {
			in = append(in, vxGenPacket(r)...)
		}
		switch r.Intn(8) {
		case 0:
			in = append(in, r.BytesN(r.Intn(30))...)
		case 1:
			if len(in) > 0 {
				in = in[:r.Intn(len(in))]
			}
		}
		ttl := []time.Duration{0, time.Millisecond, 3 * time.Millisecond}[r.Intn(3)]
		return []interface{}{in, r.Intn(2) == 0, r.Intn(4) == 0, ttl}
	}
	vrt.TypeGens[reflect.TypeOf(egts.RecordDataSet{})] = func(r *vrt.Rand) interface{} {
		var s egts.RecordDataSet
		n := r.Intn(4)
		if r.Intn(50) == 0 {
			n = 9000 + r.Intn(3000)
		}
		for ; n > 0; n-- {
			s = append(s, egts.RecordData{SubrecordType: 0, SubrecordLength: 3,
				SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: uint16(r.Bits(16)), RecordStatus: r.Byte()}})
		}
		return s
	}
}
