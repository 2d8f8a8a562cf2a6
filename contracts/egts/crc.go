//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

// ---- specification: one byte of a most-significant-bit-first CRC (bit-serial definition)

func vx_specCrc8Byte(crc, b byte) byte {
	for i := 7; i >= 0; i-- {
		in := (b >> uint(i)) & 1
		top := (crc >> 7) & 1
		crc = crc << 1
		if in != top {
			crc = crc ^ 0x31
		}
	}
	return crc
}

func vx_specCrc16Byte(crc uint16, b byte) uint16 {
	for i := 7; i >= 0; i-- {
		in := uint16(b>>uint(i)) & 1
		top := (crc >> 15) & 1
		crc = crc << 1
		if in != top {
			crc = crc ^ 0x1021
		}
	}
	return crc
}

type vx_ghostCrc8 struct {
	data []byte
	pos  int
	crc  byte
}

func (g *vx_ghostCrc8) More() bool { return g.pos < len(g.data) }
func (g *vx_ghostCrc8) Step() {
	g.crc = vx_specCrc8Byte(g.crc, g.data[g.pos])
	g.pos++
}

type vx_ghostCrc16 struct {
	data []byte
	pos  int
	crc  uint16
}

func (g *vx_ghostCrc16) More() bool { return g.pos < len(g.data) }
func (g *vx_ghostCrc16) Step() {
	g.crc = vx_specCrc16Byte(g.crc, g.data[g.pos])
	g.pos++
}

func VC_crc8(data []byte) {
	vrt.Safety("crc8.safe")
	g := &vx_ghostCrc8{data: data, crc: 0xFF}
	vrt.Loop("crc8.value", g)
	r := crc8(data)
	vrt.Finish(g)
	vrt.Ensures("crc8.value", r == g.crc)
}

func VC_crc16(data []byte) {
	vrt.Safety("crc16.safe")
	g := &vx_ghostCrc16{data: data, crc: 0xFFFF}
	vrt.Loop("crc16.value", g)
	r := crc16(data)
	vrt.Finish(g)
	vrt.Ensures("crc16.value", r == g.crc)
}

// The checksums detect the change of any one byte: two registers that differ still differ after the
// same byte, and one register fed with two different bytes ends in different states.
func VC_crc_detect(c8, d8 byte, c16, d16 uint16, b, d byte) {
	vrt.Safety("crc8.safe")
	if c8 != d8 {
		vrt.Ensures("crc8.detect", vx_specCrc8Byte(c8, b) != vx_specCrc8Byte(d8, b))
	}
	if c16 != d16 {
		vrt.Ensures("crc16.detect", vx_specCrc16Byte(c16, b) != vx_specCrc16Byte(d16, b))
	}
	if b != d {
		vrt.Ensures("crc8.detect", vx_specCrc8Byte(c8, b) != vx_specCrc8Byte(c8, d))
		vrt.Ensures("crc16.detect", vx_specCrc16Byte(c16, b) != vx_specCrc16Byte(c16, d))
	}
}
