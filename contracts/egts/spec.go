//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

// ---- vocabulary of the specifications: little-endian fields read from / written to a byte string

// vx_fieldReader reads consecutive little-endian fields; ok turns false (and stays false) at the first
// missing byte, from where on the values read mean nothing.
type vx_fieldReader struct {
	b  []byte
	p  int
	ok bool
}

func vx_fields(b []byte) *vx_fieldReader { return &vx_fieldReader{b: b, ok: true} }

func (r *vx_fieldReader) take(n int) int {
	at := r.p
	r.p = at + n
	r.ok = r.p <= len(r.b)
	return at
}

func (r *vx_fieldReader) at(i int) byte { return vrt.At(r.b, i) }

func (r *vx_fieldReader) u8() uint8 { return r.at(r.take(1)) }

func (r *vx_fieldReader) u16() uint16 {
	at := r.take(2)
	return uint16(r.at(at)) | uint16(r.at(at+1))<<8
}

func (r *vx_fieldReader) u24() uint32 {
	at := r.take(3)
	return uint32(r.at(at)) | uint32(r.at(at+1))<<8 | uint32(r.at(at+2))<<16
}

func (r *vx_fieldReader) u32() uint32 {
	at := r.take(4)
	return uint32(r.at(at)) | uint32(r.at(at+1))<<8 | uint32(r.at(at+2))<<16 | uint32(r.at(at+3))<<24
}

func (r *vx_fieldReader) bytes(n int) []byte { return vrt.Sub(r.b, r.take(n), n) }

// padded: the next n bytes are the text s, then zeros
func (r *vx_fieldReader) padded(n int, s string) bool {
	at := r.take(n)
	same := true
	for i := 0; i < n; i++ {
		want := byte(0)
		if i < len(s) {
			want = s[i]
		}
		same = same && r.at(at+i) == want
	}
	return same
}

// bit is the i-th bit of b as the "0"/"1" string the package stores.
func vx_bit(b byte, i uint) string {
	if (b>>i)&1 == 1 {
		return "1"
	}
	return "0"
}

func vx_bit2(b byte, i uint) string { return vx_bit(b, i+1) + vx_bit(b, i) }

func vx_isBit(s string) bool  { return s == "0" || s == "1" }
func vx_isBit2(s string) bool { return s == "00" || s == "01" || s == "10" || s == "11" }

// val of a one-bit flag
func vx_val(s string) byte {
	if s == "1" {
		return 1
	}
	return 0
}

func vx_val2(s string) byte {
	if s == "11" {
		return 3
	}
	if s == "10" {
		return 2
	}
	if s == "01" {
		return 1
	}
	return 0
}

// vx_fieldWriter appends little-endian fields.
type vx_fieldWriter struct{ b []byte }

func (w *vx_fieldWriter) u8(v uint8) { w.b = append(w.b, v) }
func (w *vx_fieldWriter) u16(v uint16) {
	w.b = append(w.b, byte(v), byte(v>>8))
}
func (w *vx_fieldWriter) u24(v uint32) {
	w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16))
}
func (w *vx_fieldWriter) u32(v uint32) {
	w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func (w *vx_fieldWriter) raw(v []byte) { w.b = append(w.b, v...) }
