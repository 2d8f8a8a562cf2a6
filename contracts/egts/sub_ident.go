//go:build verif

package egts

import (
	"bytes"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- EGTS_SR_RECORD_RESPONSE

func VC_SrResponse_Decode(content []byte) {
	vrt.Safety("srresp.dec.safe")
	vrt.Pure("(*egts.ServiceDataSet).Decode")
	var e SrResponse
	err := e.Decode(content)
	r := vx_fields(content)
	crn, st := r.u16(), r.u8()
	vrt.Ensures("srresp.dec.trunc", err != nil || r.ok)
	vrt.Cover("srresp.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("srresp.dec.values", e.ConfirmedRecordNumber == crn && e.RecordStatus == st)
	}
}

func VC_SrResponse_exact(crn uint16, st uint8) {
	vrt.Safety("srresp.dec.safe")
	var e SrResponse
	err := e.Decode([]byte{byte(crn), byte(crn >> 8), st})
	vrt.Ensures("srresp.dec.accept", err == nil)
	vrt.Ensures("srresp.dec.values", e.ConfirmedRecordNumber == crn && e.RecordStatus == st)
}

func VC_SrResponse_Encode(crn uint16, st uint8) {
	vrt.Safety("srresp.enc.safe")
	e := &SrResponse{ConfirmedRecordNumber: crn, RecordStatus: st}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("srresp.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("srresp.enc.values", r.u16() == crn && r.u8() == st)
	vrt.Ensures("srresp.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("srresp.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("srresp.len", int(e.Length()) == len(b))
	var d SrResponse
	err = d.Decode(b)
	vrt.Ensures("srresp.rt.dec", err == nil)
	vrt.Ensures("srresp.rt.values", d.ConfirmedRecordNumber == crn && d.RecordStatus == st)
}

// ---- EGTS_SR_RESULT_CODE

func VC_SrResultCode_Decode(content []byte) {
	vrt.Safety("rescode.dec.safe")
	var e SrResultCode
	err := e.Decode(content)
	r := vx_fields(content)
	rc := r.u8()
	vrt.Ensures("rescode.dec.trunc", err != nil || r.ok)
	vrt.Ensures("rescode.dec.accept", err == nil || !r.ok)
	vrt.Cover("rescode.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("rescode.dec.values", e.ResultCode == rc)
	}
}

func VC_SrResultCode_Encode(rc uint8) {
	vrt.Safety("rescode.enc.safe")
	e := &SrResultCode{ResultCode: rc}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("rescode.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("rescode.enc.values", r.u8() == rc)
	vrt.Ensures("rescode.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("rescode.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("rescode.len", int(e.Length()) == len(b))
	var d SrResultCode
	err = d.Decode(b)
	vrt.Ensures("rescode.rt.dec", err == nil)
	vrt.Ensures("rescode.rt.values", d.ResultCode == rc)
}

// ---- EGTS_SR_DISPATCHER_IDENTITY

func VC_SrDispatcherIdentity_Decode(content []byte) {
	vrt.Safety("disp.dec.safe")
	var e SrDispatcherIdentity
	err := e.Decode(content)
	r := vx_fields(content)
	dt, did := r.u8(), r.u32()
	vrt.Ensures("disp.dec.trunc", err != nil || r.ok)
	vrt.Ensures("disp.dec.accept", err == nil || !r.ok)
	vrt.Cover("disp.dec.ok", err == nil && len(content) > 9)
	if err == nil {
		vrt.Ensures("disp.dec.values", e.DispatcherType == dt && e.DispatcherID == did)
		vrt.Ensures("disp.dec.text", e.Description == string(content[5:]))
	}
}

func VC_SrDispatcherIdentity_Encode(dt uint8, did uint32, text string) {
	vrt.Safety("disp.enc.safe")
	vrt.Requires(len(text) <= 60000)
	e := &SrDispatcherIdentity{DispatcherType: dt, DispatcherID: did, Description: text}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("disp.enc.accept", err == nil)
	if err != nil {
		return
	}
	r := vx_fields(b)
	vrt.Ensures("disp.enc.values", r.u8() == dt && r.u32() == did)
	vrt.Ensures("disp.enc.text", r.ok && string(b[5:]) == text)
	vrt.Ensures("disp.enc.len", len(b) == 5+len(text))
	vrt.Ensures("disp.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("disp.len", int(e.Length()) == len(b))
	var d SrDispatcherIdentity
	err = d.Decode(b)
	vrt.Ensures("disp.rt.dec", err == nil)
	vrt.Ensures("disp.rt.values", d.DispatcherType == dt && d.DispatcherID == did && d.Description == text)
}

// ---- EGTS_SR_AUTH_INFO: zero-terminated strings

func VC_SrAuthInfo_Decode(content []byte) {
	vrt.Safety("auth.dec.safe")
	var e SrAuthInfo
	err := e.Decode(content)
	ok := false
	var user, pass, seq string
	i := bytes.IndexByte(content, 0)
	if i >= 0 {
		user = string(content[:i])
		rest := content[i+1:]
		j := bytes.IndexByte(rest, 0)
		if j >= 0 {
			pass = string(rest[:j])
			rest = rest[j+1:]
			ok = true
			if len(rest) > 0 {
				k := bytes.IndexByte(rest, 0)
				ok = k >= 0
				if ok {
					seq = string(rest[:k])
				}
			}
		}
	}
	vrt.Ensures("auth.dec.trunc", err != nil || ok)
	vrt.Ensures("auth.dec.accept", err == nil || !ok)
	vrt.Cover("auth.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("auth.dec.user", e.UserName == user)
		vrt.Ensures("auth.dec.password", e.UserPassword == pass)
		vrt.Ensures("auth.dec.sequence", e.ServerSequence == seq)
	}
}

func VC_SrAuthInfo_Encode(user, pass, seq string) {
	vrt.Safety("auth.enc.safe")
	vrt.Requires(len(user) <= 20000 && len(pass) <= 20000 && len(seq) <= 20000)
	vrt.Requires(vrt.NoByte(user, 0) && vrt.NoByte(pass, 0) && vrt.NoByte(seq, 0))
	e := &SrAuthInfo{UserName: user, UserPassword: pass, ServerSequence: seq}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("auth.enc.accept", err == nil)
	if err != nil {
		return
	}
	n := len(user) + 1 + len(pass) + 1
	if seq != "" {
		n += len(seq) + 1
	}
	vrt.Ensures("auth.enc.len", len(b) == n)
	if len(b) == n {
		p := len(user) + 1
		vrt.Ensures("auth.enc.user", string(b[:len(user)]) == user && b[len(user)] == 0)
		vrt.Ensures("auth.enc.password", string(b[p:p+len(pass)]) == pass && b[p+len(pass)] == 0)
		if seq != "" {
			q := p + len(pass) + 1
			vrt.Ensures("auth.enc.sequence", string(b[q:q+len(seq)]) == seq && b[q+len(seq)] == 0)
		}
	}
	vrt.Ensures("auth.enc.pure", vrt.Same(*e, in))
	vrt.Ensures("auth.len", int(e.Length()) == len(b))
}

// VC_SrAuthInfo_roundtrip: for strings without the terminator
func VC_SrAuthInfo_roundtrip(user, pass, seq string) {
	vrt.Safety("auth.rt.safe")
	vrt.Requires(len(user) <= 20000 && len(pass) <= 20000 && len(seq) <= 20000)
	vrt.Requires(vrt.NoByte(user, 0) && vrt.NoByte(pass, 0) && vrt.NoByte(seq, 0))
	e := &SrAuthInfo{UserName: user, UserPassword: pass, ServerSequence: seq}
	b, err := e.Encode()
	vrt.Ensures("auth.rt.enc", err == nil)
	if err != nil {
		return
	}
	var d SrAuthInfo
	err = d.Decode(b)
	vrt.Ensures("auth.rt.dec", err == nil)
	vrt.Ensures("auth.rt.values", len(d.UserName) == len(user))
	vrt.Ensures("auth.rt.values", d.UserName == user)
	vrt.Ensures("auth.rt.values", len(d.UserPassword) == len(pass))
	vrt.Ensures("auth.rt.values", d.UserPassword == pass)
	vrt.Ensures("auth.rt.values", len(d.ServerSequence) == len(seq))
	vrt.Ensures("auth.rt.values", d.ServerSequence == seq)
}

// ---- EGTS_SR_TERM_IDENTITY

func VC_SrTermIdentity_Decode(content []byte) {
	vrt.Safety("term.dec.safe")
	var e SrTermIdentity
	err := e.Decode(content)
	r := vx_fields(content)
	tid := r.u32()
	fl := r.u8()
	var hdid, bs uint16
	var imei, imsi, lngc, nid, msisdn []byte
	if fl&1 != 0 {
		hdid = r.u16()
	}
	if fl&2 != 0 {
		imei = r.bytes(15)
	}
	if fl&4 != 0 {
		imsi = r.bytes(16)
	}
	if fl&8 != 0 {
		lngc = r.bytes(3)
	}
	if fl&32 != 0 {
		nid = r.bytes(3)
	}
	if fl&64 != 0 {
		bs = r.u16()
	}
	if fl&128 != 0 {
		msisdn = r.bytes(15)
	}
	vrt.Ensures("term.dec.trunc", err != nil || r.ok)
	vrt.Ensures("term.dec.accept", err == nil || !r.ok)
	vrt.Cover("term.dec.ok", err == nil && fl == 255)
	if err != nil {
		return
	}
	vrt.Ensures("term.dec.flags", e.MNE == vx_bit(fl, 7) && e.BSE == vx_bit(fl, 6) && e.NIDE == vx_bit(fl, 5) && e.SSRA == vx_bit(fl, 4) &&
		e.LNGCE == vx_bit(fl, 3) && e.IMSIE == vx_bit(fl, 2) && e.IMEIE == vx_bit(fl, 1) && e.HDIDE == vx_bit(fl, 0))
	vrt.Ensures("term.dec.values", e.TerminalIdentifier == tid && e.HomeDispatcherIdentifier == hdid && e.BufferSize == bs)
	vrt.Ensures("term.dec.imei", e.IMEI == string(imei))
	vrt.Ensures("term.dec.imsi", e.IMSI == string(imsi))
	vrt.Ensures("term.dec.lngc", e.LanguageCode == string(lngc))
	vrt.Ensures("term.dec.nid", vrt.EqBytes(e.NetworkIdentifier, nid))
	vrt.Ensures("term.dec.msisdn", e.MobileNumber == string(msisdn))
}

func VC_SrTermIdentity_Encode(fl byte, tid uint32, hdid, bs uint16, imei, imsi, lngc, msisdn string, nid []byte) {
	vrt.Safety("term.enc.safe")
	vrt.Requires(len(imei) <= 15 && len(imsi) <= 16 && len(lngc) <= 3 && len(msisdn) <= 15 && len(nid) == 3)
	e := &SrTermIdentity{TerminalIdentifier: tid, MNE: vx_bit(fl, 7), BSE: vx_bit(fl, 6), NIDE: vx_bit(fl, 5), SSRA: vx_bit(fl, 4), LNGCE: vx_bit(fl, 3), IMSIE: vx_bit(fl, 2),
		IMEIE: vx_bit(fl, 1), HDIDE: vx_bit(fl, 0), HomeDispatcherIdentifier: hdid, IMEI: imei, IMSI: imsi, LanguageCode: lngc, NetworkIdentifier: nid, BufferSize: bs, MobileNumber: msisdn}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("term.enc.accept", err == nil)
	if err != nil {
		return
	}
	vrt.Ensures("term.len", int(e.Length()) == len(b))
	r := vx_fields(b)
	vrt.Ensures("term.enc.values", r.u32() == tid)
	vrt.Ensures("term.enc.flags", r.u8() == fl)
	if fl&1 != 0 {
		vrt.Ensures("term.enc.values", r.u16() == hdid)
	}
	if fl&2 != 0 {
		vrt.Ensures("term.enc.imei", r.padded(15, imei))
	}
	if fl&4 != 0 {
		vrt.Ensures("term.enc.imsi", r.padded(16, imsi))
	}
	if fl&8 != 0 {
		vrt.Ensures("term.enc.lngc", r.padded(3, lngc))
	}
	if fl&32 != 0 {
		vrt.Ensures("term.enc.nid", r.padded(3, string(nid)))
	}
	if fl&64 != 0 {
		vrt.Ensures("term.enc.values", r.u16() == bs)
	}
	if fl&128 != 0 {
		vrt.Ensures("term.enc.msisdn", r.padded(15, msisdn))
	}
	vrt.Ensures("term.enc.len", r.ok && r.p == len(b))
	vrt.Ensures("term.enc.pure", vrt.Same(*e, in))
}

// VC_SrTermIdentity_roundtrip: with texts that fill their field
func VC_SrTermIdentity_roundtrip(fl byte, tid uint32, hdid, bs uint16, imei, imsi, lngc, msisdn string, nid []byte) {
	vrt.Safety("term.rt.safe")
	vrt.Requires(len(imei) == 15 && len(imsi) == 16 && len(lngc) == 3 && len(msisdn) == 15 && len(nid) == 3)
	e := &SrTermIdentity{TerminalIdentifier: tid, MNE: vx_bit(fl, 7), BSE: vx_bit(fl, 6), NIDE: vx_bit(fl, 5), SSRA: vx_bit(fl, 4), LNGCE: vx_bit(fl, 3), IMSIE: vx_bit(fl, 2),
		IMEIE: vx_bit(fl, 1), HDIDE: vx_bit(fl, 0), HomeDispatcherIdentifier: hdid, IMEI: imei, IMSI: imsi, LanguageCode: lngc, NetworkIdentifier: nid, BufferSize: bs, MobileNumber: msisdn}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("term.rt.enc", err == nil)
	if err != nil {
		return
	}
	var d SrTermIdentity
	err = d.Decode(b)
	vrt.Ensures("term.rt.dec", err == nil)
	vrt.Ensures("term.rt.flags", d.MNE == in.MNE && d.BSE == in.BSE && d.NIDE == in.NIDE && d.SSRA == in.SSRA && d.LNGCE == in.LNGCE && d.IMSIE == in.IMSIE && d.IMEIE == in.IMEIE && d.HDIDE == in.HDIDE)
	vrt.Ensures("term.rt.values", d.TerminalIdentifier == tid && (fl&1 == 0 || d.HomeDispatcherIdentifier == hdid) && (fl&64 == 0 || d.BufferSize == bs))
	vrt.Ensures("term.rt.imei", fl&2 == 0 || d.IMEI == imei)
	vrt.Ensures("term.rt.imsi", fl&4 == 0 || d.IMSI == imsi)
	vrt.Ensures("term.rt.lngc", fl&8 == 0 || d.LanguageCode == lngc)
	vrt.Ensures("term.rt.nid", fl&32 == 0 || vrt.EqBytes(d.NetworkIdentifier, nid))
	vrt.Ensures("term.rt.msisdn", fl&128 == 0 || d.MobileNumber == msisdn)
}
