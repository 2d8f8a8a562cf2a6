//go:build verif

package egts

import "github.com/ElectroUnion/egts-gate/libs/vrt"

// ---- EGTS_PT_RESPONSE

func VC_PtResponse_Decode(content []byte) {
	vrt.Safety("ptresp.dec.safe")
	vrt.Abstract("(*egts.ServiceDataSet).Decode")
	var e PtResponse
	err := e.Decode(content)
	r := vx_fields(content)
	id, pr := r.u16(), r.u8()
	vrt.Ensures("ptresp.dec.trunc", err != nil || r.ok)
	if !r.ok {
		return
	}
	if len(content) == 3 {
		vrt.Ensures("ptresp.dec.accept", err == nil)
		vrt.Ensures("ptresp.dec.nosdr", e.SDR == nil)
	} else {
		sdr := ServiceDataSet{}
		serr := sdr.Decode(vrt.Sub(content, 3, len(content)-3))
		vrt.Ensures("ptresp.dec.bad", err != nil || serr == nil)
		vrt.Ensures("ptresp.dec.accept", err == nil || serr != nil)
		if err == nil {
			s, ok := e.SDR.(*ServiceDataSet)
			vrt.Ensures("ptresp.dec.sdr", ok && vrt.Same(*s, sdr))
		}
	}
	vrt.Cover("ptresp.dec.ok", err == nil)
	if err == nil {
		vrt.Ensures("ptresp.dec.values", e.ResponsePacketID == id && e.ProcessingResult == pr)
	}
}

func VC_PtResponse_Encode(id uint16, pr uint8, sdr *ServiceDataSet, with bool) {
	vrt.Safety("ptresp.enc.safe")
	vrt.Pure("(*egts.ServiceDataSet).Encode")
	e := &PtResponse{ResponsePacketID: id, ProcessingResult: pr}
	w := &vx_fieldWriter{}
	w.u16(id)
	w.u8(pr)
	var serr error
	if with {
		vrt.Requires(sdr != nil)
		var sb []byte
		sb, serr = sdr.Encode()
		w.raw(sb)
		e.SDR = sdr
	}
	in := *e
	b, err := e.Encode()
	vrt.Ensures("ptresp.enc.bad", err != nil || serr == nil)
	vrt.Ensures("ptresp.enc.accept", err == nil || serr != nil)
	vrt.Cover("ptresp.enc.ok", err == nil && with && len(b) > 20)
	if err == nil {
		vrt.Ensures("ptresp.enc.bytes", vrt.EqBytes(b, w.b))
		vrt.Ensures("ptresp.len", len(b) > 65535 || int(e.Length()) == len(b))
	}
	vrt.Ensures("ptresp.enc.pure", vrt.Same(*e, in))
}

// ---- transport packet

func VC_Package_Decode(content []byte) {
	vrt.Safety("pkg.dec.safe")
	vrt.Pure("egts.crc8 egts.crc16")
	vrt.Abstract("(*egts.ServiceDataSet).Decode (*egts.PtResponse).Decode")
	var p Package
	code, err := p.Decode(content)

	r := vx_fields(content)
	prv, skid, fl, hl, he := r.u8(), r.u8(), r.u8(), r.u8(), r.u8()
	fdl, pid, pt := r.u16(), r.u16(), r.u8()
	var pra, rca uint16
	var ttl uint8
	if fl>>5&1 == 1 {
		pra, rca, ttl = r.u16(), r.u16(), r.u8()
	}
	hcs := r.u8()

	vrt.Ensures("pkg.dec.code0", (err == nil) == (code == 0))
	vrt.Cover("pkg.dec.ok", err == nil)
	vrt.Ensures("pkg.dec.hdr.trunc", r.ok || err != nil && code == 131)
	if !r.ok {
		return
	}
	vrt.Ensures("pkg.dec.hdr.hl", int(hl) == r.p || err != nil && code == 131)
	if int(hl) != r.p {
		return
	}
	vrt.Ensures("pkg.dec.hdr.values", p.ProtocolVersion == prv && p.SecurityKeyID == skid && p.HeaderLength == hl && p.HeaderEncoding == he &&
		p.FrameDataLength == fdl && p.PacketIdentifier == pid && p.PacketType == pt && p.HeaderCheckSum == hcs)
	vrt.Ensures("pkg.dec.hdr.flags", p.Prefix == vx_bit2(fl, 6) && p.Route == vx_bit(fl, 5) && p.EncryptionAlg == vx_bit2(fl, 3) &&
		p.Compression == vx_bit(fl, 2) && p.Priority == vx_bit2(fl, 0))
	vrt.Ensures("pkg.dec.hdr.route", p.PeerAddress == pra && p.RecipientAddress == rca && p.TimeToLive == ttl)

	crcOK := crc8(vrt.Sub(content, 0, r.p-1)) == hcs
	vrt.Ensures("pkg.dec.hdr.crc", crcOK || err != nil && code == 137)
	if !crcOK {
		return
	}
	at := r.p
	n := int(fdl)
	cut := len(content)-at < n
	vrt.Ensures("pkg.dec.body.trunc", !cut || err != nil && code == 132)
	if cut {
		return
	}
	body := vrt.Sub(content, at, n)
	unknown := pt > 1
	vrt.Ensures("pkg.dec.type", !unknown || err != nil && code == 133)
	if unknown {
		return
	}
	cut = len(content)-at-n < 2
	vrt.Ensures("pkg.dec.crc.trunc", !cut || err != nil)
	if cut {
		return
	}
	sum := uint16(vrt.At(content, at+n)) | uint16(vrt.At(content, at+n+1))<<8
	sumOK := crc16(body) == sum
	vrt.Ensures("pkg.dec.body.crc", sumOK || err != nil)

	var want BinaryData
	if pt == 1 {
		want = &ServiceDataSet{}
	} else {
		want = &PtResponse{}
	}
	berr := want.Decode(body)
	vrt.Ensures("pkg.dec.body.bad", berr == nil || err != nil)
	vrt.Ensures("pkg.dec.body.crc.code", sumOK || berr != nil || code == 138)
	vrt.Ensures("pkg.dec.accept", err == nil || berr != nil || !sumOK)
	if err == nil {
		vrt.Ensures("pkg.dec.body.values", vrt.Same(p.ServicesFrameData, want))
		vrt.Ensures("pkg.dec.body.sum", p.ServicesFrameDataCheckSum == sum)
	}
}

func VC_Package_Encode(p *Package, sds *ServiceDataSet, resp *PtResponse, body int) {
	vrt.Safety("pkg.enc.safe")
	vrt.Pure("egts.crc8 egts.crc16 (*egts.ServiceDataSet).Encode (*egts.PtResponse).Encode")
	vrt.Requires(p != nil && sds != nil && resp != nil)
	vrt.Requires(vx_isBit2(p.Prefix))
	vrt.Requires(vx_isBit(p.Route))
	vrt.Requires(vx_isBit2(p.EncryptionAlg))
	vrt.Requires(vx_isBit(p.Compression))
	vrt.Requires(vx_isBit2(p.Priority))
	p.ServicesFrameData = nil
	var sb []byte
	var serr error
	if body == 1 {
		p.ServicesFrameData = sds
		sb, serr = sds.Encode()
	}
	if body == 2 {
		p.ServicesFrameData = resp
		sb, serr = resp.Encode()
	}
	hl := byte(11)
	if p.Route == "1" {
		hl = 16
	}
	// a header length given by the caller has to be the real one
	vrt.Requires(p.HeaderLength == 0 || p.HeaderLength == hl)
	in := *p
	b, err := p.Encode()
	big := len(sb) > 65535
	vrt.Ensures("pkg.enc.bad", err != nil || serr == nil)
	vrt.Ensures("pkg.enc.big", err != nil || !big)
	vrt.Ensures("pkg.enc.accept", err == nil || serr != nil || big)
	vrt.Cover("pkg.enc.ok", err == nil && len(sb) > 20)
	if err != nil || serr != nil || big {
		return
	}
	n := uint16(len(sb))
	w := &vx_fieldWriter{}
	w.u8(in.ProtocolVersion)
	w.u8(in.SecurityKeyID)
	w.u8(vx_val2(in.Prefix)<<6 | vx_val(in.Route)<<5 | vx_val2(in.EncryptionAlg)<<3 | vx_val(in.Compression)<<2 | vx_val2(in.Priority))
	w.u8(hl)
	w.u8(in.HeaderEncoding)
	w.u16(n)
	w.u16(in.PacketIdentifier)
	w.u8(in.PacketType)
	if in.Route == "1" {
		w.u16(in.PeerAddress)
		w.u16(in.RecipientAddress)
		w.u8(in.TimeToLive)
	}
	vrt.Ensures("pkg.enc.hdr", len(b) >= int(hl) && vrt.EqBytes(vrt.Sub(b, 0, int(hl)-1), w.b))
	vrt.Ensures("pkg.enc.hcs", vrt.At(b, int(hl)-1) == crc8(w.b))
	if n == 0 {
		vrt.Ensures("pkg.enc.empty", len(b) == int(hl))
	} else {
		at := int(hl)
		vrt.Ensures("pkg.enc.size", len(b) == at+len(sb)+2)
		vrt.Ensures("pkg.enc.body", vrt.EqBytes(vrt.Sub(b, at, len(sb)), sb))
		vrt.Ensures("pkg.enc.sum", uint16(vrt.At(b, at+len(sb)))|uint16(vrt.At(b, at+len(sb)+1))<<8 == crc16(sb))
	}
}
