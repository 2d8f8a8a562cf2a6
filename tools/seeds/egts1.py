def T(body, imports='"testing"'):
    return 'package egts\n\nimport (\n\t%s\n)\n\n%s\n' % (imports.replace(' ', '\n\t'), body)
B = 'libs/egts/'
SEEDS = [
dict(id='c04-event-time-order', property='C04', pkg='libs/egts',
     edits=[(B+'service_data_records.go', """			event := make([]byte, 4)
""", """			event := make([]byte, 4)
			if flags&0x05 == 0x04 {
				sdr.Time = 1
			}
"""), (B+'service_data_records.go', """		if sdr.TimeFieldExists == "1" {
			tm := make([]byte, 4)
""", """		if sdr.TimeFieldExists == "1" && sdr.Time != 0 {
			sdr.Time = sdr.EventIdentifier
			tm := make([]byte, 4)
			if _, err := io.ReadFull(buf, tm); err != nil {
				return err
			}
			sdr.EventIdentifier = binary.LittleEndian.Uint32(tm)
		} else if sdr.TimeFieldExists == "1" {
			tm := make([]byte, 4)
""")],
     test=T('''
func TestDemoRecordFields(t *testing.T) {
	var s ServiceDataSet
	if err := s.Decode([]byte{0, 0, 7, 0, 6, 1, 0, 0, 0, 2, 0, 0, 0, 2, 2}); err != nil {
		t.Fatal(err)
	}
	if s[0].EventIdentifier != 1 || s[0].Time != 2 {
		t.Fatal("event and time exchanged:", s[0].EventIdentifier, s[0].Time)
	}
}
'''), needs='a record that carries an event identifier and a time but no object identifier', breaks='event identifier and time of the record are exchanged on decoding'),

dict(id='c06-speed-bits', property='C06', pkg='libs/egts',
     edits=[(B+'egts_sr_pos_data.go', 'strconv.ParseUint(speedBits[2:], 2, 16)', 'strconv.ParseUint(speedBits[3:], 2, 16)')],
     test=T('''
func TestDemoSpeed(t *testing.T) {
	for _, v := range []uint16{100, 8000, 8192, 9000, 16383} {
		b := make([]byte, 21)
		b[13], b[14] = byte(v), byte(v>>8)
		var e SrPosData
		if err := e.Decode(b); err != nil {
			t.Fatal(err)
		}
		if e.Speed != v/10 {
			t.Fatal("speed", v, e.Speed)
		}
	}
}
'''), needs='a speed of 819.2 km/h or more', breaks='the highest of the 14 speed bits is dropped on decoding'),

dict(id='c02-crc16-short-circuit', property='C02', pkg='libs/egts',
     edits=[(B+'crc.go', """			if crc&0x8000 != 0 {
				crc = (crc << 1) ^ 0x1021
			} else {
				crc = crc << 1
			}
""", """			if crc&0x8000 == 0 {
				crc = crc << 1
				continue
			}
			if crc == 0x8000 {
				crc = 0x1020
				continue
			}
			crc = (crc << 1) ^ 0x1021
""")],
     test=T('''
func vx(data []byte) uint16 {
	crc := 0xFFFF
	for _, b := range data {
		crc ^= int(b) << 8
		for i := 0; i < 8; i++ {
			crc <<= 1
			if crc&0x10000 != 0 {
				crc ^= 0x11021
			}
		}
	}
	return uint16(crc)
}

func TestDemoCrc(t *testing.T) {
	for i := 0; i < 1<<24; i += 7 {
		b := []byte{byte(i), byte(i >> 8), byte(i >> 16)}
		if crc16(b) != vx(b) {
			t.Fatalf("crc16 of %x", b)
		}
	}
}
'''), needs='a byte string for which the shift register reaches exactly 0x8000', breaks='crc16 differs from CRC-16/CCITT-FALSE for about one in 8000 inputs'),

dict(id='c03-route-header-order', property='C03', pkg='libs/egts',
     edits=[(B+'egts_pkg.go', """		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
""", """		peer := tmpIntBuf
"""), (B+'egts_pkg.go', """		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
""", """		p.PeerAddress, p.RecipientAddress = binary.LittleEndian.Uint16(peer), binary.LittleEndian.Uint16(tmpIntBuf)
""")],
     test=T('''
func TestDemoRoute(t *testing.T) {
	p := Package{ProtocolVersion: 1, Prefix: "00", Route: "1", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketIdentifier: 1, PacketType: 0,
		PeerAddress: 1, RecipientAddress: 2, TimeToLive: 3, ServicesFrameData: &PtResponse{ResponsePacketID: 1}}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var d Package
	if _, err := d.Decode(b); err != nil {
		t.Fatal(err)
	}
	if d.PeerAddress != 1 || d.RecipientAddress != 2 || d.TimeToLive != 3 {
		t.Fatal(d.PeerAddress, d.RecipientAddress, d.TimeToLive)
	}
}
'''), needs='a packet with a route whose two addresses differ', breaks='the sender address is read from a buffer that has been overwritten with the recipient address'),

dict(id='c05-type20-length', property='C05', pkg='libs/egts',
     edits=[(B+'record_data.go', 'rd.SubrecordLength == uint16(5)', 'byte(rd.SubrecordLength) == byte(5)')],
     test=T('''
func TestDemoType20(t *testing.T) {
	b := append([]byte{20, 5, 1}, make([]byte, 261)...)
	var rds RecordDataSet
	if err := rds.Decode(b); err == nil {
		t.Fatal("an acceleration section of 261 bytes was read as terminal state")
	}
}
'''), needs='a type 20 subrecord whose length is 5 modulo 256', breaks='an acceleration section is misread as terminal state'),

dict(id='c07-adsens-pair', property='C07', pkg='libs/egts',
     edits=[(B+'egts_sr_ad_sensors_data.go', """	e.DigitalInputsOctetExists7 = flagBits[1:2]
	e.DigitalInputsOctetExists6 = flagBits[2:3]
""", """	e.DigitalInputsOctetExists6 = flagBits[1:2]
	e.DigitalInputsOctetExists7 = flagBits[2:3]
""")],
     test=T('''
func TestDemoAdSensors(t *testing.T) {
	var e SrAdSensorsData
	if err := e.Decode([]byte{0x20, 0, 0, 9}); err != nil {
		t.Fatal(err)
	}
	if e.AdditionalDigitalInputsOctet6 != 9 || e.AdditionalDigitalInputsOctet7 != 0 {
		t.Fatal(e.AdditionalDigitalInputsOctet6, e.AdditionalDigitalInputsOctet7)
	}
}
'''), needs='exactly one of the additional octets 6 and 7 present', breaks='the presence flags of octets 6 and 7 are exchanged on decoding'),

dict(id='c08-password-spaces', property='C08', pkg='libs/egts',
     edits=[(B+'egts_sr_auth_info.go', """	e.UserPassword = strings.TrimSuffix(tmpStr, string(sep))
""", """	e.UserPassword = strings.TrimSpace(strings.TrimSuffix(tmpStr, string(sep)))
""")],
     test=T('''
func TestDemoAuth(t *testing.T) {
	var e SrAuthInfo
	if err := e.Decode([]byte("user\\x00 secret\\x00")); err != nil {
		t.Fatal(err)
	}
	if e.UserPassword != " secret" {
		t.Fatalf("%q", e.UserPassword)
	}
}
'''), needs='a password that begins or ends with white space', breaks='white space at the ends of the password is lost'),

dict(id='c09-missing-checksum', property='C09', pkg='libs/egts',
     edits=[(B+'egts_pkg.go', """	if p.HeaderCheckSum, err = buf.ReadByte(); err != nil {
		return egtsPcIncHeaderform,""", """	if p.HeaderCheckSum, err = buf.ReadByte(); err != nil && p.Route != "1" {
		return egtsPcIncHeaderform,""")],
     test=T('''
func TestDemoCut(t *testing.T) {
	h := []byte{1, 0, 0x20, 15, 0, 0, 0, 1, 0, 0, 1, 0, 2, 0, 3}
	var d Package
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic", r)
		}
	}()
	code, err := d.Decode(h)
	if err == nil || code != 131 {
		t.Fatal("header without checksum:", code, err)
	}
}
'''), needs='a routed packet that ends right before its header checksum', breaks='the missing checksum is read as zero and the header is judged by it'),

dict(id='c10-pos-altitude-sign', property='C10', pkg='libs/egts',
     edits=[(B+'egts_sr_pos_data.go', """	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
""", """	if e.ALTE == "1" {
		speed = speed | uint16(e.AltitudeSign)<<14 //14 бит
	}
""")],
     test=T('''
func TestDemoAltitudeSign(t *testing.T) {
	for _, alte := range []string{"0", "1"} {
		e := SrPosData{NavigationTime: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), ALTE: alte, LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "0", VLD: "1", AltitudeSign: 1}
		b, err := e.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var d SrPosData
		if err := d.Decode(b); err != nil {
			t.Fatal(err)
		}
		if d.AltitudeSign != 1 {
			t.Fatal("altitude sign lost", alte)
		}
	}
}
''', '"testing" "time"'), needs='a position with the altitude sign set but without the altitude field', breaks='the altitude sign bit does not survive encoding'),

dict(id='c11-subrecord-type', property='C11', pkg='libs/egts',
     edits=[(B+'record_data.go', """				rd.SubrecordType = SrAbsAnSensDataType
""", """				rd.SubrecordType = SrAbsCntrDataType
""")],
     test=T('''
func TestDemoType(t *testing.T) {
	r := RecordDataSet{{SubrecordData: &SrAbsAnSensData{SensorNumber: 1, Value: 2}}}
	b, err := r.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if b[0] != 24 {
		t.Fatal("type", b[0])
	}
}
'''), needs='an absolute analogue sensor subrecord whose type is left open', breaks='it is written with the type code of an absolute counter'),

dict(id='c11-zero-route', property='C11', pkg='libs/egts',
     edits=[(B+'egts_pkg.go', """	if p.Route == "1" {
		if err = binary.Write(buf, binary.LittleEndian, p.PeerAddress); err != nil {""", """	if p.Route == "1" && (p.PeerAddress|p.RecipientAddress != 0 || p.TimeToLive != 0) {
		if err = binary.Write(buf, binary.LittleEndian, p.PeerAddress); err != nil {""")],
     test=T('''
func TestDemoRoute(t *testing.T) {
	p := Package{Prefix: "00", Route: "1", EncryptionAlg: "00", Compression: "0", Priority: "00"}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 16 || b[3] != 16 {
		t.Fatal("header", b)
	}
}
'''), needs='a routed packet whose addresses and time to live are all zero', breaks='the route fields are left out although flag and header length announce them'),

dict(id='c12-response-error-dropped', property='C12', pkg='libs/egts',
     edits=[(B+'service_data_records.go', """		rd, err := sdr.RecordDataSet.Encode()
		if err != nil {
			return result, err
		}
""", """		rd, err := sdr.RecordDataSet.Encode()
		if err != nil && len(rd) == 0 && len(sdr.RecordDataSet) < 2 {
			return result, err
		}
""")],
     test=T('''
func TestDemoErrorKept(t *testing.T) {
	s := ServiceDataSet{{SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0",
		RecordDataSet: RecordDataSet{{SubrecordData: &SrResultCode{}}, {SubrecordData: &SrStateData{NMS: "x"}}}}}
	if b, err := s.Encode(); err == nil {
		t.Fatal("encoded although a section cannot be:", b)
	}
}
'''), needs='a record with two or more subrecords of which one cannot be encoded', breaks='the error is dropped and an empty record is written'),

dict(id='c13-term-imsi-pad', property='C13', pkg='libs/egts',
     edits=[(B+'egts_sr_term_identity.go', """			tmp := make([]byte, 16-wbb)
""", """			tmp := make([]byte, 16-wbb&^1)
""")],
     test=T('''
func TestDemoImsi(t *testing.T) {
	for n := 0; n <= 16; n++ {
		e := SrTermIdentity{MNE: "0", BSE: "1", NIDE: "0", SSRA: "0", LNGCE: "0", IMSIE: "1", IMEIE: "0", HDIDE: "0", IMSI: "1234567890123456"[:n], BufferSize: 1024}
		b, err := e.Encode()
		if err != nil {
			t.Fatal(err)
		}
		if len(b) != 4+1+16+2 {
			t.Fatal("IMSI of", n, "digits:", len(b), "bytes")
		}
	}
}
'''), needs='an IMSI with an odd number of digits below 16', breaks='one padding byte too many, which shifts all following fields'),

dict(id='c01-description-loop', property='C01', pkg='libs/egts',
     edits=[(B+'egts_sr_dispatcher_identity.go', """	d.Description = buf.String()
""", """	d.Description = buf.String()
	for d.Description != "" && d.Description[len(d.Description)-1] == 0 {
		d.Description = string(bytes.TrimRight([]byte(d.Description), " \\t"))
	}
""")],
     test=T('''
func TestDemoReturns(t *testing.T) {
	done := make(chan bool)
	go func() {
		var d SrDispatcherIdentity
		d.Decode([]byte{0, 1, 0, 0, 0, 'a', 0})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("decoding does not return")
	}
}
''', '"testing" "time"'), needs='a dispatcher description that ends in a zero byte', breaks='decoding loops for ever'),
]
