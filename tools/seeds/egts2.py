def T(body, imports='"testing"'):
    return 'package egts\n\nimport (\n\t%s\n)\n\n%s\n' % (imports.replace(' ', '\n\t'), body)
B = 'libs/egts/'
SEEDS = [
dict(id='c01-accel-short', property='C01', pkg='libs/egts',
     edits=[(B+'record_data.go', 'rd.SubrecordType, rd.SubrecordLength, subRecordBytes)\n			}\n		case SrStateDataType', 'rd.SubrecordType, rd.SubrecordLength, subRecordBytes[:4])\n			}\n		case SrStateDataType')],
     test=T('''
func TestDemoShortAccel(t *testing.T) {
	for n := 0; n < 12; n++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal("length", n, r)
				}
			}()
			b := append([]byte{20, byte(n), 0}, make([]byte, n)...)
			var rds RecordDataSet
			if err := rds.Decode(b); (err == nil) != (n == 5) {
				t.Fatal(n, err)
			}
		}()
	}
}
'''), needs='a type 20 subrecord of at most three bytes', breaks='the error message cuts the section at four bytes and panics'),

dict(id='c02-response-unchecked', property='C02', pkg='libs/egts',
     edits=[(B+'egts_pkg.go', '	if p.ServicesFrameDataCheckSum != crc16(', '	if p.PacketType != PtResponsePacket && p.ServicesFrameDataCheckSum != crc16(')],
     test=T('''
func TestDemoResponseSum(t *testing.T) {
	p := Package{Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketType: PtResponsePacket, ServicesFrameData: &PtResponse{ResponsePacketID: 7}}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	b[11] ^= 1
	var d Package
	if code, err := d.Decode(b); err == nil || code != 138 {
		t.Fatal("corrupted response accepted", code, err)
	}
}
'''), needs='a response packet whose body was damaged', breaks='the body checksum of response packets is not verified'),

dict(id='c03-long-header', property='C03', pkg='libs/egts',
     edits=[(B+'egts_pkg.go', '	if p.Route == "1" {\n		if _, err = io', '	if p.Route == "1" || p.HeaderLength == 16 {\n		if _, err = io')],
     test=T('''
func TestDemoHeaderLength(t *testing.T) {
	p := Package{Prefix: "00", Route: "1", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketType: PtResponsePacket, ServicesFrameData: &PtResponse{ResponsePacketID: 7}}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	b[2] = 0
	b[15] = crc8(b[:15])
	var d Package
	if code, err := d.Decode(b); err == nil || code != 131 {
		t.Fatal("a header of 16 bytes without the route flag was accepted", code, err)
	}
}
'''), needs='a header of length 16 whose route flag is not set', breaks='the header length decides about the route fields, the contradiction is not refused'),

dict(id='c04-carry-over', property='C04', pkg='libs/egts',
     edits=[(B+'service_data_records.go', '''	for buf.Len() > 0 {
		sdr := ServiceDataRecord{}
''', '''	sdr := ServiceDataRecord{}
	for buf.Len() > 0 {
''')],
     test=T('''
func TestDemoTwoRecords(t *testing.T) {
	var s ServiceDataSet
	if err := s.Decode([]byte{0, 0, 1, 0, 1, 9, 0, 0, 0, 2, 2, 0, 0, 2, 0, 0, 2, 2}); err != nil {
		t.Fatal(err)
	}
	if len(s) != 2 || s[0].ObjectIdentifier != 9 || s[1].ObjectIdentifier != 0 {
		t.Fatal(s)
	}
}
'''), needs='a record without an optional field after a record that has it', breaks='the value of the earlier record is carried over'),

dict(id='c05-empty-skipped', property='C05', pkg='libs/egts',
     edits=[(B+'record_data.go', '		switch rd.SubrecordType {\n		case SrPosDataType:', '		if rd.SubrecordLength == 0 {\n			continue\n		}\n		switch rd.SubrecordType {\n		case SrPosDataType:')],
     test=T('''
func TestDemoEmptySubrecord(t *testing.T) {
	var rds RecordDataSet
	if err := rds.Decode([]byte{99, 0, 0, 21, 5, 0, 1, 2, 3, 4, 5}); err == nil {
		t.Fatal("an unknown subrecord was skipped", len(rds))
	}
}
'''), needs='a subrecord of length zero', breaks='empty subrecords are dropped silently, whatever their type'),

dict(id='c06-time-int32', property='C06', pkg='libs/egts',
     edits=[(B+'egts_sr_pos_data.go', 'time.Duration(preFieldVal) * time.Second', 'time.Duration(int32(preFieldVal)) * time.Second')],
     test=T('''
func TestDemoLateTime(t *testing.T) {
	b := make([]byte, 21)
	b[3] = 0x80
	var e SrPosData
	if err := e.Decode(b); err != nil {
		t.Fatal(err)
	}
	if e.NavigationTime.Year() != 2078 {
		t.Fatal(e.NavigationTime)
	}
}
''', '"testing"'), needs='a navigation time of 2078 or later', breaks='the seconds are taken as a signed number'),

dict(id='c07-liquid-number', property='C07', pkg='libs/egts',
     edits=[(B+'egts_sr_liquid_level_sensor.go', 'strconv.ParseUint(flagBits[5:], 2, 8)', 'strconv.ParseUint(flagBits[6:], 2, 8)')],
     test=T('''
func TestDemoLiquidNumber(t *testing.T) {
	for n := byte(0); n < 8; n++ {
		var e SrLiquidLevelSensor
		if err := e.Decode([]byte{n, 0, 0, 0, 0, 0, 0}); err != nil {
			t.Fatal(err)
		}
		if e.LiquidLevelSensorNumber != n {
			t.Fatal(n, e.LiquidLevelSensorNumber)
		}
	}
}
'''), needs='a liquid level sensor numbered 4 or above', breaks='the highest bit of the sensor number is dropped'),

dict(id='c08-nid-alias', property='C08', pkg='libs/egts',
     edits=[(B+'egts_sr_term_identity.go', '''		e.NetworkIdentifier = make([]byte, 3)
		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {''', '''		tmpBuf = make([]byte, 3)
		_, err = io.ReadFull(buf, tmpBuf)
		e.NetworkIdentifier = tmpBuf
		if err != nil {'''), (B+'egts_sr_term_identity.go', '''	if e.BSE == "1" {
		tmpBuf = make([]byte, 2)
''', '''	if e.BSE == "1" {
		if len(tmpBuf) > 2 {
			tmpBuf = tmpBuf[:2]
		}
''')],
     test=T('''
func TestDemoNetwork(t *testing.T) {
	var e SrTermIdentity
	if err := e.Decode([]byte{1, 0, 0, 0, 0x60, 7, 8, 9, 1, 2}); err != nil {
		t.Fatal(err)
	}
	if e.NetworkIdentifier[0] != 7 || e.NetworkIdentifier[1] != 8 || e.BufferSize != 0x201 {
		t.Fatal(e.NetworkIdentifier, e.BufferSize)
	}
}
'''), needs='an identity with both a network identifier and a buffer size', breaks='the buffer size overwrites the network identifier: both share a buffer'),

dict(id='c09-partial-altitude', property='C09', pkg='libs/egts',
     edits=[(B+'egts_sr_ext_pos_data.go', '''		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
			return fmt.Errorf("Не удалось получить битовые''', '''		if _, err = buf.Read(tmpBuf); err != nil {
			return fmt.Errorf("Не удалось получить битовые'''),],
     test=T('''
func TestDemoCutSection(t *testing.T) {
	var e SrExtPosData
	if err := e.Decode([]byte{0x10, 1}); err == nil {
		t.Fatal("half a field accepted", e.NavigationSystem)
	}
}
'''), needs='an extended position that ends in the middle of its last field', breaks='half of the navigation system field is accepted'),

dict(id='c10-zero-event', property='C10', pkg='libs/egts',
     edits=[(B+'service_data_records.go', '''		if sdr.EventIDFieldExists == "1" {
			if err''', '''		if sdr.EventIDFieldExists == "1" && (sdr.EventIdentifier != 0 || sdr.TimeFieldExists != "1") {
			if err''')],
     test=T('''
func TestDemoEventZero(t *testing.T) {
	s := ServiceDataSet{{RecordNumber: 3, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "1", EventIDFieldExists: "1", ObjectIDFieldExists: "0",
		Time: 5, SourceServiceType: 2, RecipientServiceType: 2, RecordDataSet: RecordDataSet{{SubrecordType: 21, SubrecordData: &SrStateData{NMS: "0", IBU: "0", BBU: "0"}}}}}
	b, err := s.Encode()
	if err != nil {
		t.Fatal(err)
	}
	var d ServiceDataSet
	if err := d.Decode(b); err != nil {
		t.Fatal(err)
	}
	if len(d) != 1 || d[0].Time != 5 || d[0].EventIdentifier != 0 {
		t.Fatal(d)
	}
}
'''), needs='a record with a time and an event identifier of zero', breaks='the event identifier is left out although its flag is set'),

dict(id='c11-long-section', property='C11', pkg='libs/egts',
     edits=[(B+'record_data.go', '			rd.SubrecordLength = rd.SubrecordData.Length()\n', '			rd.SubrecordLength = uint16(uint8(rd.SubrecordData.Length()))\n')],
     test=T('''
func TestDemoLongSection(t *testing.T) {
	r := RecordDataSet{{SubrecordData: &SrDispatcherIdentity{Description: string(make([]byte, 300))}}}
	b, err := r.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 308 || int(b[1])|int(b[2])<<8 != 305 {
		t.Fatal(len(b), b[:3])
	}
}
'''), needs='a section of 256 bytes or more', breaks='its announced length is cut to one byte'),

dict(id='c13-zero-altitude', property='C13', pkg='libs/egts',
     edits=[(B+'egts_sr_pos_data.go', '''	if e.ALTE == "1" {
		bytesTmpBuf = []byte{0, 0, 0, 0}
		binary''', '''	if e.ALTE == "1" && (e.Altitude != 0 || e.AltitudeSign == 0) {
		bytesTmpBuf = []byte{0, 0, 0, 0}
		binary''')],
     test=T('''
func TestDemoAltitude(t *testing.T) {
	e := SrPosData{NavigationTime: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), ALTE: "1", LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "0", VLD: "1", AltitudeSign: 1}
	b, err := e.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 24 {
		t.Fatal(len(b))
	}
}
''', '"testing" "time"'), needs='a position at altitude zero with the sign bit set', breaks='the altitude field is left out although its flag is set'),
]
