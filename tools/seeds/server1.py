H = '''package server

import (
	"net"
	"testing"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/egts"
)

type demoStore struct {
	recs []storage.NavRecord
	fail func(n int) bool
}

func (d *demoStore) Save(p interface{ ToBytes() ([]byte, error) }) error {
	n := len(d.recs)
	d.recs = append(d.recs, *(p.(*storage.NavRecord)))
	if d.fail != nil && d.fail(n) {
		return net.ErrClosed
	}
	return nil
}

func demoPos() egts.RecordData {
	return egts.RecordData{SubrecordType: 16, SubrecordData: &egts.SrPosData{NavigationTime: time.Date(2021, 2, 20, 0, 30, 40, 0, time.UTC), Latitude: 55.5, Longitude: 37.6,
		VLD: "1", ALTE: "0", LOHS: "0", LAHS: "0", MV: "1", BB: "0", CS: "0", FIX: "1", Speed: 34, Odometer: 1}}
}

func demoRec(n uint16, svc uint8, oid uint32, subs ...egts.RecordData) egts.ServiceDataRecord {
	return egts.ServiceDataRecord{RecordNumber: n, SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00",
		TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "1", ObjectIdentifier: oid, SourceServiceType: svc, RecipientServiceType: svc, RecordDataSet: subs}
}

func demoPkg(t *testing.T, pid uint16, recs ...egts.ServiceDataRecord) []byte {
	s := egts.ServiceDataSet(recs)
	p := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", HeaderLength: 11,
		PacketIdentifier: pid, PacketType: 1, ServicesFrameData: &s}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// demoRun serves one connection that sends the chunks and gives the packets it answers with
func demoRun(t *testing.T, d *demoStore, chunks ...[]byte) (out []egts.Package, closed bool) {
	r := storage.NewRepository()
	if d != nil {
		r.AddStore(d)
	}
	s := New("", 300*time.Millisecond, r)
	a, b := net.Pipe()
	done := make(chan bool)
	go func() {
		s.handleConn(b)
		close(done)
	}()
	got := make(chan []byte)
	go func() {
		var all []byte
		buf := make([]byte, 70000)
		for {
			n, err := a.Read(buf)
			all = append(all, buf[:n]...)
			if err != nil {
				got <- all
				return
			}
		}
	}()
	for _, c := range chunks {
		_ = a.SetWriteDeadline(time.Now().Add(2 * time.Second))
		_, _ = a.Write(c)
	}
	select {
	case <-done:
		closed = true
	case <-time.After(150 * time.Millisecond):
	}
	_ = a.Close()
	all := <-got
	for len(all) > 0 {
		n := int(all[3]) + int(all[5]) + int(all[6])<<8 + 2
		var p egts.Package
		if _, err := p.Decode(all[:n]); err != nil {
			t.Fatal("answer not decodable: ", err)
		}
		out = append(out, p)
		all = all[n:]
	}
	<-done
	return
}

'''
F = 'cli/receiver/server/server.go'
P = 'cli/receiver/server'
def T(body):
    return H + body
SEEDS = [
dict(id='c14-header-length', property='C14', pkg=P,
     edits=[(F, "pkgLen := int(headerBuf[3])", "pkgLen := int(headerBuf[3] & 0x0f)")],
     test=T('''
func TestDemoRoute(t *testing.T) {
	s := egts.ServiceDataSet{demoRec(7, 2, 1, demoPos())}
	p := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "1", EncryptionAlg: "00", Compression: "0", Priority: "00", HeaderLength: 16,
		PeerAddress: 1, RecipientAddress: 2, TimeToLive: 3, PacketIdentifier: 5, PacketType: 1, ServicesFrameData: &s}
	b, err := p.Encode()
	if err != nil {
		t.Fatal(err)
	}
	out, _ := demoRun(t, &demoStore{}, b, demoPkg(t, 6, demoRec(8, 2, 1, demoPos())))
	if len(out) != 2 || out[0].ServicesFrameData.(*egts.PtResponse).ResponsePacketID != 5 {
		t.Fatal("routed packet not answered", len(out))
	}
}
'''), needs='a packet with a routing header (length 16)', breaks='packets with a routing header are cut at the wrong place, the stream loses its framing'),

dict(id='c14-empty-frame', property='C14', pkg=P,
     edits=[(F, "			if bodyLen > 0 {\n				pkgLen += int(bodyLen) + 2\n			}", "			pkgLen += int(bodyLen) + 2")],
     test=T('''
func TestDemoEmpty(t *testing.T) {
	// a packet without data has no data checksum
	e := []byte{1, 0, 0, 11, 0, 0, 0, 9, 0, 1}
	e = append(e, demoCrc8(e))
	out, _ := demoRun(t, &demoStore{}, append(e, demoPkg(t, 6, demoRec(8, 2, 1, demoPos()))...))
	if len(out) != 2 || out[1].ServicesFrameData.(*egts.PtResponse).ResponsePacketID != 6 {
		t.Fatal("packet behind an empty one not answered", len(out))
	}
}

func demoCrc8(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x31
			} else {
				c <<= 1
			}
		}
	}
	return c
}
'''), needs='a packet without data followed by another packet on the same connection', breaks='two bytes of the next packet are swallowed after a packet without data'),

dict(id='c15-service-of-first-record', property='C15', pkg=P,
     edits=[(F, "				serviceType = rec.SourceServiceType\n", "				if serviceType == 0 || rec.SourceServiceType != egts.AuthService {\n					serviceType = rec.SourceServiceType\n				}\n")],
     test=T('''
func TestDemoService(t *testing.T) {
	out, _ := demoRun(t, &demoStore{}, demoPkg(t, 6, demoRec(8, 2, 1, demoPos()), demoRec(9, 1, 1)))
	r := out[0].ServicesFrameData.(*egts.PtResponse)
	if x := (*r.SDR.(*egts.ServiceDataSet))[0]; x.SourceServiceType != 1 {
		t.Fatal("service type", x.SourceServiceType)
	}
}
'''), needs='a packet with records of several services, the last one of the authorisation service', breaks='the confirmation is sent under another service than that of the last record'),

dict(id='c15-same-record-number', property='C15', pkg=P,
     edits=[(F, "				serviceType = rec.SourceServiceType\n", "				if n := len(srResponsesRecord); n > 2 && rec.RecordNumber <= 1 {\n					srResponsesRecord = srResponsesRecord[:n-1]\n				}\n				serviceType = rec.SourceServiceType\n")],
     test=T('''
func TestDemoNumbers(t *testing.T) {
	out, _ := demoRun(t, &demoStore{}, demoPkg(t, 6, demoRec(65534, 2, 1), demoRec(65535, 2, 1), demoRec(0, 2, 1), demoRec(1, 2, 1, demoPos())))
	r := out[0].ServicesFrameData.(*egts.PtResponse)
	if x := (*r.SDR.(*egts.ServiceDataSet))[0]; len(x.RecordDataSet) != 4 {
		t.Fatal("confirmed", len(x.RecordDataSet))
	}
}
'''), needs='a packet with three or more records whose record numbers wrap around to 0', breaks='the records numbered 0 or 1 after a wrap-around are not confirmed'),

dict(id='c16-sensors-survive', property='C16', pkg=P,
     edits=[(F, "	var (\n		isPkgSave         bool\n", "	var (\n		anSensors         []storage.AnSensor\n		isPkgSave         bool\n"),
            (F, "				LocStatesCount: 0,\n", "				LocStatesCount: 0,\n				AnSensors:      anSensors,\n"),
            (F, "				if err := s.store.Save(&exportPacket); err != nil {\n", "				anSensors = nil\n				if err := s.store.Save(&exportPacket); err != nil {\n					anSensors = exportPacket.AnSensors\n")],
     test=T('''
func TestDemoLeak(t *testing.T) {
	d := &demoStore{fail: func(n int) bool { return n == 0 }}
	an := egts.RecordData{SubrecordType: 24, SubrecordData: &egts.SrAbsAnSensData{SensorNumber: 3, Value: 77}}
	demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, demoPos(), an)), demoPkg(t, 7, demoRec(9, 2, 2, demoPos())))
	if len(d.recs) != 2 || len(d.recs[1].AnSensors) != 0 {
		t.Fatal("sensors of another packet stored", d.recs)
	}
}
'''), needs='a packet with sensors whose save fails, then another packet on the same connection', breaks='readings of one packet show up in the stored record of the next'),

dict(id='c16-counter-order', property='C16', pkg=P,
     edits=[(F, "							exportPacket.PacketID = subRecData.CounterValue\n", "							if exportPacket.PacketID < 1<<24 {\n								exportPacket.PacketID = subRecData.CounterValue\n							}\n")],
     test=T('''
func TestDemoCounters(t *testing.T) {
	d := &demoStore{}
	c := func(n uint8, v uint32) egts.RecordData {
		return egts.RecordData{SubrecordType: 25, SubrecordData: &egts.SrAbsCntrData{CounterNumber: n, CounterValue: v}}
	}
	demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, demoPos(), c(110, 5), c(111, 1)), demoRec(9, 2, 1, demoPos(), c(110, 6))))
	if len(d.recs) != 1 || d.recs[0].PacketID != 6 {
		t.Fatal("packet number", d.recs[0].PacketID)
	}
}
'''), needs='two records in one packet: the first with counters 110 and 111 (non-zero), the second with counter 110 only', breaks='the stored packet number is not the one given by the last counters'),

dict(id='c17-nack-with-stale-records', property='C17', pkg=P,
     edits=[(F, "	Received:\n		serviceType = 0\n		srResponsesRecord = nil\n", "	Received:\n		if !isPkgSave {\n			serviceType = 0\n			srResponsesRecord = nil\n		}\n"),
            (F, "createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, nil)", "createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)"),
            (F, "			isPkgSave = false\n\n", "			isPkgSave = false\n			srResponsesRecord = nil\n\n")],
     test=T('''
func TestDemoNack(t *testing.T) {
	bad := demoPkg(t, 7, demoRec(9, 2, 1, demoPos()))
	bad[len(bad)-1] ^= 1
	out, _ := demoRun(t, &demoStore{}, demoPkg(t, 6, demoRec(8, 2, 1, demoPos())), bad)
	if len(out) != 2 {
		t.Fatal("answers", len(out))
	}
	r := out[1].ServicesFrameData.(*egts.PtResponse)
	if r.ResponsePacketID != 7 || r.ProcessingResult != 138 || r.SDR != nil {
		t.Fatal("answer to the damaged packet", r)
	}
}
'''), needs='a damaged packet right behind a good one whose data was stored', breaks='the rejection of a damaged packet carries confirmations of records of the packet before'),

dict(id='c17-close-on-crc', property='C17', pkg=P,
     edits=[(F, "			_, _ = conn.Write(resp)\n\n			goto Received\n", "			_, _ = conn.Write(resp)\n			if resultCode == 137 && pkg.PacketIdentifier == 0 {\n				return\n			}\n\n			goto Received\n")],
     test=T('''
func TestDemoContinue(t *testing.T) {
	bad := demoPkg(t, 0, demoRec(9, 2, 1, demoPos()))
	bad[10] ^= 1
	out, _ := demoRun(t, &demoStore{}, bad, demoPkg(t, 6, demoRec(8, 2, 1, demoPos())))
	if len(out) != 2 {
		t.Fatal("answers", len(out))
	}
}
'''), needs='a packet with identifier 0 and a wrong header checksum, followed by another packet', breaks='the connection is closed instead of going on after such a packet'),

dict(id='c18-ack-before-save', property='C18', pkg=P,
     edits=[(F, "					log.WithField(\"err\", err).Error(\"Ошибка сохранения телеметрии\")\n					goto Received\n", "					log.WithField(\"err\", err).Error(\"Ошибка сохранения телеметрии\")\n					if len(srResultCodePkg) == 0 {\n						goto Received\n					}\n")],
     test=T('''
func TestDemoFail(t *testing.T) {
	d := &demoStore{fail: func(n int) bool { return true }}
	auth := egts.RecordData{SubrecordType: 7, SubrecordData: &egts.SrAuthInfo{UserName: "a", UserPassword: "b"}}
	out, _ := demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, auth, demoPos())))
	if len(out) != 0 {
		t.Fatal("confirmed although the store failed")
	}
}
'''), needs='a packet with both an authorisation and a position section while the store fails', breaks='telemetry that no store took is confirmed'),

dict(id='c19-code-after-failed-save', property='C19', pkg=P,
     edits=[(F, "		srResultCodePkg = nil\n", ""),
            (F, "				log.WithField(\"packet\", srResultCodePkg).Debug(\"Отправлен пакет EGTS_SR_RESULT_CODE\")\n", "				log.WithField(\"packet\", srResultCodePkg).Debug(\"Отправлен пакет EGTS_SR_RESULT_CODE\")\n				srResultCodePkg = nil\n")],
     test=T('''
func TestDemoCode(t *testing.T) {
	d := &demoStore{fail: func(n int) bool { return n == 0 }}
	auth := egts.RecordData{SubrecordType: 7, SubrecordData: &egts.SrAuthInfo{UserName: "a", UserPassword: "b"}}
	out, _ := demoRun(t, d, demoPkg(t, 6, demoRec(8, 1, 1, auth, demoPos())), demoPkg(t, 7, demoRec(9, 2, 1, demoPos())))
	if len(out) != 1 {
		t.Fatal("answers", len(out))
	}
}
'''), needs='an authorisation packet with a position whose save fails, then a packet without authorisation', breaks='a result code is sent for a packet that holds no identity section'),

dict(id='c20-long-sensor-list', property='C20', pkg=P,
     edits=[(F, "							if len(packetIDBytes) == 4 {\n								packetIDBytes[3] = tmpBuf[3]", "							if len(packetIDBytes) == 4 {\n								packetIDBytes[tmpBuf[2]&0x04|3] = tmpBuf[3]")],
     test=T('''
func TestDemoPanic(t *testing.T) {
	d := &demoStore{}
	c := egts.RecordData{SubrecordType: 25, SubrecordData: &egts.SrAbsCntrData{CounterNumber: 111, CounterValue: 0x0401}}
	out, _ := demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, demoPos(), c)))
	if len(out) != 1 {
		t.Fatal("answers", len(out))
	}
}
'''), needs='counter 111 with bit 10 of its value set', breaks='the handler panics (index out of range), which ends the server process'),

dict(id='c21-deadline-once', property='C21', pkg=P,
     edits=[(F, "			// формируем полный пакет\n", "			_ = conn.SetReadDeadline(time.Time{})\n			// формируем полный пакет\n"),
            (F, "		if s.ttl > 0 {\n			_ = conn.SetReadDeadline", "		if s.ttl > 0 && len(recvPacket) == 0 && !isPkgSave {\n			_ = conn.SetReadDeadline")],
     test=T('''
func TestDemoIdle(t *testing.T) {
	r := storage.NewRepository()
	r.AddStore(&demoStore{})
	s := New("", 200*time.Millisecond, r)
	a, b := net.Pipe()
	done := make(chan bool)
	go func() {
		s.handleConn(b)
		close(done)
	}()
	go func() {
		buf := make([]byte, 1000)
		for {
			if _, err := a.Read(buf); err != nil {
				return
			}
		}
	}()
	if _, err := a.Write(demoPkg(t, 6, demoRec(8, 2, 1, demoPos()))); err != nil {
		t.Fatal(err)
	}
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("silent connection not closed")
	}
}
'''), needs='a client that falls silent after a packet with a position', breaks='the connection of a client that falls silent stays open for ever'),

dict(id='c22-shared-buffer', property='C22', pkg=P,
     edits=[(F, "	log.WithField(\"ip\", conn.RemoteAddr()).Info(\"Установлено соединение\")\n", "	log.WithField(\"ip\", conn.RemoteAddr()).Info(\"Установлено соединение\")\n	packetIDBytes := idBytes\n"),
            (F, "				packetIDBytes := make([]byte, 4)\n", "				copy(packetIDBytes, make([]byte, 4))\n"),
            (F, "type Server struct {", "// номер записи собирается из двух счетчиков\nvar idBytes = make([]byte, 4)\n\ntype Server struct {")],
     test=T('''
func TestDemoShared(t *testing.T) {
	c := func(n uint8, v uint32) egts.RecordData {
		return egts.RecordData{SubrecordType: 25, SubrecordData: &egts.SrAbsCntrData{CounterNumber: n, CounterValue: v}}
	}
	subs := func(v uint32) []egts.RecordData {
		l := []egts.RecordData{demoPos(), c(110, v)}
		for i := 0; i < 2000; i++ {
			l = append(l, c(1, 1))
		}
		return append(l, c(111, 0))
	}
	a, b := demoPkg(t, 6, demoRec(8, 2, 1, subs(1)...)), demoPkg(t, 6, demoRec(8, 2, 1, subs(2)...))
	done := make(chan uint32)
	one := func(p []byte) {
		d := &demoStore{}
		var all []byte
		for i := 0; i < 200; i++ {
			all = append(all, p...)
		}
		demoRun(t, d, all)
		last := d.recs[0].PacketID
		for _, r := range d.recs {
			if r.PacketID != last {
				last = 99
			}
		}
		done <- last
	}
	go one(a)
	go one(b)
	x, y := <-done, <-done
	if x+y != 3 {
		t.Fatal("packet numbers", x, y)
	}
}
'''), needs='two connections that send counters 110 and 111 at the same time', breaks='the packet number of one client gets into the record of another (data race)'),
]
