import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__('sys').argv[1])) if len(__import__('sys').argv) > 1 else 'tools/seeds', 'server1.py')).read(), _ns)
T, F, P = _ns['T'], _ns['F'], _ns['P']
SEEDS = [
dict(id='c18-retry-skip', property='C18', pkg=P,
     edits=[(F, "		recvPacket        []byte\n	)\n", "		recvPacket        []byte\n		lastPosPkg        = -1\n	)\n"),
            (F, "						isPkgSave = true\n", "						// повторно переданный пакет не сохраняем\n						isPkgSave = int(pkg.PacketIdentifier) != lastPosPkg\n"),
            (F, "			resp, err := createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)\n", "			resp, err := createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)\n"),
            (F, "			if isPkgSave {\n", "			if exportPacket.LocStatesCount > 0 {\n				lastPosPkg = int(pkg.PacketIdentifier)\n			}\n			if isPkgSave {\n")],
     test=T('''
func TestDemoRetry(t *testing.T) {
	d := &demoStore{fail: func(n int) bool { return n == 0 }}
	p := demoPkg(t, 6, demoRec(8, 2, 1, demoPos()))
	out, _ := demoRun(t, d, p, p)
	if len(d.recs) != 2 || len(out) != 1 {
		t.Fatal("retransmission not stored but confirmed", len(d.recs), len(out))
	}
}
'''), needs='a store that fails, then the same packet sent again on the connection', breaks='the retransmitted packet is confirmed although nothing was stored'),
dict(id='c19-last-service', property='C19', pkg=P,
     edits=[(F, "			if len(srResultCodePkg) > 0 {\n", "			if serviceType == egts.AuthService && len(srResultCodePkg) > 0 {\n")],
     test=T('''
func TestDemoAuth(t *testing.T) {
	au := egts.RecordData{SubrecordType: 7, SubrecordData: &egts.SrAuthInfo{UserName: "u", UserPassword: "p"}}
	out, _ := demoRun(t, &demoStore{}, demoPkg(t, 6, demoRec(8, 1, 1, au), demoRec(9, 2, 1, demoPos())))
	if len(out) != 2 || out[1].PacketType != 1 {
		t.Fatal("no result code", len(out))
	}
}
'''), needs='an authorisation record followed by a record of another service in the same packet', breaks='the terminal never gets its result code'),
dict(id='c16-zero-reading', property='C16', pkg=P,
     edits=[(F, '						log.Debug("Разбор подзаписи EGTS_SR_ABS_AN_SENS_DATA")\n						exportPacket', '						log.Debug("Разбор подзаписи EGTS_SR_ABS_AN_SENS_DATA")\n						if n := len(exportPacket.AnSensors); n > 0 && exportPacket.AnSensors[n-1].SensorNumber == subRecData.SensorNumber {\n							exportPacket.AnSensors[n-1].Value = subRecData.Value\n							continue\n						}\n						exportPacket')],
     test=T('''
func TestDemoSensors(t *testing.T) {
	d := &demoStore{}
	s := func(n uint8, v uint32) egts.RecordData {
		return egts.RecordData{SubrecordType: 24, SubrecordData: &egts.SrAbsAnSensData{SensorNumber: n, Value: v}}
	}
	demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, demoPos(), s(3, 10), s(3, 20), s(4, 5))))
	if len(d.recs) != 1 || len(d.recs[0].AnSensors) != 3 || d.recs[0].AnSensors[0].Value != 10 {
		t.Fatal("readings lost", d.recs)
	}
}
'''), needs='two readings of the same analogue sensor one after the other', breaks='the first reading is overwritten and lost'),
dict(id='c16-liquid-tenths', property='C16', pkg=P,
     edits=[(F, 'float64(subRecData.LiquidLevelSensorData) / 10', 'float64(subRecData.LiquidLevelSensorData / 10)')],
     test=T('''
func TestDemoLiquid(t *testing.T) {
	d := &demoStore{}
	demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1, demoPos(), egts.RecordData{SubrecordType: 27, SubrecordData: &egts.SrLiquidLevelSensor{
		LiquidLevelSensorErrorFlag: "0", LiquidLevelSensorValueUnit: "10", RawDataFlag: "0", LiquidLevelSensorNumber: 1, LiquidLevelSensorData: 125}})))
	if len(d.recs) != 1 || len(d.recs[0].LiquidSensors) != 1 || d.recs[0].LiquidSensors[0].ValueL != 12.5 {
		t.Fatal("tenths lost", d.recs)
	}
}
'''), needs='a level in litres that is not whole', breaks='the tenths of a litre are cut off'),
dict(id='c20-first-subrecord', property='C20', pkg=P,
     edits=[(F, '				log.Info("Тип сервиса ", serviceType)\n', '				log.Info("Тип сервиса ", serviceType, " первая подзапись ", rec.RecordDataSet[0].SubrecordType)\n')],
     test=T('''
func TestDemoEmptyRecord(t *testing.T) {
	d := &demoStore{}
	demoRun(t, d, demoPkg(t, 6, demoRec(8, 2, 1)))
}
'''), needs='a record without subrecords', breaks='the handler panics and takes down the server'),
dict(id='c21-ttl-round', property='C21', pkg=P,
     edits=[(F, "		ttl:      ttl,\n", "		ttl:      ttl.Round(time.Second),\n")],
     test=T('''
func TestDemoIdle(t *testing.T) {
	s := New("", 400*time.Millisecond, storage.NewRepository())
	a, b := net.Pipe()
	defer a.Close()
	done := make(chan bool)
	go func() {
		s.handleConn(b)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("idle connection not closed")
	}
}
'''), needs='a time-to-live that is not a whole number of seconds', breaks='idle connections are closed at another time or never'),
dict(id='c22-last-packet', property='C22', pkg=P,
     edits=[(F, "	store    *storage.Repository\n	l        net.Listener\n", "	store    *storage.Repository\n	l        net.Listener\n	// последний сохраненный пакет, чтобы не сохранять его повторно\n	last storage.NavRecord\n"),
            (F, "			if isPkgSave {\n", "			if s.last.ClientID == exportPacket.ClientID && s.last.NavigationTimestamp == exportPacket.NavigationTimestamp && s.last.PacketID == exportPacket.PacketID && len(s.last.AnSensors) == len(exportPacket.AnSensors) {\n				isPkgSave = false\n			}\n			if isPkgSave {\n				s.last = exportPacket\n")],
     test=T('''
func TestDemoTwo(t *testing.T) {
	d := &demoStore{}
	r := storage.NewRepository()
	r.AddStore(d)
	s := New("", 300*time.Millisecond, r)
	for i := 0; i < 2; i++ {
		a, b := net.Pipe()
		done := make(chan bool)
		go func() {
			s.handleConn(b)
			close(done)
		}()
		a.Write(demoPkg(t, 6, demoRec(8, 2, 1, demoPos())))
		buf := make([]byte, 1000)
		a.Read(buf)
		a.Close()
		<-done
	}
	if len(d.recs) != 2 {
		t.Fatal("packet of the second connection not stored", len(d.recs))
	}
}
'''), needs='the same data from two connections', breaks='what one connection sent decides whether the data of another is stored; data race'),
dict(id='c14-buffered', property='C14', pkg=P,
     edits=[(F, '	"encoding/binary"\n', '	"bufio"\n	"encoding/binary"\n'),
            (F, "		_, err := io.ReadFull(conn, headerBuf)\n", "		rd := bufio.NewReader(conn)\n		_, err := io.ReadFull(rd, headerBuf)\n"),
            (F, "			if _, err := io.ReadFull(conn, buf); err != nil {\n", "			if _, err := io.ReadFull(rd, buf); err != nil {\n")],
     test=T('''
func TestDemoTogether(t *testing.T) {
	p := append(demoPkg(t, 6, demoRec(8, 2, 1, demoPos())), demoPkg(t, 7, demoRec(9, 2, 1, demoPos()))...)
	out, _ := demoRun(t, &demoStore{}, p)
	if len(out) != 2 {
		t.Fatal("second packet of the segment lost", len(out))
	}
}
'''), needs='two packets in one network segment', breaks='what was read ahead is dropped, packets behind the first are lost'),
dict(id='c28-conn-var', property='C28', pkg=P,
     edits=[(F, "	for {\n		conn, err := s.l.Accept()\n", "	var conn net.Conn\n	for {\n		conn, err = s.l.Accept()\n"),
            (F, "			go s.handleConn(conn)\n", "			go func() { s.handleConn(conn) }()\n")],
     test=T('''
func TestDemoBurst(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := New(addr, 20*time.Second, storage.NewRepository())
	go s.Run()
	defer s.Stop()
	time.Sleep(200 * time.Millisecond)
	for round := 0; round < 40; round++ {
		var cs []net.Conn
		for i := 0; i < 40; i++ {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				t.Fatal(err)
			}
			cs = append(cs, c)
		}
		for _, c := range cs {
			// no EGTS packet: the server closes the connection
			c.Write(make([]byte, 10))
			c.SetReadDeadline(time.Now().Add(2 * time.Second))
			if _, err := c.Read(make([]byte, 1)); err != nil {
				if n, ok := err.(net.Error); ok && n.Timeout() {
					t.Fatal("client not served")
				}
			}
			c.Close()
		}
	}
}
'''), needs='two clients that connect before the handler of the first has started', breaks='one client gets two handlers, the other none'),
dict(id='c15-pid-wrap', property='C15', pkg=P,
     edits=[(F, "		PacketIdentifier:  pid + 1,\n		PacketType:        egts.PtResponsePacket,\n", "		PacketIdentifier:  pid%65535 + 1,\n		PacketType:        egts.PtResponsePacket,\n")],
     test=T('''
func TestDemoWrap(t *testing.T) {
	out, _ := demoRun(t, &demoStore{}, demoPkg(t, 65535, demoRec(8, 2, 1, demoPos())))
	if len(out) != 1 || out[0].PacketIdentifier != 0 {
		t.Fatal("wrong packet identifier", out)
	}
}
'''), needs='packet identifier 65535', breaks='the response does not carry the identifier that follows the one of the request'),
dict(id='c17-no-identifier', property='C17', pkg=P,
     edits=[(F, '			log.WithField("err", err).Error("Ошибка расшифровки пакета")\n', '			log.WithField("err", err).Error("Ошибка расшифровки пакета")\n			if pkg.PacketIdentifier == 0 {\n				// идентификатор не прочитан, подтверждать нечего\n				goto Received\n			}\n')],
     test=T('''
func TestDemoBadZero(t *testing.T) {
	p := demoPkg(t, 0, demoRec(8, 2, 1, demoPos()))
	p[len(p)-1] ^= 1
	out, _ := demoRun(t, &demoStore{}, p)
	if len(out) != 1 {
		t.Fatal("rejected packet not answered", len(out))
	}
}
'''), needs='a damaged packet with identifier 0', breaks='the rejected packet gets no answer'),
dict(id='c23-rotate', property='C23', pkg='cli/receiver/storage',
     edits=[('cli/receiver/storage/store.go', "	for _, store := range r.storages {\n		if err := store.Save(m); err != nil {\n			return err\n", "	for i, store := range r.storages {\n		if err := store.Save(m); err != nil {\n			// хранилище с ошибкой опрашиваем последним\n			if i+1 < len(r.storages) {\n				r.storages = append(append(append([]Saver{}, r.storages[:i]...), r.storages[i+1:]...), store)\n			}\n			return err\n")],
     test='''package storage

import (
	"errors"
	"testing"
)

type demoSaver struct {
	n    int
	fail bool
	log  *[]*demoSaver
}

func (d *demoSaver) Save(m interface{ ToBytes() ([]byte, error) }) error {
	d.n++
	*d.log = append(*d.log, d)
	if d.fail {
		return errors.New("down")
	}
	return nil
}

func TestDemoOrder(t *testing.T) {
	var log []*demoSaver
	a, b := &demoSaver{fail: true, log: &log}, &demoSaver{log: &log}
	r := NewRepository()
	r.AddStore(a)
	r.AddStore(b)
	if r.Save(&NavRecord{}) == nil {
		t.Fatal("error lost")
	}
	a.fail = false
	log = nil
	if r.Save(&NavRecord{}) != nil || len(log) != 2 || log[0] != a || log[1] != b {
		t.Fatal("order of the stores changed")
	}
}
''', needs='a failing store that is not the last, then another record', breaks='stores are no longer called in the order they were added; concurrent connections race on the list'),
]
