From 46cd581477b6cf9cc52ab139d3dfeee15e443520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 01/34] fix: store the second counter of EGTS_SR_COUNTERS_DATA
 in Counter2

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From d9152f3b740c29a7499d4524991c0abacbc39815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 02/34] fix: encode analog sensor flags of
 EGTS_SR_AD_SENSORS_DATA highest sensor first

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From cd7dbf129248716faca1368ab8e0e0eaed6f693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 03/34] fix: report a body checksum mismatch with the data
 checksum error code

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..f68d4b6 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -131,7 +131,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From 539c26fb949c2ba577facc06a492676242bc1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 04/34] fix: return the flag error of EGTS_SR_TERM_IDENTITY
 encoding instead of dropping it

---
 libs/egts/egts_sr_term_identity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..b210572 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -127,7 +127,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать идентификатор терминал при авторизации")
 	}
 
-	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8); err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 4b03aa4c304249cc6fd35d538fdba06105a7d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 05/34] fix: derive the subrecord type of
 EGTS_SR_DISPATCHER_IDENTITY when encoding

---
 libs/egts/record_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..c8922d2 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -123,6 +123,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From ea85e0ea3e3adff85dbbc1916115ad8d01e2d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 06/34] fix: read the altitude of EGTS_SR_POS_DATA as three
 bytes

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From bbf99696b6a093780b6e283f7bcb4301a2c110c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 07/34] fix: reject fields cut short by the end of the data
 when decoding

---
 libs/egts/egts_pkg.go                    | 13 +++++++------
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  3 ++-
 libs/egts/service_data_records.go        | 13 +++++++------
 13 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index f68d4b6..c2d1909 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -67,12 +68,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -82,12 +83,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -106,7 +107,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -125,7 +126,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index b210572..510f1ee 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index c8922d2..889b62a 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -29,7 +30,7 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..75bb4eb 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -40,12 +41,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -64,7 +65,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -72,7 +73,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -80,7 +81,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("Не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			sdr.Time = binary.LittleEndian.Uint32(tm)
@@ -97,7 +98,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 408e5e1205e170da1f5b4ef03166d63a240ddcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 08/34] fix: reject a subrecord whose length runs past the end
 of its record

---
 libs/egts/record_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 889b62a..13e3f87 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -36,6 +36,9 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
+		if len(subRecordBytes) != int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина subrecord data больше длины записи: %d", rd.SubrecordLength)
+		}
 
 		switch rd.SubrecordType {
 		case SrPosDataType:
-- 
2.43.0


From a4a1821db1cce2d571af8efaa6629eedb2f2cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 09/34] fix: reject a header length that disagrees with the
 header instead of panicking

---
 libs/egts/egts_pkg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c2d1909..52d8703 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -102,6 +102,10 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -131,7 +135,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From ffd717bb764404f91bf34cd68c400e8706be233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 10/34] fix: pad the language code and the mobile number of
 EGTS_SR_TERM_IDENTITY to their fixed widths

---
 libs/egts/egts_sr_term_identity.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 510f1ee..7fa2c79 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -164,9 +164,14 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.LNGCE == "1" {
-		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
+		wbb := 0
+		if wbb, err = buf.Write([]byte(e.LanguageCode)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
 		}
+		if wbb < 3 {
+			tmp := make([]byte, 3-wbb)
+			buf.Write(tmp)
+		}
 	}
 
 	if e.NIDE == "1" {
@@ -182,9 +187,14 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
-		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
+		wbb := 0
+		if wbb, err = buf.Write([]byte(e.MobileNumber)); err != nil {
 			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
 		}
+		if wbb < 15 {
+			tmp := make([]byte, 15-wbb)
+			buf.Write(tmp)
+		}
 	}
 
 	result = buf.Bytes()
-- 
2.43.0


From d94fbb064aa2477c5b113e776e566e6fbc3c256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 11/34] fix: refuse to encode sections longer than their 16-bit
 length fields

---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 52d8703..03b29bc 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -189,6 +190,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Слишком длинная секция данных: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 13e3f87..c6cd619 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -149,6 +150,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком длинная subrecord data: %d", len(srd))
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 75bb4eb..14764b1 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -128,6 +129,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком длинная запись SDR: %d", len(rd))
+		}
+
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
 		}
-- 
2.43.0


From 1fec42d9bf9f74c1f0a0b4cd7e1bee098aa8bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 12/34] fix: return redis publish errors instead of panicking

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..2706701 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 6a410378aaaa160d05436da35a2116fa91e244db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 13/34] fix: apply the default redis database when none is
 configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 2706701..e732b09 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 26266ba148d7cda8a1ab4dabb83a7397a6c41882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 14/34] fix: compute the packet length without 16-bit overflow
 or underflow

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..0a5908f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -94,9 +94,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 3ffb57ae0f7cacb1770ba6fca2f1cd5b63000806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 15/34] fix: do not acknowledge a packet whose data could not
 be stored

---
 cli/receiver/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0a5908f..43aef48 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -297,6 +297,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+					goto Received
 				}
 			}
 
-- 
2.43.0


From 36aa92607360304e1a0a42e67dc73839896ddb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 16/34] fix: combine counters 110 and 111 into the record
 number in the right byte order

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 43aef48..169f7f5 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -255,7 +255,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
 							exportPacket.PacketID = subRecData.CounterValue
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-- 
2.43.0


From 191e89330b829b80c8b56b05ab88fbdace2a0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 17/34] fix: send EGTS_SR_RESULT_CODE in an EGTS_PT_APPDATA
 packet

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 169f7f5..799ccf7 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -414,7 +414,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 237fe1c4a1f8d2f1dd2c2821ee72cc18c0dbb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 18/34] fix: close connections that stay idle longer than
 conn_ttl

---
 cli/receiver/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 799ccf7..54a6946 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -77,6 +77,9 @@ func (s *Server) handleConn(conn net.Conn) {
 		recvPacket = nil
 
 		connTimer := time.NewTimer(s.ttl)
+		if s.ttl > 0 {
+			_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+		}
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-- 
2.43.0


From 29193fdb4dd61d4cbc73d527beb79ff60cbe9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 19/34] fix: send the timestamp given on the packet-gen command
 line

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..76bfc5d 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 3a07f0dc7dbf525ec94812e89594e15934873388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 20/34] fix: exit packet-gen with success after a correct
 acknowledgement

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 76bfc5d..62e8e9e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From af83376903dfe606f1059e8047b4c0f4f4de9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 21/34] fix: wait five seconds for the acknowledgement by
 default as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 62e8e9e..34b615c 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From f4f14115031ffc29553e514000d58572f18de78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 22/34] fix: report an acknowledgement without records instead
 of panicking

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 34b615c..c68d650 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack has no record statuses")
+		os.Exit(1)
+	}
+
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 19666a0e5339e5ef34b69c29194cea2388fa3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 23/34] fix: quote the postgresql connection parameters

---
 cli/receiver/storage/store/postgresql/connector.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..f12863f 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]),
+		quote(c.config["user"]), quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -46,6 +48,12 @@ func (c *Connector) Init(cfg map[string]string) error {
 	return err
 }
 
+// quote экранирует значение параметра строки подключения
+func quote(value string) string {
+	value = strings.ReplaceAll(value, `\`, `\\`)
+	return "'" + strings.ReplaceAll(value, "'", `\'`) + "'"
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
-- 
2.43.0


From 667bfa53f6d02de11ec1b3782623ae63de455175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 24/34] fix: escape user and password in the rabbitmq address

---
 cli/receiver/storage/store/rabbitmq/connector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..46fc437 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/",
+		url.UserPassword(c.config["user"], c.config["password"]).String(), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 618d6ed928f1852c07624b2665f184d2c6b45f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 25/34] fix: name the connection time-to-live conn_ttl in the
 sample configuration

---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 21c1f186e33951809105f2e55386759ce266b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 26/34] fix: end Run after Stop instead of spinning on the
 closed listener

---
 cli/receiver/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 54a6946..fa2926d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -36,7 +37,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
+			return
+		} else if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 8e3f2954d903c9e61eca730a5671fb00388671bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 27/34] fix: packet-gen: refuse values that do not fit the
 packet

---
 cli/packet-gen/main.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index c68d650..8e639e1 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,33 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 {
+		fmt.Println("Packet identifier is out of range")
+		os.Exit(1)
+	}
+
+	if oid < 0 || int64(oid) > math.MaxUint32 {
+		fmt.Println("Client identifier is out of range")
+		os.Exit(1)
+	}
+
+	if liqLvl < 0 || int64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Liquid level is out of range")
+		os.Exit(1)
+	}
+
+	if !(lat >= -90 && lat <= 90) || !(lon >= -180 && lon <= 180) {
+		fmt.Println("Coordinates are out of range")
+		os.Exit(1)
+	}
+
+	// EGTS stores the time as uint32 seconds since 01.01.2010 UTC
+	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
+	if sec := timestamp.Unix() - startDate.Unix(); sec < 0 || sec > math.MaxUint32 {
+		fmt.Println("Timestamp is out of range")
+		os.Exit(1)
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
-- 
2.43.0


From 8f58a9fadfa2a8e8fe443bf36e62f4f2ae3aef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 28/34] fix: packet-gen: send southern and western coordinates

---
 cli/packet-gen/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 8e639e1..a118c36 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -111,6 +111,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// the packet holds absolute values, the hemispheres are flags
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -142,11 +151,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From e8629f0f9dcd2ca540242dae59bb890c3dacc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:00 +0000
Subject: [PATCH 29/34] fix: packet-gen: read the whole acknowledgement

---
 cli/packet-gen/main.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index a118c36..89281b5 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -211,17 +213,33 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
-	if err != nil {
+
+	// the acknowledgement may arrive in several segments
+	ackBuf := make([]byte, 10)
+	if _, err = io.ReadFull(conn, ackBuf); err != nil {
+		fmt.Println("Read from server failed:", err)
+		os.Exit(1)
+	}
+
+	ackLen := int(ackBuf[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(ackBuf[5:7])); bodyLen > 0 {
+		ackLen += bodyLen + 2
+	}
+	if ackLen < len(ackBuf) {
+		fmt.Println("Received packet is not egts ack")
+		os.Exit(1)
+	}
+
+	ackTail := make([]byte, ackLen-len(ackBuf))
+	if _, err = io.ReadFull(conn, ackTail); err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
+	ackBuf = append(ackBuf, ackTail...)
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
-- 
2.43.0


From 0362c383b1f8a416cbca50bc85c12380ec63eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:47 +0000
Subject: [PATCH 30/34] fix: store the hemisphere of a position

---
 cli/receiver/server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index fa2926d..89658ed 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -211,6 +211,14 @@ func (s *Server) handleConn(conn net.Conn) {
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
 
+						// в пакете передаются модули координат, полушарие задается флагами
+						if subRecData.LAHS == "1" {
+							locData.Latitude = -locData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							locData.Longitude = -locData.Longitude
+						}
+
 						exportPacket.LocStates = append(exportPacket.LocStates, locData)
 						exportPacket.LocStatesCount++
 
-- 
2.43.0


From 74f7bcdad2e6fbe26bdd837a8e9aadb15b1eee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:24 +0000
Subject: [PATCH 31/34] fix: refuse a liquid level sensor number that does not
 fit its field

---
 libs/egts/egts_sr_liquid_level_sensor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index dc346f6..2752c97 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -66,6 +66,11 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	// номер датчика занимает три бита
+	if e.LiquidLevelSensorNumber > 7 {
+		return result, fmt.Errorf("Некорректный номер датчика уровня жидкости: %d", e.LiquidLevelSensorNumber)
+	}
+
 	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
 		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
-- 
2.43.0


From 63944396fabf1dc6406b299102858003fe229dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:48 +0000
Subject: [PATCH 32/34] fix: refuse numbers that do not fit the fields of a
 section

---
 libs/egts/egts_sr_abs_an_sensors_data.go |  3 +++
 libs/egts/egts_sr_abs_cntr_data.go       |  3 +++
 libs/egts/egts_sr_ad_sensors_data.go     | 24 ++++++++++++++++++++++++
 libs/egts/egts_sr_counters_data.go       | 24 ++++++++++++++++++++++++
 libs/egts/egts_sr_pos_data.go            | 18 ++++++++++++++++++
 5 files changed, 72 insertions(+)

diff --git a/libs/egts/egts_sr_abs_an_sensors_data.go b/libs/egts/egts_sr_abs_an_sensors_data.go
index 0247912..b33227c 100644
--- a/libs/egts/egts_sr_abs_an_sensors_data.go
+++ b/libs/egts/egts_sr_abs_an_sensors_data.go
@@ -24,6 +24,9 @@ func (e *SrAbsAnSensData) Decode(content []byte) error {
 
 //Encode преобразовывает подзапись в набор байт
 func (e *SrAbsAnSensData) Encode() ([]byte, error) {
+	if e.Value > 0xFFFFFF {
+		return nil, errors.New("Значение датчика не помещается в три байта")
+	}
 	return []byte{
 		byte(e.SensorNumber),
 		byte(e.Value),
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 00ee94d..6693d97 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -50,6 +50,9 @@ func (e *SrAbsCntrData) Encode() ([]byte, error) {
 	}
 
 	counterVal := make([]byte, 4)
+	if e.CounterValue > 0xFFFFFF {
+		return result, fmt.Errorf("Значение CounterValue не помещается в три байта: %d", e.CounterValue)
+	}
 	binary.LittleEndian.PutUint32(counterVal, e.CounterValue)
 	if _, err = buf.Write(counterVal[:3]); err != nil {
 		return result, fmt.Errorf("Не удалось записать значение показаний счетного входа: %v", err)
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 631cae4..2aeb22f 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -301,6 +301,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 
 	sensVal := make([]byte, 4)
 	if e.AnalogSensorFieldExists1 == "1" {
+		if e.AnalogSensor1 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor1 не помещается в три байта: %d", e.AnalogSensor1)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor1)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS1: %v", err)
@@ -308,6 +311,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
+		if e.AnalogSensor2 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor2 не помещается в три байта: %d", e.AnalogSensor2)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor2)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS2: %v", err)
@@ -315,6 +321,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
+		if e.AnalogSensor3 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor3 не помещается в три байта: %d", e.AnalogSensor3)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor3)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS3: %v", err)
@@ -322,6 +331,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
+		if e.AnalogSensor4 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor4 не помещается в три байта: %d", e.AnalogSensor4)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor4)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS4: %v", err)
@@ -329,6 +341,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
+		if e.AnalogSensor5 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor5 не помещается в три байта: %d", e.AnalogSensor5)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor5)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS5: %v", err)
@@ -336,6 +351,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
+		if e.AnalogSensor6 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor6 не помещается в три байта: %d", e.AnalogSensor6)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor6)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS6: %v", err)
@@ -343,6 +361,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
+		if e.AnalogSensor7 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor7 не помещается в три байта: %d", e.AnalogSensor7)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor7)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS7: %v", err)
@@ -350,6 +371,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
+		if e.AnalogSensor8 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение AnalogSensor8 не помещается в три байта: %d", e.AnalogSensor8)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor8)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS8: %v", err)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 1aa445a..08da46c 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -145,6 +145,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 
 	sensVal := make([]byte, 4)
 	if c.CounterFieldExists1 == "1" {
+		if c.Counter1 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter1 не помещается в три байта: %d", c.Counter1)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter1)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN1: %v", err)
@@ -152,6 +155,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists2 == "1" {
+		if c.Counter2 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter2 не помещается в три байта: %d", c.Counter2)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter2)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN2: %v", err)
@@ -159,6 +165,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists3 == "1" {
+		if c.Counter3 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter3 не помещается в три байта: %d", c.Counter3)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter3)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN3: %v", err)
@@ -166,6 +175,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists4 == "1" {
+		if c.Counter4 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter4 не помещается в три байта: %d", c.Counter4)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter4)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN4: %v", err)
@@ -173,6 +185,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists5 == "1" {
+		if c.Counter5 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter5 не помещается в три байта: %d", c.Counter5)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter5)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN5: %v", err)
@@ -180,6 +195,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists6 == "1" {
+		if c.Counter6 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter6 не помещается в три байта: %d", c.Counter6)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter6)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN6: %v", err)
@@ -187,6 +205,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists7 == "1" {
+		if c.Counter7 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter7 не помещается в три байта: %d", c.Counter7)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter7)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN7: %v", err)
@@ -194,6 +215,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists8 == "1" {
+		if c.Counter8 > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Counter8 не помещается в три байта: %d", c.Counter8)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter8)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN8: %v", err)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 83bf2a4..bb3383c 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -141,10 +141,18 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
+	if sec := e.NavigationTime.Unix() - startDate.Unix(); sec < 0 || sec > 0xFFFFFFFF {
+		return result, fmt.Errorf("Некорректное время навигации: %v", e.NavigationTime)
+	}
 	if err = binary.Write(buf, binary.LittleEndian, uint32(e.NavigationTime.Sub(startDate).Seconds())); err != nil {
 		return result, fmt.Errorf("Не удалось записать время навигации: %v", err)
 	}
 
+	// полушарие задаётся флагами, поэтому координаты записываются по модулю
+	if !(e.Latitude >= 0 && e.Latitude <= 90) || !(e.Longitude >= 0 && e.Longitude <= 180) {
+		return result, fmt.Errorf("Некорректные координаты: широта %v, долгота %v", e.Latitude, e.Longitude)
+	}
+
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
 	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude/90*0xFFFFFFFF)); err != nil {
 		return result, fmt.Errorf("Не удалось записать широту: %v", err)
@@ -166,6 +174,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// скорость
+	if e.Speed > 0x3FFF/10 || e.DirectionHighestBit > 1 || e.AltitudeSign > 1 {
+		return result, fmt.Errorf("Некорректные скорость, старший бит направления или знак высоты: %d, %d, %d",
+			e.Speed, e.DirectionHighestBit, e.AltitudeSign)
+	}
 	speed := e.Speed*10 | uint16(e.DirectionHighestBit)<<15 // 15 бит
 	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
 	spd := make([]byte, 2)
@@ -180,6 +192,9 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	bytesTmpBuf := make([]byte, 4)
+	if e.Odometer > 0xFFFFFF {
+		return result, fmt.Errorf("Значение Odometer не помещается в три байта: %d", e.Odometer)
+	}
 	binary.LittleEndian.PutUint32(bytesTmpBuf, e.Odometer)
 	if _, err = buf.Write(bytesTmpBuf[:3]); err != nil {
 		return result, fmt.Errorf("Не удалось запсиать пройденное расстояние (пробег) в км: %v", err)
@@ -195,6 +210,9 @@ func (e *SrPosData) Encode() ([]byte, error) {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
+		if e.Altitude > 0xFFFFFF {
+			return result, fmt.Errorf("Значение Altitude не помещается в три байта: %d", e.Altitude)
+		}
 		binary.LittleEndian.PutUint32(bytesTmpBuf, e.Altitude)
 		if _, err = buf.Write(bytesTmpBuf[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось записать высоту над уровнем моря: %v", err)
-- 
2.43.0


From 62ceb7e17c3fb36a3decb4f6cb8cbe3ab9214fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:13 +0000
Subject: [PATCH 33/34] fix: refuse terminal identity texts longer than their
 fields

---
 libs/egts/egts_sr_term_identity.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 7fa2c79..a625a64 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -142,6 +142,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMEIE == "1" {
+		if len(e.IMEI) > 15 {
+			return result, fmt.Errorf("Некорректная длина IMEI: %d", len(e.IMEI))
+		}
 		wbb := 0
 		if wbb, err = buf.Write([]byte(e.IMEI)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMEI при авторизации")
@@ -153,6 +156,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMSIE == "1" {
+		if len(e.IMSI) > 16 {
+			return result, fmt.Errorf("Некорректная длина IMSI: %d", len(e.IMSI))
+		}
 		wbb := 0
 		if wbb, err = buf.Write([]byte(e.IMSI)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
@@ -164,6 +170,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.LNGCE == "1" {
+		if len(e.LanguageCode) > 3 {
+			return result, fmt.Errorf("Некорректная длина LanguageCode: %d", len(e.LanguageCode))
+		}
 		wbb := 0
 		if wbb, err = buf.Write([]byte(e.LanguageCode)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
@@ -175,6 +184,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.NIDE == "1" {
+		if len(e.NetworkIdentifier) != 3 {
+			return result, fmt.Errorf("Некорректная длина NetworkIdentifier: %d", len(e.NetworkIdentifier))
+		}
 		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
 			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
 		}
@@ -187,6 +199,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
+		if len(e.MobileNumber) > 15 {
+			return result, fmt.Errorf("Некорректная длина MobileNumber: %d", len(e.MobileNumber))
+		}
 		wbb := 0
 		if wbb, err = buf.Write([]byte(e.MobileNumber)); err != nil {
 			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
-- 
2.43.0


From e77d5a3e8e62f96c1accb33b377c13cb24ed81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:16 +0000
Subject: [PATCH 34/34] fix: refuse authorisation texts that contain the field
 separator

---
 libs/egts/egts_sr_auth_info.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/egts/egts_sr_auth_info.go b/libs/egts/egts_sr_auth_info.go
index 20428ac..f95e1c9 100644
--- a/libs/egts/egts_sr_auth_info.go
+++ b/libs/egts/egts_sr_auth_info.go
@@ -57,6 +57,12 @@ func (e *SrAuthInfo) Encode() ([]byte, error) {
 	//разделитель строковых полей из ГОСТ 54619 - 2011 секции EGTS_SR_AUTH_INFO
 	sep := byte(0x00)
 
+	// разделитель внутри поля исказил бы следующие за ним поля
+	if strings.IndexByte(e.UserName, sep) >= 0 || strings.IndexByte(e.UserPassword, sep) >= 0 ||
+		strings.IndexByte(e.ServerSequence, sep) >= 0 {
+		return result, fmt.Errorf("Поля EGTS_SR_AUTH_INFO не могут содержать нулевой байт")
+	}
+
 	result = append(result, []byte(e.UserName)...)
 	result = append(result, sep)
 
-- 
2.43.0

