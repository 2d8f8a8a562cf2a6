//go:build verif

package egts

// the checksums, for contracts of other packages
func VxCrc8(b []byte) byte    { return crc8(b) }
func VxCrc16(b []byte) uint16 { return crc16(b) }
