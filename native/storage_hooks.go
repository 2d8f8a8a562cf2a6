//go:build verif

package storage

import (
	"bytes"
	"encoding/json"
	"io"
	"reflect"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
	log "github.com/sirupsen/logrus"
)

type vxCapture struct{}

func (vxCapture) Levels() []log.Level { return log.AllLevels }

func (vxCapture) Fire(e *log.Entry) error {
	for k, v := range e.Data {
		vxLogKey = k
		vxLogText, _ = v.(string)
		vxFields++
	}
	vxLogged++
	return nil
}

// the documented form of a record
type vxNav struct {
	ServerID            string `json:"server_id"`
	IMEI                string `json:"IMEI"`
	ClientID            uint32 `json:"client_id"`
	ReceivedDt          string `json:"received_dt"`
	PacketID            uint32 `json:"packet_id"`
	NavigationTimestamp int64  `json:"navigation_unix_time"`
	AnSensors           []struct {
		SensorNumber uint8  `json:"sensor_number"`
		Value        uint32 `json:"value"`
	} `json:"an_sensors"`
	LiquidSensors []struct {
		SensorNumber uint8   `json:"sensor_number"`
		ModuleNumber uint16  `json:"module_number"`
		ErrorFlag    string  `json:"error_flag"`
		ValueUnit    string  `json:"value_unit"`
		ValueMm      uint32  `json:"value_mm"`
		ValueL       float64 `json:"value_l"`
	} `json:"liquid_sensors"`
	LocStates []struct {
		Latitude     float64 `json:"lat"`
		Longitude    float64 `json:"lng"`
		Speed        uint16  `json:"speed"`
		NavigationDt string  `json:"navigation_dt"`
	} `json:"loc_states"`
	LocStatesCount int32 `json:"loc_states_count"`
}

// vxCopy copies the fields of the same names
func vxCopy(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if f := src.FieldByName(dst.Type().Field(i).Name); f.IsValid() {
				vxCopy(dst.Field(i), f)
			}
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			vxCopy(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

func vxTree(text []byte) (v interface{}) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	d.Decode(&v)
	return v
}

func verifHooks() {
	vxNavNative = func(m *NavRecord, text []byte) {
		want := &vxNav{}
		vxCopy(reflect.ValueOf(want).Elem(), reflect.ValueOf(m).Elem())
		b, err := json.Marshal(want)
		vrt.Ensures("nav.names", err == nil && reflect.DeepEqual(vxTree(b), vxTree(text)))
	}
	log.SetOutput(io.Discard)
	log.AddHook(vxCapture{})
	vrt.Impls[reflect.TypeOf((*Saver)(nil)).Elem()] = []reflect.Type{reflect.TypeOf((*vxSaver)(nil))}
	vrt.Gens["VC_LoadStorages"] = func(r *vrt.Rand) []interface{} {
		in := map[string]map[string]string{}
		for n := r.Intn(4); n > 0; n-- {
			k := []string{"redis", "nsq", "redis", "nsq", "nats", "rabbitmq", "postgresql", "tarantool_queue", "log"}[r.Intn(9)]
			if r.Intn(8) == 0 {
				k = r.String()
			}
			c := map[string]string{}
			if k == "redis" || r.Intn(2) == 0 {
				c["server"] = "127.0.0.1:1"
				c["queue"] = r.String()
			}
			if k == "rabbitmq" || k == "nats" || k == "postgresql" || k == "tarantool_queue" || r.Intn(20) == 0 {
				c = nil
			}
			in[k] = c
		}
		return []interface{}{in}
	}
}
