//go:build verif

package config

import (
	"os"
	"time"

	log "github.com/sirupsen/logrus"
	"gopkg.in/yaml.v2"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

type vxFile struct {
	path    string
	data    []byte
	missing bool
	reads   int
}

var vxF *vxFile

func vxReadFile(name string) ([]byte, error) {
	f := vxF
	f.reads++
	vrt.Ensures("cfg.new.file", name == f.path)
	if f.missing {
		return nil, vrt.Err("err", 1)
	}
	return f.data, nil
}

const vxShape = "{conn_ttl int; host string; log_level string; port string; storage map[string]map[string]string}"

// vxSettings is the documented format of the file (native runs compare against it)
type vxSettings struct {
	Host     string                       `yaml:"host"`
	Port     string                       `yaml:"port"`
	ConnTTl  int                          `yaml:"conn_ttl"`
	LogLevel string                       `yaml:"log_level"`
	Store    map[string]map[string]string `yaml:"storage"`
}

func VC_New(path string, data []byte, missing bool) {
	vrt.Replace("os.ReadFile", vxReadFile)
	vrt.Replace("ioutil.ReadFile", vxReadFile)
	vrt.Safety("cfg.safe")
	vxF = &vxFile{path: path, data: data, missing: missing}
	if vrt.Symbolic() {
		vrt.Ensures("cfg.new.names", vrt.Shape("yaml", Settings{}) == vxShape)
		want := Settings{}
		werr := yaml.Unmarshal(data, &want)
		got, err := New(path)
		vrt.Ensures("cfg.new.file", vxF.reads == 1)
		vrt.Ensures("cfg.new.error", (err != nil) == (missing || werr != nil))
		vrt.Ensures("cfg.new.values", err != nil || vrt.Same(got, want))
		vrt.Cover("cfg.new.ok", err == nil)
		vrt.Cover("cfg.new.missing", missing)
		return
	}
	path = os.Getenv("HOME") + "/settings"
	if missing {
		os.Remove(path)
	} else if os.WriteFile(path, data, 0600) != nil {
		return
	}
	want := vxSettings{}
	werr := yaml.Unmarshal(data, &want)
	got, err := New(path)
	vrt.Ensures("cfg.new.error", (err != nil) == (missing || werr != nil))
	vrt.Ensures("cfg.new.values", err != nil || got.Host == want.Host && got.Port == want.Port && int(got.ConnTTl) == want.ConnTTl &&
		got.LogLevel == want.LogLevel && len(got.Store) == len(want.Store) && vrt.Same(got.Store, want.Store))
}

func VC_Settings(s Settings) {
	vrt.Safety("cfg.safe")
	host, port, ttl, level := s.Host, s.Port, s.ConnTTl, s.LogLevel
	vrt.Ensures("cfg.addr", s.GetListenAddress() == host+":"+port)
	vrt.Ensures("cfg.ttl", s.GetEmptyConnTTL() == time.Duration(ttl)*time.Second)
	want := log.InfoLevel
	if level == "DEBUG" {
		want = log.DebugLevel
	} else if level == "WARN" {
		want = log.WarnLevel
	} else if level == "ERROR" {
		want = log.ErrorLevel
	}
	vrt.Ensures("cfg.level", s.GetLogLevel() == want)
	vrt.Ensures("cfg.level", s.Host == host && s.Port == port && s.ConnTTl == ttl && s.LogLevel == level)
	vrt.Cover("cfg.debug", level == "DEBUG")
	vrt.Cover("cfg.other", level == "other")
}
