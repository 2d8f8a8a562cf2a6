//go:build verif

package main

import (
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

// ---- the receiver: what its parts are given and in which order they are started

type vxMain struct {
	path     string
	cfg      config.Settings
	badFile  bool // the file cannot be read
	badStore bool // a store cannot be connected

	opt    *string // where the path of the file goes
	name   string
	parsed bool
	reads  int
	levels int
	repo   *storage.Repository
	loads  int
	added  int
	news   int
	runs   int
}

var (
	vxM *vxMain
)

func vxStringVar(p *string, name, value, usage string) {
	*p = value
	vxM.opt, vxM.name = p, name
}

func vxString(name, value, usage string) *string {
	p := new(string)
	vxStringVar(p, name, value, usage)
	return p
}

func vxParse() {
	g := vxM
	vrt.Ensures("main.option", !g.parsed && g.opt != nil && g.name == "c")
	g.parsed = true
	if g.path != "" {
		*g.opt = g.path
	}
}

func vxNewConfig(path string) (config.Settings, error) {
	g := vxM
	vrt.Ensures("main.config", g.parsed && g.reads == 0 && path == g.path && path != "")
	g.reads++
	if g.badFile {
		return config.Settings{}, vrt.Err("err", 1)
	}
	return g.cfg, nil
}

func vxSetLevel(l log.Level) {
	g := vxM
	vrt.Ensures("main.level", g.reads == 1 && l == g.cfg.GetLogLevel())
	g.levels++
}

func vxLoad(r *storage.Repository, stores map[string]map[string]string) error {
	g := vxM
	vrt.Ensures("main.stores", g.reads == 1 && !g.badFile && g.loads == 0 && vrt.Same(stores, g.cfg.Store))
	g.loads++
	g.repo = r
	if g.badStore {
		return vrt.Err("err", 2)
	}
	return nil
}

func vxAdd(r *storage.Repository, s storage.Saver) {
	g := vxM
	_, byValue := s.(storage.LogConnector)
	_, byPtr := s.(*storage.LogConnector)
	vrt.Ensures("main.fallback", g.loads == 1 && g.badStore && g.added == 0 && r == g.repo && (byValue || byPtr))
	g.added++
}

func vxNewServer(addr string, ttl time.Duration, store *storage.Repository) server.Server {
	g := vxM
	vrt.Ensures("main.fallback", (g.added == 1) == g.badStore)
	vrt.Ensures("main.server", g.loads == 1 && g.news == 0 && addr == g.cfg.Host+":"+g.cfg.Port &&
		ttl == time.Duration(g.cfg.ConnTTl)*time.Second && store == g.repo)
	g.news++
	return server.Server{}
}

func vxRun(s *server.Server) {
	g := vxM
	vrt.Ensures("main.run", g.news == 1 && g.runs == 0)
	vrt.Ensures("main.level", g.levels == 1)
	g.runs++
}

// vxEnd: the program gives up only without a usable configuration, before it started anything
func vxEnd() {
	g := vxM
	vrt.Ensures("main.end", g.parsed && (g.path == "" && g.reads == 0 || g.badFile && g.reads == 1) && g.loads == 0 && g.runs == 0)
	vrt.Requires(false)
}

func vxFatalf(format string, args ...interface{}) { vxEnd() }
func vxFatal(args ...interface{})                 { vxEnd() }
func vxExit(code int)                             { vxEnd() }

func VC_receiver_main(path string, cfg config.Settings, badFile, badStore bool) {
	if !vrt.Symbolic() {
		vxMainNative(path, cfg, badFile, badStore)
		return
	}
	vrt.Replace("flag.StringVar", vxStringVar)
	vrt.Replace("flag.String", vxString)
	vrt.Replace("flag.Parse", vxParse)
	vrt.Replace("config.New", vxNewConfig)
	vrt.Replace("logrus.SetLevel", vxSetLevel)
	vrt.Replace("logrus.Fatalf", vxFatalf)
	vrt.Replace("logrus.Fatal", vxFatal)
	vrt.Replace("logrus.Fatalln", vxFatal)
	vrt.Replace("os.Exit", vxExit)
	vrt.Replace("(*storage.Repository).LoadStorages", vxLoad)
	vrt.Replace("(*storage.Repository).AddStore", vxAdd)
	vrt.Replace("server.New", vxNewServer)
	vrt.Replace("(*server.Server).Run", vxRun)
	vrt.Safety("main.safe")
	g := &vxMain{path: path, cfg: cfg, badFile: badFile, badStore: badStore}
	vxM = g
	main()
	vrt.Ensures("main.config", path != "" && !badFile)
	vrt.Ensures("main.run", g.runs == 1)
	vrt.Cover("main.fallback", badStore)
	vrt.Cover("main.normal", !badStore)
}

var vxMainNative = func(path string, cfg config.Settings, badFile, badStore bool) {}
