//go:build verif

package config

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/ElectroUnion/egts-gate/libs/vrt"
)

func vxText(r *vrt.Rand) string {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("%q", r.Text(r.Intn(12)))
	case 1:
		return []string{"DEBUG", "INFO", "WARN", "ERROR", "debug", "\"\"", "null", "0", "010", "1e3", "true", "~"}[r.Intn(12)]
	case 2:
		return fmt.Sprint(r.Intn(70000))
	}
	return []string{"127.0.0.1", "localhost", "\"0.0.0.0\"", "a b", "'x'"}[r.Intn(5)]
}

func verifHooks() {
	vrt.Gens["VC_New"] = func(r *vrt.Rand) []interface{} {
		var b strings.Builder
		keys := []string{"host", "port", "log_level", "conn_ttl"}
		for _, k := range keys {
			if r.Intn(6) == 0 {
				continue
			}
			v := vxText(r)
			if k == "conn_ttl" && r.Intn(6) > 0 {
				v = fmt.Sprint([]int{r.Intn(1000), 32767 + r.Intn(100000), 1<<31 - 1 - r.Intn(3), -r.Intn(300)}[r.Intn(4)])
			}
			fmt.Fprintf(&b, "%s: %s\n", k, v)
		}
		if r.Intn(3) > 0 {
			b.WriteString("storage:\n")
			for n := r.Intn(4); n > 0; n-- {
				fmt.Fprintf(&b, "  %s%d:\n", []string{"nats", "redis", "postgresql", "log"}[r.Intn(4)], n)
				for m := r.Intn(4); m > 0; m-- {
					fmt.Fprintf(&b, "    %s%d: %s\n", []string{"host", "port", "user", "password"}[r.Intn(4)], m, vxText(r))
				}
			}
		}
		if r.Intn(10) == 0 {
			b.WriteString(r.Text(r.Intn(8)) + "\n")
		}
		return []interface{}{"", []byte(b.String()), r.Intn(20) == 0}
	}
	vrt.Gens["VC_Settings"] = func(r *vrt.Rand) []interface{} {
		l := []string{"DEBUG", "INFO", "WARN", "ERROR", "TRACE", "FATAL", "PANIC", "WARNING", "", "5"}[r.Intn(10)]
		switch r.Intn(6) {
		case 0:
			l = strings.ToLower(l)
		case 1:
			l = " " + l
		case 2:
			l += " "
		case 3:
			l = strings.Title(strings.ToLower(l))
		case 4:
			l = r.String()
		}
		s := Settings{Host: r.String(), Port: r.String(), LogLevel: l}
		reflect.ValueOf(&s.ConnTTl).Elem().SetInt(int64([]int{r.Intn(1000), 1 << 20, -5, 0}[r.Intn(4)]))
		return []interface{}{s}
	}
}
