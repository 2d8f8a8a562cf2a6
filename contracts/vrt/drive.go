//go:build verif

package vrt

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"path"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Drive executes contracts natively: replays given arguments, then searches for arguments that
// violate a clause until the time is over.

type job struct {
	VCs     []string `json:"vcs"`
	Labels  []string `json:"labels"`
	Seed    int64    `json:"seed"`
	Seconds float64  `json:"seconds"`
	Given   []given  `json:"given"`
	Replay  *found   `json:"replay"`
	Out     string   `json:"out"`
	Consts  []int64  `json:"consts"`
	Strs    []string `json:"strs"`
}

type given struct {
	VC   string            `json:"vc"`
	Args []json.RawMessage `json:"args"`
}

type found struct {
	VC     string            `json:"vc"`
	Label  string            `json:"label"`
	Detail string            `json:"detail"`
	Seed   int64             `json:"seed"`
	Gen    bool              `json:"gen"`
	Args   []json.RawMessage `json:"args"`
	Shown  []string          `json:"shown"`
	Runs   int               `json:"runs"`
	Skips  int               `json:"skips"`
	Valid  map[string]int    `json:"valid"`
	Hit    bool              `json:"hit"`
}

// Gens are generators of the arguments of a contract; TypeGens of values of a type.
var (
	Gens     = map[string]func(*Rand) []interface{}{}
	TypeGens = map[reflect.Type]func(*Rand) interface{}{}
	Impls    = map[reflect.Type][]reflect.Type{}
	safety   string
)

// Rand is a source of biased random values.
type Rand struct {
	*rand.Rand
	Consts []int64
	Strs   []string
}

func (r *Rand) Byte() byte {
	switch r.Intn(4) {
	case 0:
		return []byte{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
	case 1:
		return byte(1) << uint(r.Intn(8))
	}
	return byte(r.Intn(256))
}

// Bits is a non-negative number of at most n bits, biased to boundaries and constants of the code.
func (r *Rand) Bits(n int) uint64 {
	mask := ^uint64(0)
	if n < 64 {
		mask = 1<<uint(n) - 1
	}
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return mask
	case 2:
		return (r.Uint64() >> uint(64-1-r.Intn(n))) & mask
	case 3:
		return (1 << uint(r.Intn(n))) & mask
	case 4, 5:
		if len(r.Consts) > 0 {
			return uint64(r.Consts[r.Intn(len(r.Consts))]+int64(r.Intn(3)-1)) & mask
		}
	}
	return r.Uint64() & mask
}

func (r *Rand) Len() int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return r.Intn(4)
	case 2:
		return 14 + r.Intn(4)
	case 3:
		if len(r.Consts) > 0 {
			c := r.Consts[r.Intn(len(r.Consts))] + int64(r.Intn(3)-1)
			if c >= 0 && c <= 70000 {
				return int(c)
			}
		}
	case 4:
		return r.Intn(300)
	}
	return r.Intn(48)
}

func (r *Rand) BytesN(n int) []byte {
	b := make([]byte, n)
	m := r.Intn(3)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = r.Byte()
		default:
			b[i] = byte(r.Intn(3))
		}
	}
	return b
}

func (r *Rand) Text(n int) string {
	b := make([]byte, n)
	m := r.Intn(3)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte('0' + r.Intn(10))
		case 1:
			b[i] = byte(32 + r.Intn(95))
		default:
			b[i] = byte(1 + r.Intn(255))
		}
	}
	return string(b)
}

func (r *Rand) String() string {
	switch r.Intn(6) {
	case 0:
		return []string{"0", "1"}[r.Intn(2)]
	case 1:
		return []string{"00", "01", "10", "11"}[r.Intn(4)]
	case 2:
		if len(r.Strs) > 0 {
			return r.Strs[r.Intn(len(r.Strs))]
		}
	}
	return r.Text(r.Len())
}

func (r *Rand) Flag(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string('0' + rune(r.Intn(2)))
	}
	return s
}

func (r *Rand) Float() float64 {
	switch r.Intn(6) {
	case 0:
		return float64(r.Intn(181))
	case 1:
		return []float64{0, 90, 180, 89.999999, 179.999999, 45, 1e-9}[r.Intn(7)]
	case 2:
		return (r.Rand.Float64()*2 - 1) * 200
	case 3:
		return float64(r.Intn(200000)) / 100
	}
	return r.Rand.Float64() * 90
}

var timeType = reflect.TypeOf(time.Time{})

// Value generates a value of a type.
func (r *Rand) Value(t reflect.Type, d int) reflect.Value {
	if g, ok := TypeGens[t]; ok && d < 12 {
		v := g(r)
		if v == nil {
			return reflect.Zero(t)
		}
		return reflect.ValueOf(v)
	}
	v := reflect.New(t).Elem()
	if t == timeType {
		v.Set(reflect.ValueOf(time.Unix(1262304000+int64(r.Bits(32)), 0).UTC()))
		return v
	}
	if d > 6 {
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(r.Bits(62)) * int64(1-2*r.Intn(2)))
		if r.Intn(2) == 0 {
			v.SetInt(int64(r.Intn(6)))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32:
		v.SetInt(int64(r.Bits(t.Bits() - 1)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Bits(t.Bits()))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(r.Float())
	case reflect.String:
		v.SetString(r.String())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(r.BytesN(r.Len()))
		} else if n := r.Intn(5); n > 0 {
			s := reflect.MakeSlice(t, n-1, n-1)
			for i := 0; i < n-1; i++ {
				s.Index(i).Set(r.Value(t.Elem(), d+1).Convert(t.Elem()))
			}
			v.Set(s)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(r.Value(t.Elem(), d+1))
		}
	case reflect.Map:
		if r.Intn(8) > 0 {
			m := reflect.MakeMap(t)
			for n := r.Intn(4); n > 0; n-- {
				m.SetMapIndex(r.Value(t.Key(), d+1), r.Value(t.Elem(), d+1))
			}
			v.Set(m)
		}
	case reflect.Ptr:
		if r.Intn(12) > 0 || d == 0 {
			p := reflect.New(t.Elem())
			p.Elem().Set(r.Value(t.Elem(), d+1))
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(r.Value(t.Field(i).Type, d+1).Convert(t.Field(i).Type))
			}
		}
	case reflect.Interface:
		if ts := Impls[t]; len(ts) > 0 && r.Intn(16) > 0 {
			ct := ts[r.Intn(len(ts))]
			x := r.Value(ct, d+1)
			if ct.Kind() == reflect.Ptr && x.IsNil() {
				x = reflect.New(ct.Elem())
			}
			v.Set(x)
		}
	}
	return v
}

func fromJSON(raw json.RawMessage, t reflect.Type) (v reflect.Value, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	v = reflect.New(t).Elem()
	s := strings.TrimSpace(string(raw))
	if s == "null" {
		return v, nil
	}
	if t == timeType {
		var o struct {
			T string `json:"t"`
		}
		if err = json.Unmarshal(raw, &o); err != nil {
			return
		}
		ns, e := strconv.ParseInt(o.T, 10, 64)
		if e != nil {
			return v, e
		}
		v.Set(reflect.ValueOf(time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(ns))))
		return v, nil
	}
	var o struct {
		X string            `json:"x"`
		F []json.RawMessage `json:"f"`
		S []json.RawMessage `json:"s"`
		P json.RawMessage   `json:"p"`
	}
	switch t.Kind() {
	case reflect.Bool:
		var b bool
		err = json.Unmarshal(raw, &b)
		v.SetBool(b)
	case reflect.Float64, reflect.Float32:
		var f float64
		err = json.Unmarshal(raw, &f)
		v.SetFloat(f)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var n string
		if err = json.Unmarshal(raw, &n); err != nil {
			return
		}
		i, e := strconv.ParseInt(n, 10, 64)
		v.SetInt(i)
		err = e
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var n string
		if err = json.Unmarshal(raw, &n); err != nil {
			return
		}
		i, e := strconv.ParseUint(n, 10, 64)
		v.SetUint(i)
		err = e
	case reflect.String:
		if err = json.Unmarshal(raw, &o); err != nil {
			return
		}
		b, e := hex.DecodeString(o.X)
		v.SetString(string(b))
		err = e
	case reflect.Slice:
		if err = json.Unmarshal(raw, &o); err != nil {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			b, e := hex.DecodeString(o.X)
			v.SetBytes(b)
			return v, e
		}
		v.Set(reflect.MakeSlice(t, len(o.S), len(o.S)))
		for i := range o.S {
			x, e := fromJSON(o.S[i], t.Elem())
			if e != nil {
				return v, e
			}
			v.Index(i).Set(x)
		}
	case reflect.Struct:
		if err = json.Unmarshal(raw, &o); err != nil {
			return
		}
		for i := range o.F {
			x, e := fromJSON(o.F[i], t.Field(i).Type)
			if e != nil {
				return v, e
			}
			if v.Field(i).CanSet() {
				v.Field(i).Set(x)
			}
		}
	case reflect.Ptr:
		if err = json.Unmarshal(raw, &o); err != nil {
			return
		}
		x, e := fromJSON(o.P, t.Elem())
		if e != nil {
			return v, e
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(x)
		v.Set(p)
	default:
		return v, fmt.Errorf("cannot replay a %s", t)
	}
	return
}

func shown(args []reflect.Value) []string {
	var out []string
	for _, a := range args {
		s := show1(a, 0)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		out = append(out, s)
	}
	return out
}

func show1(a reflect.Value, d int) string {
	if d > 8 || !a.IsValid() {
		return "?"
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if a.Len() > 1200 {
				return fmt.Sprintf("hex(%d bytes):%x...", a.Len(), a.Bytes()[:1200])
			}
			return fmt.Sprintf("hex:%x", a.Bytes())
		}
		s := "["
		for i := 0; i < a.Len() && i < 40; i++ {
			s += show1(a.Index(i), d+1) + " "
		}
		return s + "]"
	case reflect.Ptr:
		if a.IsNil() {
			return "nil"
		}
		return "&" + show1(a.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() {
			return "nil"
		}
		return show1(a.Elem(), d+1)
	case reflect.String:
		return strconv.Quote(a.String())
	case reflect.Struct:
		if a.Type() == timeType {
			if a.CanInterface() {
				return a.Interface().(time.Time).String()
			}
			return "time"
		}
		s := a.Type().Name() + "{"
		for i := 0; i < a.NumField(); i++ {
			s += a.Type().Field(i).Name + ":" + show1(a.Field(i), d+1) + " "
		}
		return s + "}"
	}
	return fmt.Sprint(a)
}

type runState struct {
	label atomic.Value
	start int64
	info  atomic.Value
}

var cur runState

func call1(f reflect.Value, args []reflect.Value) (skipped bool) {
	Failures = nil
	safety = "safe"
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Skip); ok {
				skipped = true
				Failures = nil
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/vrt/") && !strings.Contains(l, "/runtime/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 4 {
				keep = keep[:4]
			}
			Failures = append(Failures, Fail{Label: safety, Detail: fmt.Sprintf("panic: %v at %s", x, strings.Join(keep, " < "))})
		}
	}()
	f.Call(args)
	return false
}

func matches(l string, globs []string) bool {
	for _, g := range globs {
		if ok, _ := path.Match(g, l); ok {
			return true
		}
	}
	return false
}

func h64(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() & math.MaxInt64)
}

// Errs are the errors Err chooses from
var Errs = []error{errors.New("failed"), io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, context.DeadlineExceeded, os.ErrNotExist, syscall.EMFILE, syscall.ECONNRESET}

func choices(seed int64, j *job) {
	mk := func(name string, n int) *Rand {
		return &Rand{rand.New(rand.NewSource(h64(seed, name, n))), j.Consts, j.Strs}
	}
	ChooseBool = func(name string, n int) bool {
		p := []int{3, 10, 10, 17, 20, 0}[h64(seed, name)%6]
		return mk(name, n).Intn(20) < p
	}
	ChooseInt = func(name string, n int) int {
		r := mk(name, n)
		if r.Intn(2) == 0 {
			return r.Intn(8)
		}
		return int(r.Bits(20))
	}
	ChooseErr = func(name string, n int) error {
		return Errs[mk("err "+name, n).Intn(len(Errs))]
	}
	ChooseString = func(name string, n int) string {
		r := mk(name, n)
		return r.Value(reflect.TypeOf(""), 0).String()
	}
	ChooseBytes = func(name string, n int) []byte {
		r := mk(name, n)
		return r.BytesN(r.Len())
	}
}

func Drive(vcs map[string]interface{}) {
	file := os.Getenv("VERIF_JOB")
	if file == "" {
		return
	}
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var j job
	if err := json.Unmarshal(data, &j); err != nil {
		panic(err)
	}
	res := found{Valid: map[string]int{}}
	write := func() {
		b, _ := json.Marshal(res)
		os.WriteFile(j.Out+".tmp", b, 0644)
		os.Rename(j.Out+".tmp", j.Out)
	}
	var names []string
	for _, n := range j.VCs {
		if _, ok := vcs[n]; ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var started int64
	type running struct {
		vc, safety string
		seed       int64
		gen        bool
		raw        []json.RawMessage
		args       []reflect.Value
	}
	var now atomic.Value
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := atomic.LoadInt64(&started)
			if s != 0 && time.Now().UnixNano()-s > int64(20*time.Second) {
				r := now.Load().(running)
				if matches(safety, j.Labels) || j.Replay != nil {
					res.VC, res.Label, res.Detail, res.Seed, res.Gen, res.Args, res.Hit = r.vc, safety, "the call does not end", r.seed, r.gen, r.raw, true
					res.Shown = shown(r.args)
				}
				write()
				os.Exit(0)
			}
		}
	}()
	try := func(vc string, args []reflect.Value, seed int64, gen bool, raw []json.RawMessage) bool {
		res.Runs++
		choices(seed, &j)
		sh := shown(args)
		now.Store(running{vc, "", seed, gen, raw, args})
		atomic.StoreInt64(&started, time.Now().UnixNano())
		skipped := call1(reflect.ValueOf(vcs[vc]), args)
		atomic.StoreInt64(&started, 0)
		if skipped {
			res.Skips++
			return false
		}
		res.Valid[vc]++
		for _, f := range Failures {
			if matches(f.Label, j.Labels) {
				res.VC, res.Label, res.Detail, res.Seed, res.Gen, res.Args, res.Shown, res.Hit = vc, f.Label, f.Detail, seed, gen, raw, sh, true
				return true
			}
		}
		return false
	}
	decode := func(vc string, raw []json.RawMessage) ([]reflect.Value, bool) {
		ft := reflect.TypeOf(vcs[vc])
		if ft.NumIn() != len(raw) {
			return nil, false
		}
		var args []reflect.Value
		for i := range raw {
			v, err := fromJSON(raw[i], ft.In(i))
			if err != nil {
				return nil, false
			}
			args = append(args, v)
		}
		return args, true
	}
	generate := func(vc string, seed int64) []reflect.Value {
		r := &Rand{rand.New(rand.NewSource(seed)), j.Consts, j.Strs}
		ft := reflect.TypeOf(vcs[vc])
		var args []reflect.Value
		if g, ok := Gens[vc]; ok {
			for i, x := range g(r) {
				if x == nil {
					args = append(args, reflect.Zero(ft.In(i)))
				} else {
					args = append(args, reflect.ValueOf(x).Convert(ft.In(i)))
				}
			}
			return args
		}
		for i := 0; i < ft.NumIn(); i++ {
			args = append(args, r.Value(ft.In(i), 0))
		}
		return args
	}
	if j.Replay != nil {
		r := j.Replay
		j.Labels = []string{"*"}
		var args []reflect.Value
		ok := true
		if r.Gen {
			args = generate(r.VC, r.Seed)
		} else {
			args, ok = decode(r.VC, r.Args)
		}
		if ok {
			try(r.VC, args, r.Seed, r.Gen, r.Args)
			for _, f := range Failures {
				if f.Label == r.Label {
					res.VC, res.Label, res.Detail, res.Shown, res.Hit = r.VC, f.Label, f.Detail, shown(args), true
				}
			}
		}
		write()
		return
	}
	for _, g := range j.Given {
		if _, ok := vcs[g.VC]; !ok {
			continue
		}
		if args, ok := decode(g.VC, g.Args); ok {
			for s := int64(1); s <= 3; s++ {
				if try(g.VC, args, s, false, g.Args) {
					write()
					return
				}
			}
		}
	}
	end := time.Now().Add(time.Duration(j.Seconds * float64(time.Second)))
	for it := int64(0); len(names) > 0 && time.Now().Before(end); it++ {
		for _, vc := range names {
			seed := h64(j.Seed, vc, it)
			if try(vc, generate(vc, seed), seed, true, nil) {
				write()
				return
			}
		}
	}
	write()
}
