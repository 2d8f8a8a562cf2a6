//go:build verif

// Package vrt is the contract runtime.  Under the verifier its functions are intrinsics
// (see engine/models.py); compiled natively they execute the contract on concrete values.
package vrt

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

// Ghost is the specification of a loop, run in lockstep with the loop in the code.
type Ghost interface {
	More() bool
	Step()
}

type beginner interface{ Begin() }

// Skip is panicked by Requires when a concrete input is outside the precondition.
type Skip struct{}

// Fail is one violated clause.
type Fail struct{ Label, Detail string }

// Failures collects the clauses violated by the current native run.
var Failures []Fail

// Note lets contracts attach values to a failure report.
var Note func(label string) string

func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}

func Ensures(label string, c bool) {
	if !c {
		Failures = append(Failures, Fail{Label: label})
	}
}

func Cover(label string, c bool) {}

// Loop announces the specification of the next loop.  Natively the preconditions stated by its
// iterations are checked on a copy before the code runs.
func Loop(label string, g Ghost) {
	if _, ok := g.(beginner); !ok {
		return
	}
	if p, ok := g.(interface{ NoPrecheck() }); ok {
		p.NoPrecheck()
		return
	}
	v := reflect.ValueOf(g)
	c := reflect.New(v.Elem().Type())
	c.Elem().Set(v.Elem())
	fs := Failures
	sf := safety
	defer func() {
		Failures, safety = fs, sf
		if x := recover(); x != nil {
			if s, ok := x.(Skip); ok {
				panic(s)
			}
		}
	}()
	Finish(c.Interface().(Ghost))
}

func Finish(g Ghost) {
	for n := 0; g.More(); n++ {
		if b, ok := g.(beginner); ok {
			b.Begin()
		}
		g.Step()
		if n > 1<<22 {
			panic("specification loop does not end")
		}
	}
}

func Abstract(names string) {}
func Pure(names string)     {}
func Concrete(names string) {}

// Unify: two calls of the (abstracted) functions with provably equal arguments are identified early.
func Unify(names string) {}

// Replace: calls of the named function are decided by its contract f (same signature), proved elsewhere.
func Replace(name string, f interface{}) {}

// Watch: f sees the arguments of every call of the named function.
func Watch(name string, f interface{}) {}

// Keys names the map keys the contract speaks about.
func Keys(k ...string) {}

// RangeKey is the i-th key in the order of the last iteration over m (under the verifier).
func RangeKey(m interface{}, i int) string { return "" }

// NonNil: no element of a slice of interfaces is nil.
func NonNil(x interface{}) bool {
	v := reflect.ValueOf(x)
	for i := 0; i < v.Len(); i++ {
		if v.Index(i).IsNil() {
			return false
		}
	}
	return true
}

// Spawned is true while a function is called by a go statement (under the verifier).
func Spawned() bool { return true }

// Shape describes a type as an encoder that uses the given kind of struct tags sees it.
func Shape(tag string, v interface{}) string { return shape(tag, reflect.TypeOf(v), 0) }

func shape(tag string, t reflect.Type, d int) string {
	if d > 12 {
		return "^"
	}
	switch t.Kind() {
	case reflect.Ptr:
		return "*" + shape(tag, t.Elem(), d+1)
	case reflect.Slice:
		return "[]" + shape(tag, t.Elem(), d+1)
	case reflect.Array:
		return fmt.Sprintf("[%d]", t.Len()) + shape(tag, t.Elem(), d+1)
	case reflect.Map:
		return "map[" + shape(tag, t.Key(), d+1) + "]" + shape(tag, t.Elem(), d+1)
	case reflect.Struct:
		if t.String() == "time.Time" {
			return "time"
		}
		fs := []string{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			n := f.Tag.Get(tag)
			if n == "-" || f.PkgPath != "" {
				continue
			}
			if n == "" {
				n = f.Name
				if tag == "yaml" {
					n = strings.ToLower(n)
				}
			}
			fs = append(fs, n+" "+shape(tag, f.Type, d+1))
		}
		sort.Strings(fs) // the order of the fields has no meaning
		return "{" + strings.Join(fs, "; ") + "}"
	case reflect.Interface, reflect.Func, reflect.Chan:
		return t.Kind().String()
	}
	return t.Kind().String()
}

// Contract uses a clause of a callee's contract that is proved elsewhere (at label).
func Contract(label string, c bool) {}
func Safety(label string)           { safety = label }

// Frame declares that from here on only new objects and the listed ones are written.
func Frame(label string, allowed ...interface{}) {}
func EndFrame()                                  {}

// Symbolic is true under the verifier and false natively.
func Symbolic() bool { return false }

// Same is deep equality (errors: nil-ness only).
func Same(a, b interface{}) bool {
	return deep(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func deep(a, b reflect.Value, d int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if d > 40 {
		return true
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.CanInterface() && a.Type().String() == "time.Time" {
			return fmt.Sprint(a.Interface()) == fmt.Sprint(b.Interface())
		}
		for i := 0; i < a.NumField(); i++ {
			if !deep(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return deep(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type().Implements(errType) {
			return true
		}
		return deep(a.Elem(), b.Elem(), d+1)
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !deep(a.MapIndex(k), b.MapIndex(k), d+1) {
				return false
			}
		}
		return true
	}
	return true
}

// EqBytes compares contents (nil and empty are the same).
func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// At is b[i]; outside b it is some byte (0 natively, unspecified under the verifier).
func At(b []byte, i int) byte {
	if i < 0 || i >= len(b) {
		return 0
	}
	return b[i]
}

// Sub is b[i:i+n]; meaningless (nil natively) where that is out of range.
func Sub(b []byte, i, n int) []byte {
	if i < 0 || n < 0 || i+n > len(b) {
		return nil
	}
	return b[i : i+n : i+n]
}

// NoByte is: c does not occur in s.
func NoByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return false
		}
	}
	return true
}

// Near is |a-b| <= tol.
func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// RAdd, RSub, RMul, RDiv are exact real arithmetic under the verifier.
func RAdd(a, b float64) float64 { return a + b }
func RSub(a, b float64) float64 { return a - b }
func RMul(a, b float64) float64 { return a * b }
func RDiv(a, b float64) float64 { return a / b }

// Choices made by the environment (a store that fails, bytes on a connection, ...).
var (
	ChooseBool   = func(name string, n int) bool { return false }
	ChooseInt    = func(name string, n int) int { return 0 }
	ChooseString = func(name string, n int) string { return "" }
	ChooseErr    = func(name string, n int) error { return nil }
	ChooseBytes  = func(name string, n int) []byte { return nil }
)

// Err is an error, not nil, and else arbitrary
func Err(name string, n int) error { return ChooseErr(name, n) }

func Bool(name string, n int) bool     { return ChooseBool(name, n) }
func Int(name string, n int) int       { return ChooseInt(name, n) }
func String(name string, n int) string { return ChooseString(name, n) }
func Bytes(name string, n int) []byte  { return ChooseBytes(name, n) }
