// Command extract loads Go packages (from the working tree, plus an overlay
// with the contract files), builds go/ssa for them and writes the SSA of every
// function of the target module, and of the standard-library functions they
// reach in an allow-list of packages, as JSON.  Nothing of a function body is
// dropped: the whole SSA of each function is written.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type M = map[string]interface{}

var (
	fset    *token.FileSet
	typeMap typeutil.Map
	typeOut []M
	funcs   = map[string]M{}
	queue   []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	globals = map[string]M{}
	prog    *ssa.Program
	modPath string
	inlineP = map[string]bool{}
	named   []*types.Named
	namedS  = map[*types.TypeName]bool{}
)

func typeID(t types.Type) int {
	t = types.Unalias(t)
	if v := typeMap.At(t); v != nil {
		return v.(int)
	}
	id := len(typeOut)
	m := M{}
	typeOut = append(typeOut, m)
	typeMap.Set(t, id)
	m["str"] = t.String()
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Named:
		m["k"] = "named"
		m["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			m["pkg"] = t.Obj().Pkg().Path()
		}
		m["u"] = typeID(t.Underlying())
		addNamed(t)
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typeID(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typeID(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = typeID(t.Elem())
		m["n"] = t.Len()
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fm := M{"n": f.Name(), "t": typeID(f.Type()), "emb": f.Embedded()}
			if t.Tag(i) != "" {
				fm["tag"] = t.Tag(i)
			}
			fs = append(fs, fm)
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["m"] = ms
	case *types.Signature:
		m["k"] = "func"
		m["res"] = typeID(t.Results())
		m["par"] = typeID(t.Params())
	case *types.Map:
		m["k"] = "map"
		m["key"] = typeID(t.Key())
		m["e"] = typeID(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = typeID(t.Elem())
	case *types.Tuple:
		m["k"] = "tuple"
		es := []int{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typeID(t.At(i).Type()))
		}
		m["es"] = es
	default:
		m["k"] = "other"
	}
	return id
}

func addNamed(t *types.Named) {
	if namedS[t.Obj()] {
		return
	}
	namedS[t.Obj()] = true
	if t.Obj().Pkg() != nil && (strings.HasPrefix(t.Obj().Pkg().Path(), modPath) || inlineP[t.Obj().Pkg().Path()]) {
		named = append(named, t)
	}
}

func want(f *ssa.Function) bool {
	p := f.Package()
	if p == nil {
		// synthetic wrappers, instantiated generics, ...
		if o := f.Origin(); o != nil && o != f {
			return want(o)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			pp := f.Object().Pkg().Path()
			return strings.HasPrefix(pp, modPath) || inlineP[pp]
		}
		return false
	}
	pp := p.Pkg.Path()
	return strings.HasPrefix(pp, modPath) || inlineP[pp]
}

func reach(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	if want(f) {
		queue = append(queue, f)
	} else {
		stub(f)
	}
}

func cst(c *ssa.Const) M {
	m := M{"k": "const", "t": typeID(c.Type())}
	if c.Value == nil {
		m["z"] = true
		return m
	}
	switch c.Value.Kind() {
	case constant.Bool:
		m["b"] = constant.BoolVal(c.Value)
	case constant.String:
		m["s"] = hex.EncodeToString([]byte(constant.StringVal(c.Value)))
	case constant.Int:
		m["i"] = c.Value.ExactString()
	case constant.Float:
		m["r"] = c.Value.ExactString()
		f, _ := constant.Float64Val(c.Value)
		m["f"] = fmt.Sprintf("%x", f)
	default:
		m["x"] = c.Value.ExactString()
	}
	return m
}

func val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return cst(v)
	case *ssa.Function:
		reach(v)
		return M{"k": "func", "f": v.String(), "t": typeID(v.Type())}
	case *ssa.Global:
		g := v.String()
		if _, ok := globals[g]; !ok {
			pk := ""
			if v.Pkg != nil {
				pk = v.Pkg.Pkg.Path()
			}
			globals[g] = M{"t": typeID(v.Type()), "pkg": pk}
		}
		return M{"k": "global", "g": g}
	case *ssa.Builtin:
		return M{"k": "builtin", "b": v.Name(), "t": 0}
	}
	return v.Name()
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args), "v": val(c.Value)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["sig"] = typeID(c.Method.Type())
		m["it"] = typeID(c.Value.Type())
		m["mpkg"] = ""
		if c.Method.Pkg() != nil {
			m["mpkg"] = c.Method.Pkg().Path()
		}
	} else {
		m["sig"] = typeID(c.Signature())
	}
	return m
}

func instr(in ssa.Instruction) M {
	m := M{"op": strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")}
	if p := pos(in.Pos()); p != "" {
		m["p"] = p
	}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		m["heap"] = in.Heap
		m["c"] = in.Comment
	case *ssa.BinOp:
		m["o"] = in.Op.String()
		m["x"] = val(in.X)
		m["y"] = val(in.Y)
		m["xt"] = typeID(in.X.Type())
		m["yt"] = typeID(in.Y.Type())
	case *ssa.UnOp:
		m["o"] = in.Op.String()
		m["x"] = val(in.X)
		m["xt"] = typeID(in.X.Type())
		m["ok"] = in.CommaOk
	case *ssa.Call:
		m["call"] = call(&in.Call)
	case *ssa.Defer:
		m["call"] = call(&in.Call)
	case *ssa.Go:
		m["call"] = call(&in.Call)
	case *ssa.ChangeInterface:
		m["x"] = val(in.X)
	case *ssa.ChangeType:
		m["x"] = val(in.X)
	case *ssa.Convert:
		m["x"] = val(in.X)
		m["xt"] = typeID(in.X.Type())
	case *ssa.Extract:
		m["x"] = val(in.Tuple)
		m["i"] = in.Index
	case *ssa.Field:
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.FieldAddr:
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.If:
		m["x"] = val(in.Cond)
	case *ssa.Index:
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
		m["xt"] = typeID(in.X.Type())
		m["yt"] = typeID(in.Index.Type())
	case *ssa.IndexAddr:
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
		m["xt"] = typeID(in.X.Type())
		m["yt"] = typeID(in.Index.Type())
	case *ssa.Lookup:
		m["x"] = val(in.X)
		m["y"] = val(in.Index)
		m["xt"] = typeID(in.X.Type())
		m["yt"] = typeID(in.Index.Type())
		m["ok"] = in.CommaOk
	case *ssa.MakeChan:
		m["x"] = val(in.Size)
	case *ssa.MakeClosure:
		m["x"] = val(in.Fn)
		m["b"] = vals(in.Bindings)
	case *ssa.MakeInterface:
		m["x"] = val(in.X)
		m["xt"] = typeID(in.X.Type())
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["l"] = val(in.Len)
		m["cap"] = val(in.Cap)
		m["lt"] = typeID(in.Len.Type())
		m["ct"] = typeID(in.Cap.Type())
	case *ssa.MapUpdate:
		m["m"] = val(in.Map)
		m["key"] = val(in.Key)
		m["x"] = val(in.Value)
	case *ssa.Next:
		m["x"] = val(in.Iter)
		m["str"] = in.IsString
	case *ssa.Panic:
		m["x"] = val(in.X)
	case *ssa.Phi:
		m["e"] = vals(in.Edges)
		m["c"] = in.Comment
	case *ssa.Range:
		m["x"] = val(in.X)
		m["xt"] = typeID(in.X.Type())
	case *ssa.Return:
		m["r"] = vals(in.Results)
	case *ssa.Select:
	case *ssa.Send:
		m["x"] = val(in.X)
		m["ch"] = val(in.Chan)
	case *ssa.Slice:
		m["x"] = val(in.X)
		m["xt"] = typeID(in.X.Type())
		m["lo"] = val(in.Low)
		m["hi"] = val(in.High)
		m["max"] = val(in.Max)
	case *ssa.SliceToArrayPointer:
		m["x"] = val(in.X)
	case *ssa.MultiConvert:
		m["x"] = val(in.X)
	case *ssa.Store:
		m["a"] = val(in.Addr)
		m["x"] = val(in.Val)
	case *ssa.TypeAssert:
		m["x"] = val(in.X)
		m["at"] = typeID(in.AssertedType)
		m["ok"] = in.CommaOk
	}
	return m
}

// stub records the signature of a function whose body is not emitted
func stub(f *ssa.Function) {
	name := f.String()
	if _, ok := funcs[name]; ok {
		return
	}
	m := M{"name": name, "sig": typeID(f.Signature), "external": true, "free": []M{}, "blocks": []M{}}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := []M{}
	if r := f.Signature.Recv(); r != nil {
		ps = append(ps, M{"n": "recv", "t": typeID(r.Type())})
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ps = append(ps, M{"n": fmt.Sprintf("p%d", i), "t": typeID(f.Signature.Params().At(i).Type())})
	}
	m["params"] = ps
	funcs[name] = m
}

func dump(f *ssa.Function) {
	name := f.String()
	if _, ok := funcs[name]; ok {
		return
	}
	m := M{"name": name, "sig": typeID(f.Signature), "pos": pos(f.Pos()), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Pos().IsValid() {
		m["file"] = fset.Position(f.Pos()).Filename
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["free"] = fv
	bs := []M{}
	for _, b := range f.Blocks {
		bm := M{"c": b.Comment}
		pr := []int{}
		for _, x := range b.Preds {
			pr = append(pr, x.Index)
		}
		su := []int{}
		for _, x := range b.Succs {
			su = append(su, x.Index)
		}
		bm["preds"] = pr
		bm["succs"] = su
		is := []M{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(in))
		}
		bm["i"] = is
		bs = append(bs, bm)
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	funcs[name] = m
	for _, a := range f.AnonFuncs {
		reach(a)
	}
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("out", "", "output JSON")
	ovl := flag.String("overlay", "", "go-build style overlay JSON file")
	inl := flag.String("inline", "", "comma-separated std packages whose functions may be emitted")
	pats := flag.String("pkgs", "./...", "package patterns")
	flag.Parse()
	for _, p := range strings.Split(*inl, ",") {
		if p != "" {
			inlineP[p] = true
		}
	}
	b, err := os.ReadFile(filepath.Join(*dir, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	overlay := map[string][]byte{}
	if *ovl != "" {
		ob, err := os.ReadFile(*ovl)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(ob, &o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for k, v := range o.Replace {
			vb, err := os.ReadFile(v)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			overlay[k] = vb
		}
	}
	// -mod=mod would let the go command rewrite go.mod: work on private copies
	tmp, err := os.MkdirTemp("", "extract")
	if err == nil {
		defer os.RemoveAll(tmp)
	}
	flags := []string{"-tags=verif"}
	if tmp != "" {
		for _, n := range []string{"go.mod", "go.sum"} {
			if d, e := os.ReadFile(filepath.Join(*dir, n)); e == nil {
				os.WriteFile(filepath.Join(tmp, n), d, 0o644)
			}
		}
		flags = append(flags, "-modfile="+filepath.Join(tmp, "go.mod"))
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir, Overlay: overlay, BuildFlags: flags}
	pk, err := packages.Load(cfg, strings.Split(*pats, ",")...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	errs := []M{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, M{"pkg": p.PkgPath, "pos": e.Pos, "msg": e.Msg})
			}
		}
	})
	res := M{"module": modPath, "errors": errs}
	if len(errs) == 0 {
		fset = pk[0].Fset
		prog, _ = ssautil.AllPackages(pk, ssa.InstantiateGenerics)
		prog.Build()
		typeID(types.Typ[types.Invalid])
		var inits []string
		for _, p := range prog.AllPackages() {
			if !strings.HasPrefix(p.Pkg.Path(), modPath) {
				continue
			}
			for _, mem := range p.Members {
				switch mem := mem.(type) {
				case *ssa.Function:
					reach(mem)
				case *ssa.Global:
					val(mem)
				case *ssa.Type:
					typeID(mem.Type())
				}
			}
			inits = append(inits, p.Pkg.Path())
		}
		sort.Strings(inits)
		methods := M{}
		done := 0
		for {
			for len(queue) > 0 {
				f := queue[0]
				queue = queue[1:]
				dump(f)
			}
			if done == len(named) {
				break
			}
			for ; done < len(named); done++ {
				n := named[done]
				if types.IsInterface(n) || n.TypeParams().Len() > 0 && n.TypeArgs().Len() == 0 {
					continue
				}
				inMod := strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					ms := prog.MethodSets.MethodSet(t)
					mm := M{}
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						fn := prog.MethodValue(sel)
						if fn == nil {
							continue
						}
						mm[sel.Obj().Name()] = fn.String()
						if inMod {
							reach(fn)
						}
					}
					methods[fmt.Sprint(typeID(t))] = mm
				}
			}
		}
		res["types"] = typeOut
		res["funcs"] = funcs
		res["globals"] = globals
		res["methods"] = methods
		res["packages"] = inits
	}
	gv, _ := exec.Command("go", "version").Output()
	res["go"] = string(bytes.TrimSpace(gv))
	ob, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *out == "" {
		os.Stdout.Write(ob)
	} else if err := os.WriteFile(*out, ob, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
