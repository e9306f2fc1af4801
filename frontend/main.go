// ssajson: loads the packages of /repo from their current source, builds go/ssa for them, and
// writes every function of the repository as JSON (one object), for the verification-condition generator.
// Nothing is dropped: every SSA instruction of every repository function is emitted; functions of other
// modules (standard library, third party) have no body here and are handled by contracts.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeTab  []M
	repoPref = "github.com/mashmb/1pass/"
	fset     *token.FileSet
)

func qual(p *types.Package) string { return p.Path() }

func tid(t types.Type) int {
	t = types.Unalias(t)
	s := types.TypeString(t, qual)
	if id, ok := typeIDs[s]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[s] = id
	m := M{"id": id, "str": s}
	typeTab = append(typeTab, m)
	switch tt := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		m["name"] = s
		m["under"] = tid(tt.Underlying())
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = tt.Name()
		inf := tt.Info()
		switch {
		case inf&types.IsBoolean != 0:
			m["class"] = "bool"
		case inf&types.IsInteger != 0:
			m["class"] = "int"
		case inf&types.IsFloat != 0:
			m["class"] = "float"
		case inf&types.IsString != 0:
			m["class"] = "string"
		default:
			m["class"] = "other"
		}
		m["size"] = types.SizesFor("gc", "amd64").Sizeof(safeSizeType(tt))
		m["unsigned"] = inf&types.IsUnsigned != 0
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = tid(tt.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = tid(tt.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = tid(tt.Elem())
		m["len"] = tt.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = tid(tt.Key())
		m["elem"] = tid(tt.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = tid(tt.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for i := 0; i < tt.NumFields(); i++ {
			fs = append(fs, M{"name": tt.Field(i).Name(), "type": tid(tt.Field(i).Type())})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "interface"
		ms := []string{}
		for i := 0; i < tt.NumMethods(); i++ {
			ms = append(ms, tt.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		var ps, rs []int
		for i := 0; i < tt.Params().Len(); i++ {
			ps = append(ps, tid(tt.Params().At(i).Type()))
		}
		for i := 0; i < tt.Results().Len(); i++ {
			rs = append(rs, tid(tt.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = tt.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		es := []int{}
		for i := 0; i < tt.Len(); i++ {
			es = append(es, tid(tt.At(i).Type()))
		}
		m["elems"] = es
	default:
		m["kind"] = "other"
		m["go"] = fmt.Sprintf("%T", t)
	}
	return id
}

func safeSizeType(b *types.Basic) types.Type {
	switch b.Kind() {
	case types.UntypedNil, types.Invalid, types.UntypedBool, types.UntypedInt, types.UntypedRune, types.UntypedFloat, types.UntypedString, types.UntypedComplex:
		return types.Typ[types.Int]
	}
	return b
}

func val(v ssa.Value) M {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "type": tid(x.Type())}
		if x.Value == nil {
			m["zero"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["bool"] = constant.BoolVal(x.Value)
			case constant.String:
				s := constant.StringVal(x.Value)
				// bytes as latin-1 code points so that JSON keeps them exactly
				r := make([]rune, 0, len(s))
				for i := 0; i < len(s); i++ {
					r = append(r, rune(s[i]))
				}
				m["str"] = string(r)
			case constant.Int:
				m["int"] = x.Value.ExactString()
			case constant.Float:
				m["rat"] = x.Value.ExactString()
				if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
					m["int"] = i.ExactString()
				}
			default:
				m["other"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "type": tid(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x), "type": tid(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p:" + x.Name(), "type": tid(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "f:" + x.Name(), "type": tid(x.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "type": tid(v.Type())}
	}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func fname(f *ssa.Function) string { return f.String() }

var want = map[*ssa.Function]bool{}
var queue []*ssa.Function

func need(f *ssa.Function) {
	if f == nil || want[f] {
		return
	}
	want[f] = true
	queue = append(queue, f)
}

func inRepo(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path()+"/", repoPref)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path()+"/", repoPref)
	}
	if f.Parent() != nil {
		return inRepo(f.Parent())
	}
	// synthetic wrapper/bound method
	return f.Blocks != nil
}

func callM(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["iface"] = tid(c.Value.Type())
		m["methodfull"] = c.Method.FullName()
	} else {
		m["fn"] = val(c.Value)
		if sc := c.StaticCallee(); sc != nil {
			m["static"] = fname(sc)
			need(sc)
		}
	}
	m["sig"] = tid(c.Signature())
	return m
}

func dumpInstr(i ssa.Instruction) M {
	m := M{}
	pos := fset.Position(i.Pos())
	if pos.IsValid() {
		m["pos"] = fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line)
	}
	if v, ok := i.(ssa.Value); ok {
		m["n"] = v.Name()
		m["type"] = tid(v.Type())
	}
	for _, op := range i.Operands(nil) {
		if op != nil && *op != nil {
			if f, ok := (*op).(*ssa.Function); ok {
				need(f)
			}
		}
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["elem"] = tid(x.Type().Underlying().(*types.Pointer).Elem())
		m["comment"] = x.Comment
	case *ssa.Phi:
		m["op"] = "Phi"
		m["edges"] = vals(x.Edges)
		m["comment"] = x.Comment
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = callM(&x.Call)
	case *ssa.Go:
		m["op"] = "Go"
		m["call"] = callM(&x.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = callM(&x.Call)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = x.Op.String()
		m["x"], m["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = x.Op.String()
		m["commaok"] = x.CommaOk
		m["x"] = val(x.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(x.X)
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(x.X)
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = fname(x.Fn.(*ssa.Function))
		need(x.Fn.(*ssa.Function))
		m["bindings"] = vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"], m["cap"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(x.X)
		m["low"], m["high"], m["max"] = val(x.Low), val(x.High), val(x.Max)
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(x.X)
		m["field"] = x.Field
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(x.X)
		m["field"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["index"] = val(x.X), val(x.Index)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["index"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["index"] = val(x.X), val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(x.Iter)
		m["isstring"] = x.IsString
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(x.X)
		m["assert"] = tid(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(x.Tuple)
		m["index"] = x.Index
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(x.Cond)
	case *ssa.Return:
		m["op"] = "Return"
		m["results"] = vals(x.Results)
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(x.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"], m["val"] = val(x.Addr), val(x.Val)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["map"], m["key"], m["val"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Send:
		m["op"] = "Send"
	case *ssa.Select:
		m["op"] = "Select"
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("%T", i)
	}
	return m
}

func dumpFn(f *ssa.Function) M {
	m := M{"name": fname(f)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Synthetic != "" {
		m["synthetic"] = f.Synthetic
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	pos := fset.Position(f.Pos())
	m["pos"] = fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line)
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": "p:" + p.Name(), "name": p.Name(), "type": tid(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": "f:" + p.Name(), "name": p.Name(), "type": tid(p.Type())})
	}
	m["freevars"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, tid(f.Signature.Results().At(i).Type()))
	}
	m["results"] = rs
	m["hasrecv"] = f.Signature.Recv() != nil
	bs := []M{}
	for _, b := range f.Blocks {
		bm := M{"i": b.Index, "comment": b.Comment}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		is := []M{}
		for _, in := range b.Instrs {
			if d := dumpInstr(in); d != nil {
				is = append(is, d)
			}
		}
		bm["preds"], bm["succs"], bm["instrs"] = pr, su, is
		bs = append(bs, bm)
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	dir := flag.String("dir", "/repo/1pass-app", "module directory to load from")
	out := flag.String("o", "", "output file")
	flag.Parse()
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: *dir, Fset: fset, Tests: false,
	}
	// dependencies are read from export data: only the repository's own packages are loaded from syntax
	cfg.Mode &^= packages.NeedDeps
	pk, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pk) > 0 {
		os.Exit(3)
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	res := M{}
	names := []string{}
	consts := M{}
	ifaces := M{}
	var named []*types.Named
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		names = append(names, p.Pkg.Path())
		for _, mem := range p.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				need(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					named = append(named, n)
					if !types.IsInterface(n) {
						for _, t := range []types.Type{n, types.NewPointer(n)} {
							ms := prog.MethodSets.MethodSet(t)
							for i := 0; i < ms.Len(); i++ {
								f := prog.MethodValue(ms.At(i))
								if f != nil && f.Synthetic == "" {
									need(f)
								}
							}
						}
					}
				}
			case *ssa.NamedConst:
				consts[p.Pkg.Path()+"."+x.Name()] = val(x.Value)
			}
		}
	}
	for _, n := range named {
		if !types.IsInterface(n) {
			continue
		}
		it := n.Underlying().(*types.Interface)
		impl := M{}
		for _, c := range named {
			if types.IsInterface(c) {
				continue
			}
			for _, t := range []types.Type{c, types.NewPointer(c)} {
				if types.Implements(t, it) {
					mm := M{}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < it.NumMethods(); i++ {
						sel := ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name())
						if sel != nil {
							f := prog.MethodValue(sel)
							if f != nil {
								mm[it.Method(i).Name()] = fname(f)
								need(f)
							}
						}
					}
					impl[types.TypeString(t, qual)] = M{"type": tid(t), "methods": mm}
					break
				}
			}
		}
		ifaces[types.TypeString(n, qual)] = M{"type": tid(n), "impls": impl}
	}
	fns := []M{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if f.Blocks == nil || !inRepo(f) {
			continue
		}
		for _, a := range f.AnonFuncs {
			need(a)
		}
		fns = append(fns, dumpFn(f))
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i]["name"].(string) < fns[j]["name"].(string) })
	sort.Strings(names)
	res["packages"] = names
	res["functions"] = fns
	res["consts"] = consts
	res["interfaces"] = ifaces
	res["types"] = typeTab
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if err := json.NewEncoder(w).Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.Close()
}
