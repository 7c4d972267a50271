package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ftl/sdrainer"

// World is the loaded program: type-checked packages of the repository plus their SSA form.
type World struct {
	dir   string
	fset  *token.FileSet
	pkgs  []*packages.Package
	byPkg map[string]*packages.Package
	prog  *ssa.Program
	spkgs map[string]*ssa.Package

	funcs   []*ssa.Function // every analysable function body (instances and non-generic functions, closures, wrappers)
	generic []*ssa.Function // bodies of generic functions (used where no instance exists)

	pts *PTS

	instrIndex map[ssa.Instruction]int
	errGlobals map[string]bool
}

func repoEnv() []string {
	env := []string{}
	drop := map[string]bool{"GOFLAGS": true, "GOROOT": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOWORK": true, "GOPATH": true, "GOMODCACHE": true, "GOCACHE": true, "HOME": true, "PATH": true, "GOOS": true, "GOARCH": true, "CGO_ENABLED": true}
	path := os.Getenv("PATH")
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if !drop[k] {
			env = append(env, e)
		}
	}
	goroot := "/opt/veriftools/go1.23.12"
	return append(env, "HOME=/root", "GOROOT="+goroot, "PATH="+goroot+"/bin:"+path, "GOTOOLCHAIN=local", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=/root/.cache/go-build", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
}

func load(dir string) (*World, error) {
	w := &World{dir: dir, byPkg: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, instrIndex: map[ssa.Instruction]int{}}
	w.fset = token.NewFileSet()
	for _, e := range repoEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:   dir,
		Env:   repoEnv(),
		Fset:  w.fset,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		w.byPkg[p.PkgPath] = p
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	w.pkgs = pkgs
	var ill error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if ill == nil && (p.IllTyped || len(p.Errors) > 0) {
			ill = fmt.Errorf("%s: %v", p.PkgPath, p.Errors)
		}
	})
	if ill != nil {
		return nil, ill
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.spkgs[pkgs[i].PkgPath] = p
	}
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		if !w.inRepo(f) {
			continue
		}
		if isGenericBody(f) {
			w.generic = append(w.generic, f)
			continue
		}
		w.funcs = append(w.funcs, f)
	}
	// generic methods of uninstantiated types and generic bodies are not always in AllFunctions: add them through the packages
	seen := map[*ssa.Function]bool{}
	for _, f := range w.generic {
		seen[f] = true
	}
	for _, p := range pkgs {
		for _, obj := range p.TypesInfo.Defs {
			fn, ok := obj.(*types.Func)
			if !ok {
				continue
			}
			sf := prog.FuncValue(fn)
			if sf == nil || sf.Blocks == nil || !isGenericBody(sf) || seen[sf] || !w.inRepo(sf) {
				continue
			}
			var add func(f *ssa.Function)
			add = func(f *ssa.Function) {
				if seen[f] {
					return
				}
				seen[f] = true
				w.generic = append(w.generic, f)
				for _, a := range f.AnonFuncs {
					add(a)
				}
			}
			add(sf)
		}
	}
	less := func(fs []*ssa.Function) func(i, j int) bool {
		return func(i, j int) bool {
			if fs[i].String() != fs[j].String() {
				return fs[i].String() < fs[j].String()
			}
			return fs[i].Pos() < fs[j].Pos()
		}
	}
	sort.Slice(w.funcs, less(w.funcs))
	sort.Slice(w.generic, less(w.generic))
	for _, fs := range [][]*ssa.Function{w.funcs, w.generic} {
		for _, f := range fs {
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					w.instrIndex[in] = n
					n++
				}
			}
		}
	}
	return w, nil
}

func isGenericBody(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.TypeParams().Len() > 0 && len(p.TypeArgs()) == 0 {
			return true
		}
		for _, t := range p.TypeArgs() {
			if hasTypeParam(t, 0) {
				return true
			}
		}
		for _, v := range p.Params {
			if hasTypeParam(v.Type(), 0) {
				return true
			}
		}
		for _, v := range p.FreeVars {
			if hasTypeParam(v.Type(), 0) {
				return true
			}
		}
	}
	return false
}

func hasTypeParam(t types.Type, d int) bool {
	if d > 6 || t == nil {
		return false
	}
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTypeParam(t.Elem(), d+1)
	case *types.Slice:
		return hasTypeParam(t.Elem(), d+1)
	case *types.Array:
		return hasTypeParam(t.Elem(), d+1)
	case *types.Chan:
		return hasTypeParam(t.Elem(), d+1)
	case *types.Map:
		return hasTypeParam(t.Key(), d+1) || hasTypeParam(t.Elem(), d+1)
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			if hasTypeParam(t.Params().At(i).Type(), d+1) {
				return true
			}
		}
		for i := 0; i < t.Results().Len(); i++ {
			if hasTypeParam(t.Results().At(i).Type(), d+1) {
				return true
			}
		}
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTypeParam(t.TypeArgs().At(i), d+1) {
				return true
			}
		}
	}
	return false
}

// fnPkg returns the package path a function belongs to (through instantiation and closures).
func fnPkg(f *ssa.Function) string {
	for p := f; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return p.Pkg.Pkg.Path()
		}
		if o := p.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if p.Object() != nil && p.Object().Pkg() != nil {
			return p.Object().Pkg().Path()
		}
		if r := p.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
		if len(p.FreeVars) == 1 { // bound method wrapper
			if n := namedOf(p.FreeVars[0].Type()); n != nil && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
	}
	return ""
}

func isRepoPath(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && p != modPath+"/scope/pb"
}

func (w *World) inRepo(f *ssa.Function) bool { return isRepoPath(fnPkg(f)) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeKey is "pkg/path.Name" of the (origin of the) named type behind t or a pointer to it, or "".
func typeKey(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	n = n.Origin()
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func shortType(key string) string { return strings.TrimPrefix(key, modPath+"/") }

// fnKey is a stable human readable name such as "rx.(*Receiver).Stop" or "rx.(*Receiver).SetScope$1".
func fnKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		suffix := f.Name()
		if i := strings.LastIndex(suffix, "$"); i >= 0 {
			suffix = suffix[i:]
		}
		return fnKey(f.Parent()) + suffix
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	name := o.Name()
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	p := shortPkg(fnPkg(f))
	if r := o.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			if _, isPtr := types.Unalias(r.Type()).(*types.Pointer); isPtr {
				return p + ".(*" + n.Obj().Name() + ")." + name
			}
			return p + "." + n.Obj().Name() + "." + name
		}
	}
	return p + "." + name
}

func shortPkg(p string) string {
	if strings.HasPrefix(p, modPath+"/") {
		return strings.TrimPrefix(p, modPath+"/")
	}
	return p
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.fset.Position(p)
	rel, err := filepath.Rel(w.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (w *World) ipos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Block() != nil {
		for _, i2 := range in.Block().Instrs {
			if i2.Pos().IsValid() {
				p = i2.Pos()
			}
			if i2 == in && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return w.pos(p) + " (" + fnKey(in.Parent()) + ")"
}

// fn finds the function with the given key (instances preferred; all matches).
func (w *World) fnsByKey(key string) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range w.funcs {
		if f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		if fnKey(f) == key {
			res = append(res, f)
		}
	}
	if len(res) == 0 {
		for _, f := range w.generic {
			if fnKey(f) == key {
				res = append(res, f)
			}
		}
	}
	return res
}

func (w *World) fn(key string) *ssa.Function {
	r := w.fnsByKey(key)
	if len(r) == 0 {
		return nil
	}
	return r[0]
}

// fieldOf returns the struct field (origin) addressed by a FieldAddr or read by a Field instruction.
func fieldVar(t types.Type, idx int) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		// type parameter core type
		return nil
	}
	return st.Field(idx).Origin()
}

// fieldKey is "rx.Receiver.in".
type fieldInfo struct {
	owner string
	name  string
}

var fieldOwner = map[*types.Var]string{}

func (w *World) indexFields() {
	for _, p := range w.pkgs {
		for id, obj := range p.TypesInfo.Defs {
			_ = id
			tn, ok := obj.(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				fieldOwner[st.Field(i).Origin()] = shortPkg(p.PkgPath) + "." + tn.Name()
			}
		}
		// anonymous struct variables
		for id, obj := range p.TypesInfo.Defs {
			v, ok := obj.(*types.Var)
			if !ok || v.IsField() {
				continue
			}
			if st, ok := v.Type().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					fieldOwner[st.Field(i).Origin()] = shortPkg(p.PkgPath) + "." + id.Name
				}
			}
		}
	}
}

func fieldKey(v *types.Var) string {
	if v == nil {
		return "?"
	}
	if o, ok := fieldOwner[v.Origin()]; ok {
		return o + "." + v.Name()
	}
	p := ""
	if v.Pkg() != nil {
		p = v.Pkg().Path()
	}
	return p + ".?." + v.Name()
}

// lookupField finds a field by "rx.Receiver.in".
func (w *World) field(key string) *types.Var {
	for v, o := range fieldOwner {
		if o+"."+v.Name() == key {
			return v
		}
	}
	return nil
}

func (w *World) file(pkg, fn string) *ast.File {
	for _, p := range w.pkgs {
		if p.PkgPath == pkg {
			for i, f := range p.Syntax {
				if filepath.Base(p.CompiledGoFiles[i]) == fn {
					return f
				}
			}
		}
	}
	return nil
}
