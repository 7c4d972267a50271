package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Field-based inclusion (Andersen style) points-to analysis over the repository's functions. It resolves
// function values, interface calls and channels. Code outside the repository is opaque, apart from a small
// table of functions that call back.

type objKind int

const (
	oFunc objKind = iota
	oAlloc
	oField
	oElem
	oChan
	oIface
	oGlobal
	oExt
	oMap
	oSlice
)

type Obj struct {
	id      int
	kind    objKind
	fn      *ssa.Function
	instr   ssa.Instruction
	field   *types.Var
	typ     types.Type
	content int // node
	global  *ssa.Global
}

func (o *Obj) String() string {
	switch o.kind {
	case oFunc:
		return "func " + fnKey(o.fn)
	case oField:
		return "&" + fieldKey(o.field)
	}
	return fmt.Sprintf("obj%d/%d", o.kind, o.id)
}

type PTS struct {
	w      *World
	objs   []*Obj
	objIdx map[any]*Obj

	nodes   map[any]int
	pts     []map[int]bool
	copyTo  []map[int]bool
	loads   map[int][]int // ptr node -> dst nodes
	stores  map[int][]int // ptr node -> src nodes
	calls   map[int][]ssa.CallInstruction
	recvs   map[int][]int // chan node -> dst
	sends   map[int][]int // chan node -> src
	asserts map[int][]assertC
	work    []int
	inWork  map[int]bool

	callees  map[ssa.CallInstruction]map[*ssa.Function]bool
	wired    map[string]bool
	funcSet  map[*ssa.Function]bool
	extCalls []ssa.CallInstruction
}

type assertC struct {
	dst int
	typ types.Type
}

type fieldNode struct{ v *types.Var }
type elemNode struct{ t string }
type cellNode struct{ a ssa.Value }
type retNode struct {
	fn *ssa.Function
	i  int
}
type callRes struct {
	c ssa.Value
	i int
}
type contentNode struct{ id int }
type globalNode struct{ g *ssa.Global }

func (p *PTS) node(k any) int {
	if n, ok := p.nodes[k]; ok {
		return n
	}
	n := len(p.pts)
	p.nodes[k] = n
	p.pts = append(p.pts, map[int]bool{})
	p.copyTo = append(p.copyTo, map[int]bool{})
	return n
}

func (p *PTS) obj(k any, kind objKind) *Obj {
	if o, ok := p.objIdx[k]; ok {
		return o
	}
	o := &Obj{id: len(p.objs), kind: kind}
	p.objs = append(p.objs, o)
	p.objIdx[k] = o
	o.content = p.node(contentNode{o.id})
	return o
}

func (p *PTS) add(n int, o *Obj) {
	if !p.pts[n][o.id] {
		p.pts[n][o.id] = true
		p.push(n)
	}
}

func (p *PTS) push(n int) {
	if !p.inWork[n] {
		p.inWork[n] = true
		p.work = append(p.work, n)
	}
}

func (p *PTS) copy(from, to int) {
	if from == to || p.copyTo[from][to] {
		return
	}
	p.copyTo[from][to] = true
	for o := range p.pts[from] {
		p.add(to, p.objs[o])
	}
}

// val returns the node of an SSA value.
func (p *PTS) val(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Function:
		n := p.node(v)
		o := p.obj(v, oFunc)
		o.fn = v
		p.add(n, o)
		return n
	case *ssa.Global:
		n := p.node(v)
		o := p.obj(globalNode{v}, oGlobal)
		o.global = v
		p.add(n, o)
		return n
	}
	return p.node(v)
}

func typeStr(t types.Type) string { return types.TypeString(t, nil) }

func buildPTS(w *World) *PTS {
	p := &PTS{w: w, objIdx: map[any]*Obj{}, nodes: map[any]int{}, loads: map[int][]int{}, stores: map[int][]int{}, calls: map[int][]ssa.CallInstruction{},
		recvs: map[int][]int{}, sends: map[int][]int{}, asserts: map[int][]assertC{}, inWork: map[int]bool{}, callees: map[ssa.CallInstruction]map[*ssa.Function]bool{}, wired: map[string]bool{}, funcSet: map[*ssa.Function]bool{}}
	for _, f := range w.funcs {
		p.funcSet[f] = true
	}
	for _, f := range w.funcs {
		p.genFunc(f)
	}
	p.solve()
	return p
}

func (p *PTS) genFunc(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			p.gen(f, in)
		}
	}
}

func isPtrLike(t types.Type) bool { return true }

func (p *PTS) gen(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := p.obj(in, oAlloc)
		o.instr, o.typ = in, in.Type()
		p.add(p.val(in), o)
	case *ssa.MakeChan:
		o := p.obj(in, oChan)
		o.instr, o.typ = in, in.Type()
		p.add(p.val(in), o)
	case *ssa.MakeMap:
		o := p.obj(in, oMap)
		o.instr, o.typ = in, in.Type()
		p.add(p.val(in), o)
	case *ssa.MakeSlice:
		o := p.obj(in, oSlice)
		o.instr, o.typ = in, in.Type()
		p.add(p.val(in), o)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := p.obj(fn, oFunc)
		o.fn = fn
		p.add(p.val(in), o)
		for i, b := range in.Bindings {
			p.copy(p.val(b), p.val(fn.FreeVars[i]))
		}
	case *ssa.MakeInterface:
		o := p.obj(in, oIface)
		o.instr, o.typ = in, in.X.Type()
		p.copy(p.val(in.X), o.content)
		p.add(p.val(in), o)
	case *ssa.ChangeInterface:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.ChangeType:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.Convert:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.MultiConvert:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.copy(p.val(e), p.val(in))
		}
	case *ssa.FieldAddr:
		fv := fieldVar(in.X.Type(), in.Field)
		o := p.obj(fieldNode{fv}, oField)
		o.field = fv
		p.add(p.val(in), o)
	case *ssa.Field:
		fv := fieldVar(in.X.Type(), in.Field)
		o := p.obj(fieldNode{fv}, oField)
		o.field = fv
		p.copy(o.content, p.val(in))
	case *ssa.IndexAddr:
		o := p.elemObj(in.X.Type())
		p.add(p.val(in), o)
	case *ssa.Index:
		o := p.elemObj(in.X.Type())
		p.copy(o.content, p.val(in))
	case *ssa.Lookup:
		o := p.elemObj(in.X.Type())
		if in.CommaOk {
			p.copy(o.content, p.node(callRes{in, 0}))
		} else {
			p.copy(o.content, p.val(in))
		}
	case *ssa.MapUpdate:
		o := p.elemObj(in.Map.Type())
		p.copy(p.val(in.Value), o.content)
	case *ssa.Range:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok {
			o := p.elemObj(r.X.Type())
			p.copy(o.content, p.node(callRes{in, 2}))
		}
	case *ssa.Slice:
		p.copy(p.val(in.X), p.val(in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			n := p.val(in.X)
			p.loads[n] = append(p.loads[n], p.val(in))
			p.push(n)
		case token.ARROW:
			n := p.val(in.X)
			d := p.val(in)
			if in.CommaOk {
				d = p.node(callRes{in, 0})
			}
			p.recvs[n] = append(p.recvs[n], d)
			p.push(n)
		}
	case *ssa.Store:
		n := p.val(in.Addr)
		p.stores[n] = append(p.stores[n], p.val(in.Val))
		p.push(n)
	case *ssa.Send:
		n := p.val(in.Chan)
		p.sends[n] = append(p.sends[n], p.val(in.X))
		p.push(n)
	case *ssa.Select:
		r := 2
		for _, s := range in.States {
			n := p.val(s.Chan)
			if s.Dir == types.SendOnly {
				p.sends[n] = append(p.sends[n], p.val(s.Send))
			} else {
				p.recvs[n] = append(p.recvs[n], p.node(callRes{in, r}))
				r++
			}
			p.push(n)
		}
	case *ssa.Extract:
		p.copy(p.node(callRes{in.Tuple, in.Index}), p.val(in))
	case *ssa.TypeAssert:
		n := p.val(in.X)
		d := p.val(in)
		if in.CommaOk {
			d = p.node(callRes{in, 0})
		}
		p.asserts[n] = append(p.asserts[n], assertC{d, in.AssertedType})
		p.push(n)
	case *ssa.Return:
		for i, r := range in.Results {
			p.copy(p.val(r), p.node(retNode{f, i}))
		}
	case *ssa.Call:
		p.genCall(in)
	case *ssa.Go:
		p.genCall(in)
	case *ssa.Defer:
		p.genCall(in)
	}
}

func (p *PTS) elemObj(t types.Type) *Obj {
	// deref pointer to array
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	case *types.Map:
		et = u.Elem()
	case *types.Basic:
		et = types.Typ[types.Byte]
	default:
		et = t
	}
	o := p.obj(elemNode{typeStr(et)}, oElem)
	o.typ = et
	return o
}

func (p *PTS) genCall(c ssa.CallInstruction) {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			v := c.(ssa.Value)
			p.copy(p.val(com.Args[0]), p.val(v))
			p.copy(p.val(com.Args[1]), p.val(v))
		}
		return
	}
	if com.IsInvoke() {
		n := p.val(com.Value)
		p.calls[n] = append(p.calls[n], c)
		p.push(n)
		return
	}
	if f := com.StaticCallee(); f != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		p.wire(c, f, nil)
		return
	}
	n := p.val(com.Value)
	p.calls[n] = append(p.calls[n], c)
	p.push(n)
}

func (p *PTS) resNode(c ssa.CallInstruction, i, n int) (int, bool) {
	v, ok := c.(*ssa.Call)
	if !ok {
		return 0, false
	}
	if n > 1 {
		return p.node(callRes{v, i}), true
	}
	return p.val(v), true
}

// wire connects a call with a callee. recv is the receiver object for interface calls.
func (p *PTS) wire(c ssa.CallInstruction, f *ssa.Function, recv *Obj) {
	com := c.Common()
	if f.Blocks == nil || !p.funcSet[f] {
		// maybe an instantiation whose body is available
		if f.Blocks == nil || !p.w.inRepo(f) {
			p.wireExternal(c, f)
			return
		}
		p.funcSet[f] = true
		p.w.funcs = append(p.w.funcs, f)
		p.genFunc(f)
	}
	m := p.callees[c]
	if m == nil {
		m = map[*ssa.Function]bool{}
		p.callees[c] = m
	}
	m[f] = true
	params := f.Params
	args := com.Args
	if com.IsInvoke() {
		if len(params) > 0 && recv != nil {
			p.copy(recv.content, p.val(params[0]))
			params = params[1:]
		}
	}
	for i, a := range args {
		if i < len(params) {
			p.copy(p.val(a), p.val(params[i]))
		}
	}
	nres := f.Signature.Results().Len()
	for i := 0; i < nres; i++ {
		if d, ok := p.resNode(c, i, nres); ok {
			p.copy(p.node(retNode{f, i}), d)
		}
	}
}

// wireFuncValue makes the functions in node n called with no known arguments at c (callbacks of external functions).
func (p *PTS) wireExternal(c ssa.CallInstruction, f *ssa.Function) {
	p.extCalls = append(p.extCalls, c)
	com := c.Common()
	name := f.String()
	cb := syncCallback(name)
	if cb == nil {
		return
	}
	if cb.arg < len(com.Args) {
		n := p.val(com.Args[cb.arg])
		p.cbs()[n] = append(p.cbs()[n], cbC{c, cb.method})
		p.push(n)
	}
}

type cbC struct {
	c      ssa.CallInstruction
	method string
}

var cbMap = map[*PTS]map[int][]cbC{}

func (p *PTS) cbs() map[int][]cbC {
	m := cbMap[p]
	if m == nil {
		m = map[int][]cbC{}
		cbMap[p] = m
	}
	return m
}

type callbackSpec struct {
	arg    int
	method string // "" = call the function value
}

// syncCallback lists external functions which call back into the program before they return.
func syncCallback(name string) *callbackSpec {
	switch name {
	case "(*sync.Once).Do":
		return &callbackSpec{1, ""}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		return &callbackSpec{0, "Write"}
	case "io.Copy":
		return &callbackSpec{0, "Write"}
	}
	if strings.HasPrefix(name, "sort.Slice") || strings.HasPrefix(name, "slices.SortFunc") || strings.HasPrefix(name, "slices.SortStableFunc") ||
		strings.HasPrefix(name, "slices.IndexFunc") || strings.HasPrefix(name, "slices.ContainsFunc") || strings.HasPrefix(name, "slices.DeleteFunc") || strings.HasPrefix(name, "maps.DeleteFunc") {
		return &callbackSpec{1, ""}
	}
	return nil
}

func (p *PTS) methodOf(t types.Type, name string, pkg *types.Package) *ssa.Function {
	ms := p.w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		sel = ms.Lookup(nil, name)
	}
	if sel == nil {
		return nil
	}
	return p.w.prog.MethodValue(sel)
}

func (p *PTS) solve() {
	for len(p.work) > 0 {
		n := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		p.inWork[n] = false
		var objs []*Obj
		for o := range p.pts[n] {
			objs = append(objs, p.objs[o])
		}
		for t := range p.copyTo[n] {
			for _, o := range objs {
				p.add(t, o)
			}
		}
		for _, o := range objs {
			for _, d := range p.loads[n] {
				if c, ok := p.contentOf(o); ok {
					p.copy(c, d)
				}
			}
			for _, s := range p.stores[n] {
				if c, ok := p.contentOf(o); ok {
					p.copy(s, c)
				}
			}
			if o.kind == oChan {
				for _, d := range p.recvs[n] {
					p.copy(o.content, d)
				}
				for _, s := range p.sends[n] {
					p.copy(s, o.content)
				}
			}
			for _, a := range p.asserts[n] {
				if o.kind == oIface {
					if types.IsInterface(a.typ) {
						p.add(a.dst, o)
					} else if types.Identical(a.typ, o.typ) {
						p.copy(o.content, a.dst)
					}
				} else {
					p.add(a.dst, o)
				}
			}
			for _, c := range p.calls[n] {
				com := c.Common()
				key := fmt.Sprintf("%p/%d", c, o.id)
				if p.wired[key] {
					continue
				}
				p.wired[key] = true
				if com.IsInvoke() {
					if o.kind == oIface {
						if f := p.methodOf(o.typ, com.Method.Name(), com.Method.Pkg()); f != nil {
							p.wire(c, f, o)
						}
					}
				} else if o.kind == oFunc {
					p.wire(c, o.fn, nil)
				}
			}
			for _, cb := range p.cbs()[n] {
				key := fmt.Sprintf("cb%p/%d", cb.c, o.id)
				if p.wired[key] {
					continue
				}
				p.wired[key] = true
				if cb.method == "" && o.kind == oFunc {
					m := p.callees[cb.c]
					if m == nil {
						m = map[*ssa.Function]bool{}
						p.callees[cb.c] = m
					}
					m[o.fn] = true
				} else if cb.method != "" && o.kind == oIface {
					if f := p.methodOf(o.typ, cb.method, nil); f != nil && p.w.inRepo(f) {
						m := p.callees[cb.c]
						if m == nil {
							m = map[*ssa.Function]bool{}
							p.callees[cb.c] = m
						}
						m[f] = true
						if !p.funcSet[f] && f.Blocks != nil {
							p.funcSet[f] = true
							p.w.funcs = append(p.w.funcs, f)
							p.genFunc(f)
						}
						if len(f.Params) > 0 {
							p.copy(o.content, p.val(f.Params[0]))
						}
					}
				}
			}
		}
	}
}

func (p *PTS) contentOf(o *Obj) (int, bool) {
	switch o.kind {
	case oAlloc, oField, oElem, oGlobal:
		return o.content, true
	}
	return 0, false
}

// Callees returns the repository functions a call can invoke, sorted. For external functions with a synchronous
// callback it returns the callbacks.
func (p *PTS) Callees(c ssa.CallInstruction) []*ssa.Function {
	var res []*ssa.Function
	for f := range p.callees[c] {
		res = append(res, f)
	}
	sort.Slice(res, func(i, j int) bool {
		a, b := res[i].String(), res[j].String()
		if a != b {
			return a < b
		}
		return res[i].Pos() < res[j].Pos()
	})
	return res
}

func (p *PTS) Objs(v ssa.Value) []*Obj {
	n, ok := p.nodes[v]
	if !ok {
		switch v.(type) {
		case *ssa.Function, *ssa.Global:
			n = p.val(v)
		default:
			return nil
		}
	}
	var ids []int
	for o := range p.pts[n] {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	var res []*Obj
	for _, i := range ids {
		res = append(res, p.objs[i])
	}
	return res
}

// FuncsOf returns the functions a function-typed value can be.
func (p *PTS) FuncsOf(v ssa.Value) []*ssa.Function {
	var res []*ssa.Function
	for _, o := range p.Objs(v) {
		if o.kind == oFunc {
			res = append(res, o.fn)
		}
	}
	return res
}

// ChansOf returns the channel make sites a value can be.
func (p *PTS) ChansOf(v ssa.Value) []*ssa.MakeChan {
	var res []*ssa.MakeChan
	for _, o := range p.Objs(v) {
		if o.kind == oChan {
			res = append(res, o.instr.(*ssa.MakeChan))
		}
	}
	return res
}

// FieldContent returns the objects stored in a field.
func (p *PTS) FieldContent(v *types.Var) []*Obj {
	o, ok := p.objIdx[fieldNode{v}]
	if !ok {
		return nil
	}
	var res []*Obj
	for id := range p.pts[o.content] {
		res = append(res, p.objs[id])
	}
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	return res
}
