package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// flow follows values forward through the program: where can what is in these places get to?
// Fields are told apart by their declaration, list elements and variables by where they are created.
type flow struct {
	w    *World
	vals map[ssa.Value]bool
	locs map[any]bool
	fns  []*ssa.Function
	stop func(c ssa.CallInstruction, g *ssa.Function) bool // do not follow into g
	// noArith: do not follow through comparisons (always) and arithmetic
	noExtern bool
	exact    bool                   // do not follow calls of function values that can be several functions
	reach    map[*ssa.Function]bool // only these functions, if not nil
}

func newFlow(w *World) *flow {
	f := &flow{w: w, vals: map[ssa.Value]bool{}, locs: map[any]bool{}}
	for _, g := range w.funcs {
		if w.inRepo(g) && len(g.Blocks) > 0 {
			f.fns = append(f.fns, g)
		}
	}
	return f
}

// flowLocs: the places an address stands for.
func (f *flow) addrLocs(addr ssa.Value) []any {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if v := fieldVar(a.X.Type(), a.Field); v != nil {
			return []any{v}
		}
	case *ssa.Alloc:
		return []any{a}
	case *ssa.Global:
		return []any{a}
	case *ssa.IndexAddr:
		return f.elemLocs(a.X, 0)
	case *ssa.FreeVar:
		var res []any
		for _, mc := range makersOf(f.w, a.Parent()) {
			for i, fv := range a.Parent().FreeVars {
				if fv == a && i < len(mc.Bindings) {
					res = append(res, f.addrLocs(mc.Bindings[i])...)
				}
			}
		}
		return res
	case *ssa.ChangeType:
		return f.addrLocs(a.X)
	}
	var res []any
	for _, o := range f.w.pts.Objs(addr) {
		switch {
		case o.kind == oField && o.field != nil:
			res = append(res, o.field)
		case o.kind == oAlloc:
			if a, ok := o.instr.(*ssa.Alloc); ok {
				res = append(res, a)
				continue
			}
			res = append(res, o)
		default:
			res = append(res, o)
		}
	}
	return res
}

func (f *flow) elemLocs(v ssa.Value, d int) []any {
	if d > 10 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return f.elemLocs(x.X, d+1)
	case *ssa.ChangeType:
		return f.elemLocs(x.X, d+1)
	case *ssa.Alloc, *ssa.FieldAddr:
		var res []any
		for _, l := range f.addrLocs(x) {
			res = append(res, elemOf{l})
		}
		return res
	}
	var res []any
	for _, o := range f.w.pts.Objs(v) {
		if a, ok := o.instr.(*ssa.Alloc); ok && o.kind == oAlloc {
			res = append(res, elemOf{a})
			continue
		}
		res = append(res, elemOf{o})
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		for _, l := range f.addrLocs(u.X) {
			res = append(res, elemOf{l})
		}
	}
	return res
}

func (f *flow) hasLoc(ls []any) bool {
	for _, l := range ls {
		if f.locs[l] {
			return true
		}
	}
	return false
}

func (f *flow) carries(v ssa.Value) bool {
	if f.vals[v] {
		return true
	}
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return f.hasLoc(f.elemLocs(v, 0))
	}
	return false
}

func (f *flow) run() {
	for changed := true; changed; {
		changed = false
		val := func(v ssa.Value) {
			if v != nil && !f.vals[v] {
				f.vals[v] = true
				changed = true
			}
		}
		loc := func(ls []any) {
			for _, l := range ls {
				if !f.locs[l] {
					f.locs[l] = true
					changed = true
				}
			}
		}
		for _, g := range f.fns {
			if f.reach != nil && !f.reach[g] {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.BinOp:
						switch x.Op {
						case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
							continue
						}
						if f.vals[x.X] || f.vals[x.Y] {
							val(x)
						}
					case *ssa.UnOp:
						switch x.Op {
						case token.MUL:
							if f.vals[x.X] || f.hasLoc(f.addrLocs(x.X)) {
								val(x)
							}
						case token.ARROW:
							for _, o := range f.w.pts.Objs(x.X) {
								if f.locs[o] {
									val(x)
								}
							}
						default:
							if f.vals[x.X] {
								val(x)
							}
						}
					case *ssa.Select:
						i := 2
						for _, c := range x.States {
							if c.Dir == types.RecvOnly {
								for _, o := range f.w.pts.Objs(c.Chan) {
									if f.locs[o] {
										for _, ref := range *x.Referrers() {
											if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
												val(e)
											}
										}
									}
								}
								i++
							} else if f.carries(c.Send) {
								for _, o := range f.w.pts.Objs(c.Chan) {
									loc([]any{o})
								}
							}
						}
					case *ssa.Send:
						if f.carries(x.X) {
							for _, o := range f.w.pts.Objs(x.Chan) {
								loc([]any{o})
							}
						}
					case *ssa.Store:
						if f.carries(x.Val) {
							loc(f.addrLocs(x.Addr))
						}
					case *ssa.MapUpdate:
						if f.carries(x.Value) || f.carries(x.Key) {
							loc(f.elemLocs(x.Map, 0))
							val(x.Map)
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if f.vals[e] {
								val(x)
							}
						}
					case *ssa.Extract:
						if c, ok := x.Tuple.(*ssa.Call); ok {
							if f.vals[c] && f.resultCarries(c, x.Index) {
								val(x)
							}
						} else if _, ok := x.Tuple.(*ssa.Select); !ok && f.vals[x.Tuple] {
							val(x)
						}
					case *ssa.Slice:
						if f.vals[x.X] || f.hasLoc(f.elemLocs(x.X, 0)) {
							val(x)
						}
					case *ssa.ChangeType, *ssa.Convert, *ssa.MultiConvert, *ssa.Index, *ssa.IndexAddr, *ssa.Field, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
						ops := in.Operands(nil)
						if f.carries(*ops[0]) {
							val(in.(ssa.Value))
						}
					case *ssa.MakeClosure:
						h := x.Fn.(*ssa.Function)
						for i, bv := range x.Bindings {
							if f.vals[bv] && i < len(h.FreeVars) {
								val(h.FreeVars[i])
							}
						}
					case ssa.CallInstruction:
						f.call(x, val, loc)
					}
				}
			}
		}
	}
}

func (f *flow) resultCarries(c *ssa.Call, i int) bool {
	known := false
	for _, g := range f.w.pts.Callees(c) {
		if len(g.Blocks) == 0 || !f.w.inRepo(g) {
			continue
		}
		known = true
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) && f.carries(ret.Results[i]) {
				return true
			}
		}
	}
	return !known
}

func (f *flow) call(c ssa.CallInstruction, val func(ssa.Value), loc func([]any)) {
	cc := c.Common()
	rv, _ := c.(ssa.Value)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if f.carries(cc.Args[1]) {
				loc(f.elemLocs(cc.Args[0], 0))
			}
		case "append":
			for _, a := range cc.Args {
				if f.carries(a) {
					val(rv)
					loc(f.elemLocs(rv, 0))
				}
			}
		case "min", "max", "real", "imag", "complex":
			for _, a := range cc.Args {
				if f.vals[a] {
					val(rv)
				}
			}
		}
		return
	}
	known := false
	gs := f.w.pts.Callees(c)
	if f.exact && len(gs) > 1 && !cc.IsInvoke() {
		gs = nil
		known = true
	}
	for _, g := range gs {
		if len(g.Blocks) == 0 || !f.w.inRepo(g) {
			continue
		}
		known = true
		if f.stop != nil && f.stop(c, g) {
			continue
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		off := len(g.Params) - len(args)
		for i, a := range args {
			if i+off >= 0 && i+off < len(g.Params) && f.carries(a) {
				val(g.Params[i+off])
			}
		}
		if rv != nil {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						if f.returns(x, g, args, off, 0) {
							val(rv)
						}
					}
				}
			}
		}
	}
	if !known && rv != nil && !f.noExtern {
		for _, a := range cc.Args {
			if f.carries(a) {
				val(rv)
			}
		}
		if cc.IsInvoke() && f.carries(cc.Value) {
			val(rv)
		}
	}
}

// returns: the value a function returns carries, judged for one call: what it returns of its parameters counts only
// if the arguments of this call carry.
func (f *flow) returns(v ssa.Value, g *ssa.Function, args []ssa.Value, off int, d int) bool {
	if d > 8 {
		return f.carries(v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range g.Params {
			if p == x {
				return i-off >= 0 && i-off < len(args) && f.carries(args[i-off])
			}
		}
	case *ssa.Convert:
		return f.returns(x.X, g, args, off, d+1)
	case *ssa.ChangeType:
		return f.returns(x.X, g, args, off, d+1)
	case *ssa.BinOp:
		if !f.vals[x] {
			return false
		}
		return f.returns(x.X, g, args, off, d+1) || f.returns(x.Y, g, args, off, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f.returns(e, g, args, off, d+1) {
				return true
			}
		}
		return false
	}
	return f.carries(v)
}
