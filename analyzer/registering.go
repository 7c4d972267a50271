package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// registering: whoever makes a receiver registers itself and the reporters it was given, on every way on which it succeeds; the receiver
// keeps every reporter that is registered.
func (w *World) registering(r *Result) {
	r.rule("Registration: a component that owns a receiver and has the reporter methods registers itself with that receiver, and the reporters that its constructor is given (unless nil), on every way on which the constructor succeeds; the receiver adds every registered reporter to those it has.")
	methods := w.ifaceMethods("rx", "Reporter")
	if len(methods) == 0 {
		r.assume("no reporter interface recognised")
		return
	}
	isReporter := func(t types.Type) bool {
		ms := types.NewMethodSet(t)
		for _, m := range methods {
			if ms.Lookup(nil, m) == nil {
				return false
			}
		}
		return true
	}
	adds := func(in ssa.Instruction) ssa.Value {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().IsInvoke() {
			return nil
		}
		g := c.Common().StaticCallee()
		if g == nil || g.Name() != "AddReporter" && orig(g).Name() != "AddReporter" || len(c.Common().Args) != 2 {
			return nil
		}
		return c.Common().Args[1]
	}
	makes := func(f *ssa.Function) bool {
		for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
						if h := c.Call.StaticCallee(); h != nil && orig(h).Name() == "NewReceiver" && fnPkgIs(w, h, "rx") {
							return true
						}
					}
				}
			}
		}
		return false
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return v
			}
		}
	}
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || !isExportedFn(f) || f.Signature.Results().Len() == 0 || len(f.Blocks) == 0 {
			continue
		}
		if p := shortPkg(fnPkg(f)); p == "rx" || p == "cmd" {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		n := namedOf(res)
		if n == nil || !w.inRepo(f) || !makes(f) {
			continue
		}
		// does something that calls AddReporter with a value of the wanted kind happen here?
		type want struct {
			what string
			site func(v ssa.Value) bool
			dep  func(v ssa.Value, ci ssa.CallInstruction) bool // the value is handed to a helper
		}
		var wants []want
		if isReporter(res) {
			own := func(v ssa.Value) bool { return types.Identical(strip(v).Type(), res) }
			wants = append(wants, want{"itself", own, func(v ssa.Value, ci ssa.CallInstruction) bool { return own(v) }})
		}
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Interface); ok && isReporter(p.Type()) {
				p := p
				same := func(v ssa.Value) bool { return strip(v) == p }
				wants = append(wants, want{"the reporter it was given", same, func(v ssa.Value, ci ssa.CallInstruction) bool { return same(v) }})
			}
		}
		for _, x := range wants {
			r.count("reporters to register", 1)
			here := map[*ssa.BasicBlock]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v := adds(in); v != nil && x.site(v) {
						here[b] = true
						continue
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					given := false
					for _, a := range ci.Common().Args {
						given = given || x.site(a)
						if sl, ok := a.(*ssa.Slice); ok { // a list put together for the call
							for _, e := range fmtArgs(sl) {
								given = given || e != nil && x.site(e)
							}
						}
					}
					if !given {
						continue
					}
					for g := range w.reachableFrom(w.pts.Callees(ci), false, nil) {
						for _, gb := range g.Blocks {
							for _, gin := range gb.Instrs {
								if adds(gin) != nil {
									here[b] = true
								}
							}
						}
					}
				}
			}
			for _, l := range loopsOf(f) { // registered in a loop over a list of reporters
				for b := range l.blocks {
					for _, in := range b.Instrs {
						if adds(in) != nil {
							here[l.header] = true
						}
					}
				}
			}
			succeeds := func(ret *ssa.Return) bool {
				last := ret.Results[len(ret.Results)-1]
				if isErrorType(last.Type()) {
					k, ok := last.(*ssa.Const)
					return ok && k.Value == nil
				}
				return true
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) *ssa.Return
			walk = func(b *ssa.BasicBlock) *ssa.Return {
				if here[b] || seen[b] {
					return nil
				}
				seen[b] = true
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if succeeds(ret) {
						return ret
					}
					return nil
				}
				if last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && absence(last.Cond) && x.what != "itself" {
					for _, s := range b.Succs {
						if here[s] {
							return nil
						}
					}
				}
				for _, s := range b.Succs {
					if ret := walk(s); ret != nil {
						return ret
					}
				}
				return nil
			}
			if ret := walk(f.Blocks[0]); ret != nil {
				r.report("not-registered", fnKey(f)+" "+x.what, w.ipos(ret), fmt.Sprintf("%s can succeed without registering %s as reporter of its receiver: no event reaches it", fnKey(f), x.what))
			}
		}
	}
	// the receiver keeps them all
	for _, f := range w.funcs {
		if orig(f).Name() != "AddReporter" || !fnPkgIs(w, f, "rx") || f.Signature.Recv() == nil || len(f.Params) != 2 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fv := storeField(s)
				if fv == nil {
					continue
				}
				if _, ok := fv.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				base := appendBase(s.Val)
				if !w.srcFields(base)[fv] || emptied(base) {
					r.report("replaced", fnKey(f), w.ipos(in), "registering a reporter forgets those that were registered before")
				}
			}
		}
	}
}

// emptied: a slice expression that keeps no element of its operand.
func emptied(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.High == nil {
		return false
	}
	n, ok := constInt(sl.High)
	return ok && n == 0
}

// appendBase: what is appended to, in the end.
func appendBase(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		c, ok := v.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 {
			return v
		}
		if b, isB := c.Call.Value.(*ssa.Builtin); !isB || b.Name() != "append" {
			return v
		}
		// append([]T{}, old...) keeps the old ones as well
		if len(c.Call.Args) > 1 {
			if _, ok := c.Call.Args[0].(*ssa.Const); ok {
				v = c.Call.Args[1]
				continue
			}
			if sl, ok := c.Call.Args[0].(*ssa.Slice); ok {
				if _, isAl := sl.X.(*ssa.Alloc); isAl {
					v = c.Call.Args[1]
					continue
				}
			}
		}
		v = c.Call.Args[0]
	}
	return v
}
