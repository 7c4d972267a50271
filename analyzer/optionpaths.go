package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How the value of an option gets from its variable to the component: on every way, and as it is.

// copies: the values that are copies of the given ones (conversions, parameters, fields, captured variables).
func (w *World) copies(from []ssa.Value) (map[ssa.Value]bool, map[*ssa.Alloc]bool) {
	vals := map[ssa.Value]bool{}
	allocs := map[*ssa.Alloc]bool{}
	fields := map[*types.Var]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !vals[v] {
			vals[v] = true
			work = append(work, v)
		}
	}
	var addAlloc func(v ssa.Value)
	seenAddr := map[ssa.Value]bool{}
	addAlloc = func(v ssa.Value) {
		if seenAddr[v] || v.Referrers() == nil {
			return
		}
		seenAddr[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(x)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						addAlloc(fn.FreeVars[i])
					}
				}
			}
		}
	}
	for _, v := range from {
		add(v)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Convert:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.Phi:
				add(x)
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					allocs[al] = true
					addAlloc(al)
				}
				if fv := storeField(x); fv != nil && !fields[fv] {
					fields[fv] = true
					for _, f := range w.funcs {
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								l, ok := in.(*ssa.UnOp)
								if !ok || l.Op != token.MUL {
									continue
								}
								if fa, ok := l.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
									add(l)
								}
							}
						}
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						add(fn.FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				com := x.Common()
				g := com.StaticCallee()
				if g == nil || !w.inRepo(g) {
					continue
				}
				for i, a := range com.Args {
					if a == v && i < len(g.Params) {
						add(g.Params[i])
					}
				}
			}
		}
	}
	return vals, allocs
}

func ordering(op token.Token) bool {
	return op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
}

// clamped: where a copy of one of the values is replaced by a constant when it is too big or too small.
func (w *World) clamped(from []ssa.Value) ssa.Instruction {
	vals, allocs := w.copies(from)
	isConst := func(v ssa.Value) bool {
		for {
			if c, ok := v.(*ssa.Convert); ok {
				v = c.X
				continue
			}
			_, ok := v.(*ssa.Const)
			return ok
		}
	}
	limits := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) == 0 {
			return false
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !ordering(bo.Op) {
			return false
		}
		a, c := bo.X, bo.Y
		if isConst(a) {
			a, c = c, a
		}
		if !isConst(c) || !vals[a] {
			return false
		}
		// 0 stands for "not given"
		if n, ok := constInt(c); ok && (n == 0 || n == 1) {
			return false
		}
		return true
	}
	numeric := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	}
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "min" && bi.Name() != "max" {
						continue
					}
					has, cst := false, false
					for _, a := range x.Call.Args {
						has = has || vals[a]
						cst = cst || isConst(a)
						if n, ok := constInt(a); ok && (n == 0 || n == 1) {
							cst = false
						}
					}
					if has && cst {
						return x
					}
				case *ssa.Phi:
					if !numeric(x.Type()) {
						continue
					}
					has, cst := false, false
					for i, e := range x.Edges {
						has = has || vals[e]
						if isConst(e) {
							p := b.Preds[i]
							cst = cst || limits(p) || len(p.Preds) == 1 && limits(p.Preds[0])
						}
					}
					if has && cst {
						return x
					}
				case *ssa.Store:
					al, ok := x.Addr.(*ssa.Alloc)
					if ok && allocs[al] && isConst(x.Val) && numeric(x.Val.Type()) && len(b.Preds) == 1 && limits(b.Preds[0]) {
						return x
					}
				}
			}
		}
	}
	return nil
}

// sometimes: a call that hands the value of the option to a component, but only under a condition that has nothing
// to do with the option.
func (m *cmdMon) sometimes(c *command, o *option, ls []ssa.Value) ssa.Instruction {
	w := m.w
	vals, _ := w.copies(ls)
	own := func(cond ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var ok func(v ssa.Value) bool
		ok = func(v ssa.Value) bool {
			if v == nil || seen[v] {
				return false
			}
			seen[v] = true
			if vals[v] {
				return true
			}
			switch x := v.(type) {
			case *ssa.Const:
				return false
			case *ssa.BinOp:
				// errors and missing components
				if cst, isC := x.Y.(*ssa.Const); isC && cst.Value == nil {
					return true
				}
				if cst, isC := x.X.(*ssa.Const); isC && cst.Value == nil {
					return true
				}
				return ok(x.X) || ok(x.Y)
			case *ssa.UnOp:
				// a switch the option belongs to
				if fa, isF := x.X.(*ssa.FieldAddr); isF {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
						for _, p := range m.opts {
							if p.target == fv && strings.HasPrefix(o.name, p.name) {
								return true
							}
						}
					}
				}
				return ok(x.X)
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !ok(e) {
						if _, isC := e.(*ssa.Const); !isC {
							return false
						}
					}
				}
				return true
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if s, isS := constStr(a); isS && s == o.name {
						return true
					}
					if ok(a) {
						return true
					}
				}
			case *ssa.Extract:
				return true
			}
			return false
		}
		return ok(cond)
	}
	for f := range c.reach {
		if shortPkg(fnPkg(f)) != "cmd" || len(f.Blocks) == 0 {
			continue
		}
		var pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
		loops := loopsOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || !w.inRepo(g) || shortPkg(fnPkg(g)) == "cmd" {
					continue
				}
				has := false
				for _, a := range call.Call.Args {
					has = has || vals[a]
				}
				if !has {
					continue
				}
				if pd == nil {
					pd = postDominators(f)
				}
				// the conditions that decide whether the call is made
				for _, a := range f.Blocks {
					if len(a.Succs) != 2 || pd[a.Succs[0]][b] == pd[a.Succs[1]][b] {
						continue
					}
					header := false
					for _, l := range loops {
						header = header || l.blocks[a]
					}
					iff, isIf := a.Instrs[len(a.Instrs)-1].(*ssa.If)
					if !isIf || header || own(iff.Cond) {
						continue
					}
					// another call hands it over on the other side
					other := false
					for _, ob := range f.Blocks {
						if ob == b {
							continue
						}
						for _, oin := range ob.Instrs {
							oc, isC := oin.(*ssa.Call)
							if !isC || oc.Call.StaticCallee() == nil {
								continue
							}
							for _, arg := range oc.Call.Args {
								if vals[arg] && w.inRepo(oc.Call.StaticCallee()) {
									other = true
								}
							}
						}
					}
					if !other {
						return in
					}
				}
			}
		}
	}
	return nil
}

func (m *cmdMon) onEveryWay(out *findings, c *command, o *option, ls []ssa.Value) {
	w := m.w
	if bt, ok := ls[0].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
		if in := w.clamped(ls); in != nil {
			out.add("altered", "altered:"+o.name+":"+fnKey(in.Parent()), w.ipos(in), fmt.Sprintf("the value of the option --%s of '%s' is replaced by a constant in %s when it is too big or too small: it has no effect then", o.name, c.path(), fnKey(in.Parent())))
		}
	}
	if in := m.sometimes(c, o, ls); in != nil {
		out.add("sometimes", "sometimes:"+c.path()+":"+o.name, w.ipos(in), fmt.Sprintf("the value of the option --%s of '%s' gets to its component only under a condition that does not concern this option", o.name, c.path()))
	}
}
