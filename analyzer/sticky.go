package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// stickyMon decides C12: a value that is computed from the samples of one block must not be able to stay in a value
// that is only ever updated (x = x + v - w, x = a*x + b*v): infinities and NaNs never leave such a value again.
type stickyMon struct {
	w     *World
	r     *Result
	tv    map[ssa.Value]bool
	tl    map[any]bool // locations: *types.Var (field), *Obj, ssa.Value (alloc)
	fns   []*ssa.Function
	pds   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	conds map[*ssa.BasicBlock]map[condKey]bool
	calls map[*ssa.Function][]ssa.CallInstruction
}

type condKey struct {
	in  *ssa.If
	val bool
}

// floatish: a type whose values can be infinite or undefined.
func floatish(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		_ = tp
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) != 0
	case *types.Interface:
		return false
	}
	return false
}

// holder: a type that carries such values.
func holder(t types.Type) bool {
	if floatish(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return holder(u.Elem())
	case *types.Array:
		return holder(u.Elem())
	case *types.Pointer:
		return holder(u.Elem())
	case *types.Chan:
		return holder(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holder(u.At(i).Type()) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ft := u.Field(i).Type(); floatish(ft) {
				return true
			}
		}
	}
	return false
}

// locs of an address: where a value stored there stays.
func (s *stickyMon) locs(addr ssa.Value) []any {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if v := fieldVar(a.X.Type(), a.Field); v != nil {
			return []any{v}
		}
	case *ssa.Alloc:
		return []any{a}
	case *ssa.IndexAddr:
		return s.elems(a.X)
	case *ssa.FreeVar:
		var res []any
		for _, mc := range makersOf(s.w, a.Parent()) {
			for i, fv := range a.Parent().FreeVars {
				if fv == a && i < len(mc.Bindings) {
					res = append(res, s.locs(mc.Bindings[i])...)
				}
			}
		}
		return res
	case *ssa.ChangeType:
		return s.locs(a.X)
	}
	return s.objs(addr)
}

type elemOf struct{ of any }

// elems: the locations of the elements of a slice or array.
func (s *stickyMon) elems(v ssa.Value) []any {
	switch x := v.(type) {
	case *ssa.Slice:
		return s.elems(x.X)
	case *ssa.ChangeType:
		return s.elems(x.X)
	case *ssa.FieldAddr, *ssa.Alloc: // pointer to an array
		var res []any
		for _, l := range s.locs(x) {
			res = append(res, elemOf{l})
		}
		return res
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if fv := fieldVar(f.X.Type(), f.Field); fv != nil && len(s.w.pts.Objs(v)) == 0 {
				return []any{elemOf{fv}}
			}
		}
	}
	var res []any
	for _, o := range s.w.pts.Objs(v) {
		res = append(res, elemOf{o})
	}
	return res
}

func (s *stickyMon) objs(v ssa.Value) []any {
	var res []any
	for _, o := range s.w.pts.Objs(v) {
		if o.kind == oAlloc {
			if a, ok := o.instr.(*ssa.Alloc); ok {
				res = append(res, a)
				continue
			}
		}
		if o.kind == oField && o.field != nil {
			res = append(res, o.field)
			continue
		}
		res = append(res, o)
	}
	return res
}

func (s *stickyMon) taint(v ssa.Value) bool {
	if v == nil || s.tv[v] {
		return false
	}
	if !holder(v.Type()) {
		return false
	}
	s.tv[v] = true
	return true
}

func (s *stickyMon) taintLocs(ls []any) bool {
	ch := false
	for _, l := range ls {
		if !s.tl[l] {
			s.tl[l] = true
			ch = true
		}
	}
	return ch
}

func (s *stickyMon) anyLoc(ls []any) bool {
	for _, l := range ls {
		if s.tl[l] {
			return true
		}
	}
	return false
}

// carries: v is computed from samples.
func (s *stickyMon) carries(v ssa.Value) bool {
	if s.tv[v] {
		return true
	}
	if sl, ok := v.Type().Underlying().(*types.Slice); ok && holder(sl.Elem()) {
		return s.anyLoc(s.elems(v))
	}
	return false
}

func (s *stickyMon) spread() {
	for changed := true; changed; {
		changed = false
		mark := func(b bool) {
			if b {
				changed = true
			}
		}
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.BinOp:
						if floatish(x.Type()) && (s.tv[x.X] || s.tv[x.Y]) {
							mark(s.taint(x))
						}
					case *ssa.UnOp:
						switch x.Op {
						case token.MUL:
							if s.tv[x.X] || s.anyLoc(s.locs(x.X)) {
								mark(s.taint(x))
							}
						case token.ARROW:
							if s.anyLoc(s.objs(x.X)) {
								mark(s.taint(x))
							}
						default:
							if s.tv[x.X] {
								mark(s.taint(x))
							}
						}
					case *ssa.Select:
						for _, c := range x.States {
							if c.Dir == types.RecvOnly && s.anyLoc(s.objs(c.Chan)) {
								for _, ref := range *x.Referrers() {
									if e, ok := ref.(*ssa.Extract); ok && e.Index >= 2 && types.Identical(e.Type(), c.Chan.Type().Underlying().(*types.Chan).Elem()) {
										mark(s.taint(e))
									}
								}
							}
							if c.Dir == types.SendOnly && s.carries(c.Send) {
								mark(s.taintLocs(s.objs(c.Chan)))
							}
						}
					case *ssa.Send:
						if s.carries(x.X) {
							mark(s.taintLocs(s.objs(x.Chan)))
						}
					case *ssa.Store:
						if s.carries(x.Val) && holder(x.Val.Type()) && !s.guarded(x.Val, b) {
							mark(s.taintLocs(s.locs(x.Addr)))
						}
					case *ssa.IndexAddr:
						if s.tv[x.X] {
							mark(s.taint(x))
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if s.tv[e] {
								mark(s.taint(x))
							}
						}
					case *ssa.Extract:
						if _, ok := x.Tuple.(*ssa.Select); !ok && s.tv[x.Tuple] {
							if c, ok := x.Tuple.(*ssa.Call); ok {
								if s.resultTaint(c, x.Index) {
									mark(s.taint(x))
								}
							} else {
								mark(s.taint(x))
							}
						}
					case *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.MultiConvert, *ssa.Index, *ssa.Field, *ssa.SliceToArrayPointer:
						ops := in.Operands(nil)
						if s.tv[*ops[0]] {
							mark(s.taint(in.(ssa.Value)))
						}
					case ssa.CallInstruction:
						mark(s.call(f, b, x))
					}
				}
			}
		}
	}
}

func (s *stickyMon) resultTaint(c *ssa.Call, i int) bool {
	cs := s.w.pts.Callees(c)
	if len(cs) == 0 {
		return true
	}
	for _, g := range cs {
		if len(g.Blocks) == 0 {
			return true
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) && s.carries(ret.Results[i]) {
				return true
			}
		}
	}
	return false
}

func (s *stickyMon) call(f *ssa.Function, b *ssa.BasicBlock, c ssa.CallInstruction) bool {
	changed := false
	cc := c.Common()
	val, _ := c.(ssa.Value)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if s.carries(cc.Args[1]) {
				changed = s.taintLocs(s.elems(cc.Args[0])) || changed
			}
		case "append":
			if s.carries(cc.Args[1]) || s.tv[cc.Args[0]] {
				changed = s.taint(val) || changed
				changed = s.taintLocs(s.elems(val)) || changed
			}
		case "min", "max", "real", "imag", "complex":
			for _, a := range cc.Args {
				if s.tv[a] {
					changed = s.taint(val) || changed
				}
			}
		}
		return changed
	}
	known := false
	for _, g := range s.w.pts.Callees(c) {
		if len(g.Blocks) == 0 || !s.w.inRepo(g) {
			continue
		}
		known = true
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		off := len(g.Params) - len(args)
		for i, a := range args {
			if s.carries(a) && i+off >= 0 && i+off < len(g.Params) && !s.guarded(a, b) {
				changed = s.taint(g.Params[i+off]) || changed
			}
		}
		if val != nil {
			for _, rb := range g.Blocks {
				if ret, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						if s.carries(x) && !s.guarded(x, rb) {
							changed = s.taint(val) || changed
						}
					}
				}
			}
		}
	}
	if !known && val != nil {
		for _, a := range cc.Args {
			if s.carries(a) {
				changed = s.taint(val) || changed
			}
		}
	}
	return changed
}

// condsOf: the branches that decide whether b is executed.
func (s *stickyMon) condsOf(b *ssa.BasicBlock) map[condKey]bool {
	if c, ok := s.conds[b]; ok {
		return c
	}
	res := map[condKey]bool{}
	s.conds[b] = res
	f := b.Parent()
	pd := s.pds[f]
	if pd == nil {
		pd = postDominators(f)
		s.pds[f] = pd
	}
	var rec func(x *ssa.BasicBlock)
	seen := map[*ssa.BasicBlock]bool{}
	rec = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, h := range f.Blocks {
			if len(h.Succs) != 2 {
				continue
			}
			i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
			if !ok || pd[h.Succs[0]][x] == pd[h.Succs[1]][x] {
				continue
			}
			res[condKey{i, pd[h.Succs[0]][x]}] = true
			rec(h)
		}
	}
	rec(b)
	return res
}

// guarded: in block b the value is known to be finite.
func (s *stickyMon) guarded(v ssa.Value, b *ssa.BasicBlock) bool {
	if !floatish(v.Type()) {
		return false
	}
	nan, inf, ninf := false, false, false
	for k := range s.condsOf(b) {
		s.finite(k.in.Cond, k.val, v, &nan, &inf, &ninf, 0)
	}
	return nan && inf && ninf
}

// finite: what is known about v when cond is val.
func (s *stickyMon) finite(cond ssa.Value, val bool, v ssa.Value, nan, inf, ninf *bool, d int) {
	if d > 4 {
		return
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s.finite(x.X, !val, v, nan, inf, ninf, d+1)
		}
	case *ssa.BinOp:
		// v == v, v-v == 0, bounds
		related := func(a ssa.Value) bool { return s.related(a, v, 0) }
		switch x.Op {
		case token.EQL, token.NEQ:
			if (x.Op == token.EQL) == val {
				if x.X == x.Y && related(x.X) {
					*nan = true
				}
				if bo, ok := x.X.(*ssa.BinOp); ok && bo.Op == token.SUB && bo.X == bo.Y && related(bo.X) {
					*nan, *inf, *ninf = true, true, true
				}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if !val {
				return
			}
			less := x.Op == token.LSS || x.Op == token.LEQ
			if related(x.X) && !s.tv[x.Y] {
				*nan = true
				if less {
					*inf = true
				} else {
					*ninf = true
				}
			}
			if related(x.Y) && !s.tv[x.X] {
				*nan = true
				if less {
					*ninf = true
				} else {
					*inf = true
				}
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return
		}
		rel := -1
		for i, a := range x.Call.Args {
			if s.related(a, v, 0) {
				rel = i
			}
		}
		if rel < 0 {
			return
		}
		switch g.String() {
		case "math.IsNaN":
			if !val {
				*nan = true
			}
			return
		case "math.IsInf":
			if val {
				return
			}
			if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Value != nil {
				sign, _ := constant.Int64Val(constant.ToInt(c.Value))
				if sign >= 0 {
					*inf = true
				}
				if sign <= 0 {
					*ninf = true
				}
			}
			return
		}
		if o := g.Origin(); o != nil && len(g.Blocks) == 0 {
			g = o
		}
		if len(g.Blocks) == 0 || rel >= len(g.Params) {
			return
		}
		// what the helper knows about its parameter whenever it returns this value
		p := g.Params[rel]
		first := true
		var n0, i0, j0 bool
		s.boolReturns(g, val, func(conds []boolCond) {
			var n, i, j bool
			for _, c := range conds {
				s.finite(c.v, c.val, p, &n, &i, &j, d+1)
			}
			if first {
				n0, i0, j0, first = n, i, j, false
			} else {
				n0, i0, j0 = n0 && n, i0 && i, j0 && j
			}
		})
		if !first {
			*nan, *inf, *ninf = *nan || n0, *inf || i0, *ninf || j0
		}
	case *ssa.Phi:
		// a && b
		for i, e := range x.Edges {
			c, ok := e.(*ssa.Const)
			if ok && c.Value != nil && constant.BoolVal(c.Value) != val && len(x.Edges) == 2 {
				o := x.Edges[1-i]
				s.finite(o, val, v, nan, inf, ninf, d+1)
				for k := range s.condsOf(x.Block().Preds[1-i]) {
					s.finite(k.in.Cond, k.val, v, nan, inf, ninf, d+1)
				}
			}
		}
	}
}

type boolCond struct {
	v   ssa.Value
	val bool
}

// boolReturns: the conditions under which g returns want, for each way.
func (s *stickyMon) boolReturns(g *ssa.Function, want bool, f func([]boolCond)) {
	var ways func(v ssa.Value, b *ssa.BasicBlock, d int)
	ways = func(v ssa.Value, b *ssa.BasicBlock, d int) {
		if d > 4 {
			f(nil)
			return
		}
		var cs []boolCond
		for k := range s.condsOf(b) {
			cs = append(cs, boolCond{k.in.Cond, k.val})
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && constant.BoolVal(x.Value) == want {
				f(cs)
			}
		case *ssa.Phi:
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if c, ok := e.(*ssa.Const); ok && c.Value != nil {
					if constant.BoolVal(c.Value) != want {
						continue
					}
					// the branch of the predecessor itself
					var ec []boolCond
					for k := range s.condsOf(p) {
						ec = append(ec, boolCond{k.in.Cond, k.val})
					}
					if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
						ec = append(ec, boolCond{br.Cond, p.Succs[0] == x.Block()})
					}
					f(ec)
					continue
				}
				ways(e, p, d+1)
			}
		default:
			f(append(cs, boolCond{v, want}))
		}
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			ways(ret.Results[0], b, 0)
		}
	}
}

// related: one of the two values is computed from the other by conversions and arithmetic with untainted values.
func (s *stickyMon) related(a, v ssa.Value, d int) bool {
	ra, rv := s.roots(a, 0), s.roots(v, 0)
	for x := range ra {
		if rv[x] {
			return true
		}
	}
	return false
}

func (s *stickyMon) roots(v ssa.Value, d int) map[ssa.Value]bool {
	res := map[ssa.Value]bool{v: true}
	if d > 6 {
		return res
	}
	add := func(x ssa.Value) {
		for k := range s.roots(x, d+1) {
			res[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Convert:
		add(x.X)
	case *ssa.MultiConvert:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.BinOp:
		if s.tv[x.X] {
			add(x.X)
		}
		if s.tv[x.Y] {
			add(x.Y)
		}
	}
	return res
}

// tree walks over the arithmetic that makes up a value, including what called functions of the repository compute from
// their parameters. leaf is called for everything that is not arithmetic, in is the instruction it is evaluated at.
func (s *stickyMon) tree(v ssa.Value, env map[ssa.Value]ssa.Value, seen map[ssa.Value]bool, d int, leaf func(v ssa.Value)) {
	if seen[v] || d > 40 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		s.tree(x.X, env, seen, d+1, leaf)
		s.tree(x.Y, env, seen, d+1, leaf)
	case *ssa.Convert:
		s.tree(x.X, env, seen, d+1, leaf)
	case *ssa.MultiConvert:
		s.tree(x.X, env, seen, d+1, leaf)
	case *ssa.ChangeType:
		s.tree(x.X, env, seen, d+1, leaf)
	case *ssa.Phi:
		leaf(x)
		for _, e := range x.Edges {
			s.tree(e, env, seen, d+1, leaf)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			s.tree(x.X, env, seen, d+1, leaf)
			return
		}
		leaf(x)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.treeCall(c, x.Index, env, seen, d, leaf)
			return
		}
		leaf(x)
	case *ssa.Call:
		s.treeCall(x, 0, env, seen, d, leaf)
	case *ssa.Parameter:
		leaf(x)
		if a, ok := env[x]; ok {
			s.tree(a, env, seen, d+1, leaf)
		}
	default:
		leaf(v)
	}
}

func (s *stickyMon) treeCall(c *ssa.Call, idx int, env map[ssa.Value]ssa.Value, seen map[ssa.Value]bool, d int, leaf func(v ssa.Value)) {
	leaf(c)
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "min", "max", "real", "imag", "complex":
			for _, a := range c.Call.Args {
				s.tree(a, env, seen, d+1, leaf)
			}
		}
		return
	}
	known := false
	for _, g := range s.w.pts.Callees(c) {
		if len(g.Blocks) == 0 || !s.w.inRepo(g) || c.Call.IsInvoke() {
			continue
		}
		known = true
		off := len(g.Params) - len(c.Call.Args)
		for i, a := range c.Call.Args {
			if off+i >= 0 {
				env[g.Params[off+i]] = a
			}
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				s.tree(ret.Results[idx], env, seen, d+1, leaf)
			}
		}
	}
	if !known {
		for _, a := range c.Call.Args {
			if floatish(a.Type()) {
				s.tree(a, env, seen, d+1, leaf)
			}
		}
	}
}

// accum: an update of a location with a value that depends on the location itself.
type accum struct {
	store *ssa.Store
	loc   any
	loads []ssa.Instruction
}

func sameLoc(ls []any, l any) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// selfLoads: the loads of loc that the stored value is computed from.
func (s *stickyMon) selfLoads(val ssa.Value, loc any) []ssa.Instruction {
	var res []ssa.Instruction
	s.tree(val, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, 0, func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && sameLoc(s.locs(u.X), loc) {
			res = append(res, u)
		}
	})
	return res
}

// fed: the value takes up something computed from samples that is not known to be finite.
func (s *stickyMon) fed(st *ssa.Store, loc any) bool {
	found := false
	s.tree(st.Val, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, 0, func(v ssa.Value) {
		if !s.tv[v] || s.guarded(v, st.Block()) {
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && sameLoc(s.locs(u.X), loc) {
			return
		}
		switch v.(type) {
		case *ssa.Phi, *ssa.Parameter, *ssa.Call, *ssa.UnOp, *ssa.Extract, *ssa.FreeVar, *ssa.Index:
			found = true
		}
	})
	return found
}

// freshens: the instruction replaces the content of the location by something that does not depend on it.
func (s *stickyMon) freshens(in ssa.Instruction, loc any) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if sameLoc(s.locs(x.Addr), loc) {
			return len(s.selfLoads(x.Val, loc)) == 0
		}
		// a fresh slice in place of the old one
		if e, ok := loc.(elemOf); ok && isFreshSlice(x.Val) {
			for _, l := range s.locs(x.Addr) {
				for _, st := range s.storesTo(l) {
					if s.refersTo(st.Val, e.of) {
						return true
					}
				}
			}
		}
	case *ssa.MakeSlice:
		if e, ok := loc.(elemOf); ok {
			for _, o := range s.w.pts.Objs(x) {
				if any(o) == e.of {
					return true
				}
			}
			return s.takesOver(x, e.of)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "clear" || bi.Name() == "copy") {
			return sameLoc(s.elems(x.Call.Args[0]), loc)
		}
	}
	return false
}

// takesOver: the fresh slice becomes the value of a local variable that referred to the other one.
func (s *stickyMon) takesOver(m *ssa.MakeSlice, obj any) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi:
				if s.refersTo(x, obj) || rec(x) {
					return true
				}
			case *ssa.ChangeType:
				if rec(x) {
					return true
				}
			}
		}
		return false
	}
	return rec(m)
}

func (s *stickyMon) refersTo(v ssa.Value, obj any) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, o := range s.w.pts.Objs(v) {
		if any(o) == obj {
			return true
		}
	}
	return false
}

func isFreshSlice(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeSlice:
			return true
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
}

// killedBefore: on every way from the beginning of the function to the instruction the location is replaced.
func (s *stickyMon) killedBefore(at ssa.Instruction, loc any, depth int) bool {
	f := at.Parent()
	kills := func(in ssa.Instruction) bool {
		if s.freshens(in, loc) {
			return true
		}
		if c, ok := in.(*ssa.Call); ok && depth < 4 {
			cs := s.w.pts.Callees(c)
			if len(cs) == 0 || c.Call.IsInvoke() {
				return false
			}
			for _, g := range cs {
				if len(g.Blocks) == 0 || !s.w.inRepo(g) || g == f {
					return false
				}
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !s.killedBefore(ret, loc, depth+1) {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	// is the beginning reachable backwards without a kill?
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, upto int) bool
	back = func(b *ssa.BasicBlock, upto int) bool {
		for i := upto - 1; i >= 0; i-- {
			if kills(b.Instrs[i]) {
				return true
			}
		}
		if b.Index == 0 {
			return false
		}
		for _, p := range b.Preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if !back(p, len(p.Instrs)) {
				return false
			}
		}
		return true
	}
	for i, in := range at.Block().Instrs {
		if in == at {
			return back(at.Block(), i)
		}
	}
	return false
}

// counting: the value is a counter (or compared with one), so the condition becomes true sooner or later.
func (s *stickyMon) counting(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return s.counting(x.X, d+1) || s.counting(x.Y, d+1)
		case token.ADD, token.SUB, token.REM:
			if !isInt(x.Type()) {
				return false
			}
			return s.counting(x.X, d+1) || s.counting(x.Y, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return s.counting(x.X, d+1)
		}
		if x.Op == token.MUL && isInt(x.Type()) {
			for _, l := range s.locs(x.X) {
				for _, st := range s.storesTo(l) {
					if len(s.selfLoads(st.Val, l)) > 0 {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		if isInt(x.Type()) {
			for _, e := range x.Edges {
				self := false
				s.tree(e, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, 0, func(l ssa.Value) {
					if l == x && e != x {
						self = true
					}
				})
				if bo, ok := e.(*ssa.BinOp); ok && self && bo.Op == token.ADD {
					return true
				}
				if _, ok := e.(*ssa.Phi); ok && self {
					return true
				}
			}
		}
	case *ssa.Extract:
		switch x.Tuple.(type) {
		case *ssa.Next, *ssa.Select:
			return true
		}
	}
	return false
}

func (s *stickyMon) storesTo(l any) []*ssa.Store {
	var res []*ssa.Store
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && sameLoc(s.locs(st.Addr), l) {
					res = append(res, st)
				}
			}
		}
	}
	return res
}

// selfCond: the condition looks at the location itself.
func (s *stickyMon) selfCond(v ssa.Value, loc any) bool {
	var ops []*ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int) bool
	rec = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 8 {
			return false
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && sameLoc(s.locs(u.X), loc) {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok {
			ops = in.Operands(nil)
			for _, o := range append([]*ssa.Value{}, ops...) {
				if *o != nil && rec(*o, d+1) {
					return true
				}
			}
		}
		return false
	}
	return rec(v, 0)
}

// chains: the sets of conditions under which the worker gets to an instruction (again and again).
func (s *stickyMon) chains(at ssa.Instruction, root *ssa.Function, again bool, stack []*ssa.Function) []map[condKey]bool {
	f := at.Parent()
	own := s.condsOf(at.Block())
	if f == root {
		if again {
			in := false
			for _, l := range loopsOf(root) {
				in = in || l.blocks[at.Block()] && waitsIn(l)
			}
			if !in {
				return nil
			}
		}
		return []map[condKey]bool{own}
	}
	for _, x := range stack {
		if x == f {
			return nil
		}
	}
	if len(stack) > 8 {
		return nil
	}
	var res []map[condKey]bool
	up := func(c ssa.Instruction) {
		for _, m := range s.chains(c, root, again, append(stack, f)) {
			u := map[condKey]bool{}
			for k := range m {
				u[k] = true
			}
			for k := range own {
				u[k] = true
			}
			res = append(res, u)
			if len(res) > 64 {
				return
			}
		}
	}
	for _, c := range s.sites()[f] {
		if len(res) > 64 {
			break
		}
		up(c)
	}
	return res
}

// replaced: while blocks are processed the location is replaced again and again.
func (s *stickyMon) replaced(acc *ssa.Store, loc any, root *ssa.Function, live map[*ssa.Function]bool) bool {
	accs := s.chains(acc, root, false, nil)
	for _, f := range s.fns {
		if !live[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !s.freshens(in, loc) {
					continue
				}
				for _, kc := range s.chains(in, root, true, nil) {
					for _, ac := range accs {
						ok := true
						for k := range kc {
							if ac[k] || s.counting(k.in.Cond, 0) || s.selfCond(k.in.Cond, loc) {
								continue
							}
							ok = false
							break
						}
						if ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func locName(l any) string {
	switch x := l.(type) {
	case *types.Var:
		return fieldKey(x)
	case *ssa.Alloc:
		return "variable " + x.Comment + " in " + fnKey(x.Parent())
	case elemOf:
		return "the elements of " + locName(x.of)
	case *Obj:
		if x.kind == oField {
			return fieldKey(x.field)
		}
		if x.instr != nil {
			if v, ok := x.instr.(ssa.Value); ok && v.Name() != "" {
				if rs := v.Referrers(); rs != nil {
					for _, ref := range *rs {
						if st, ok := ref.(*ssa.Store); ok {
							switch a := st.Addr.(type) {
							case *ssa.Alloc:
								return a.Comment + " in " + fnKey(a.Parent())
							case *ssa.FieldAddr:
								if fv := fieldVar(a.X.Type(), a.Field); fv != nil {
									return fieldKey(fv)
								}
							}
						}
					}
				}
			}
			return "a slice made in " + fnKey(x.instr.Parent())
		}
		return x.String()
	}
	return "?"
}

func checkC12(w *World, r *Result) {
	r.rule("a value that is only ever updated from itself while blocks are processed takes up nothing computed from samples, unless that is known to be finite")
	r.assume("the samples of a block are arbitrary, including zeros, infinities and undefined values; a logarithm of them can be infinite")
	s := &stickyMon{w: w, r: r, tv: map[ssa.Value]bool{}, tl: map[any]bool{}, pds: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, conds: map[*ssa.BasicBlock]map[condKey]bool{}}
	for _, f := range w.funcs {
		if w.inRepo(f) && len(f.Blocks) > 0 {
			s.fns = append(s.fns, f)
		}
	}
	iq := w.fn("rx.(*Receiver).IQData")
	r.need(iq != nil, "rx.(*Receiver).IQData")
	if iq == nil {
		return
	}
	for _, p := range iq.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			s.taint(p)
		}
	}
	s.spread()

	// the workers that process blocks: goroutines that receive something computed from samples
	var roots []*ssa.Function
	for _, f := range s.fns {
		if !w.callers().spawn[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				hit := false
				switch x := in.(type) {
				case *ssa.Select:
					for _, c := range x.States {
						hit = hit || c.Dir == types.RecvOnly && s.anyLoc(s.objs(c.Chan))
					}
				case *ssa.UnOp:
					hit = x.Op == token.ARROW && s.anyLoc(s.objs(x.X))
				}
				if hit && (len(roots) == 0 || roots[len(roots)-1] != f) {
					roots = append(roots, f)
				}
			}
		}
	}
	// the receive may also be in a helper of the worker
	if len(roots) == 0 {
		for _, f := range s.fns {
			if !w.callers().spawn[f] {
				continue
			}
			for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if x, ok := in.(*ssa.Select); ok {
							for _, c := range x.States {
								if c.Dir == types.RecvOnly && s.anyLoc(s.objs(c.Chan)) && (len(roots) == 0 || roots[len(roots)-1] != f) {
									roots = append(roots, f)
								}
							}
						}
					}
				}
			}
		}
	}
	var out findings
	nAcc, nLoc := 0, map[any]bool{}
	for _, root := range roots {
		live := s.live(root)
		for _, f := range s.fns {
			if !live[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || !floatish(st.Val.Type()) {
						continue
					}
					for _, loc := range s.locs(st.Addr) {
						if a, ok := loc.(*ssa.Alloc); ok && !s.lasts(a, root) {
							continue
						}
						if e, ok := loc.(elemOf); ok {
							if a, ok := e.of.(*ssa.Alloc); ok && !s.lasts(a, root) {
								continue
							}
						}
						loads := s.selfLoads(st.Val, loc)
						if len(loads) == 0 {
							continue
						}
						nAcc++
						if !s.fed(st, loc) {
							continue
						}
						nLoc[loc] = true
						old := false
						for _, l := range loads {
							if l.Parent() == f && s.killedBefore(l, loc, 0) {
								continue
							}
							old = true
						}
						if !old || s.replaced(st, loc, root, live) {
							continue
						}
						out.add("sticky", "sticky:"+locName(loc), w.ipos(st),
							"one block of samples can leave an infinite or undefined value in "+locName(loc)+" for good: it is updated from its own old value with values computed from the samples, and nothing replaces it while blocks are processed")
					}
				}
			}
			s.phis(f, root, &out, &nAcc)
		}
	}
	r.count("values_updated_from_themselves", nAcc)
	r.count("values_fed_with_samples", len(nLoc))
	r.count("values_computed_from_samples", len(s.tv))
	r.count("workers", len(roots))
	var names []string
	for l := range nLoc {
		names = append(names, locName(l))
	}
	sort.Strings(names)
	for _, n := range names {
		r.sample("updated with values computed from samples: " + n)
	}
	if len(roots) == 0 {
		r.assume("no goroutine receives the samples handed to the receiver")
	}
	r.addAll(out.list)
}

// lasts: the variable outlives the processing of one block.
func (s *stickyMon) lasts(a *ssa.Alloc, root *ssa.Function) bool {
	if a.Parent() != root {
		// a local variable of a function called for each block, unless a goroutine or a field keeps it
		return false
	}
	for _, l := range loopsOf(root) {
		if l.blocks[a.Block()] && waitsIn(l) {
			return false
		}
	}
	return true
}

func waitsIn(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if isWait(in) {
				return true
			}
		}
	}
	return false
}

// phis: local variables of a worker's loop.
func (s *stickyMon) phis(f, root *ssa.Function, out *findings, n *int) {
	for _, l := range loopsOf(f) {
		if !waitsIn(l) {
			continue
		}
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !floatish(phi.Type()) {
				continue
			}
			fed, fresh, self := false, false, false
			var alt func(v ssa.Value, seen map[ssa.Value]bool)
			alt = func(v ssa.Value, seen map[ssa.Value]bool) {
				if seen[v] {
					return
				}
				seen[v] = true
				if v == phi {
					return
				}
				if p, ok := v.(*ssa.Phi); ok && l.blocks[p.Block()] && !hasSelf(p) {
					for _, e := range p.Edges {
						alt(e, seen)
					}
					return
				}
				dep, feeds := false, false
				s.tree(v, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, 0, func(x ssa.Value) {
					if x == phi {
						dep = true
						return
					}
					if s.tv[x] && x != v {
						in, _ := v.(ssa.Instruction)
						if in == nil || !s.guarded(x, in.Block()) {
							feeds = true
						}
					}
				})
				if dep {
					self = true
					fed = fed || feeds
				} else {
					fresh = true
				}
			}
			for i, e := range phi.Edges {
				if l.blocks[l.header.Preds[i]] {
					alt(e, map[ssa.Value]bool{})
				}
			}
			if self {
				*n++
			}
			if self && fed && !fresh {
				name := phi.Comment
				out.add("sticky", "sticky:"+fnKey(f)+":"+name, s.w.pos(phi.Pos()),
					"one block of samples can leave an infinite or undefined value in the variable "+name+" of "+fnKey(f)+" for good: it is updated from its own old value with values computed from the samples, and nothing replaces it")
			}
		}
	}
}

func hasSelf(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e == p {
			return true
		}
	}
	return false
}

var _ = strings.Join

// sites: the calls of each function, except those of operations that were handed over by another goroutine.
func (s *stickyMon) sites() map[*ssa.Function][]ssa.CallInstruction {
	if s.calls != nil {
		return s.calls
	}
	s.calls = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := c.(*ssa.Go); ok || receivedValue(c.Common().Value, 0) {
					continue
				}
				for _, g := range s.w.pts.Callees(c) {
					s.calls[g] = append(s.calls[g], c)
				}
				// functions called by what is called (sort.Slice, sync.Once)
				if g := c.Common().StaticCallee(); g != nil && !s.w.inRepo(g) {
					for _, a := range c.Common().Args {
						if _, ok := a.Type().Underlying().(*types.Signature); ok {
							for _, h := range s.w.pts.FuncsOf(a) {
								s.calls[h] = append(s.calls[h], c)
							}
						}
					}
				}
			}
		}
	}
	return s.calls
}

func receivedValue(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Select); ok {
			return true
		}
		return receivedValue(x.Tuple, d+1)
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Phi:
		for _, e := range x.Edges {
			if receivedValue(e, d+1) {
				return true
			}
		}
	case *ssa.ChangeType:
		return receivedValue(x.X, d+1)
	}
	return false
}

// live: the functions that are called while the goroutine processes blocks.
func (s *stickyMon) live(root *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function][]*ssa.Function{}
	for g, cs := range s.sites() {
		for _, c := range cs {
			out[c.Parent()] = append(out[c.Parent()], g)
		}
	}
	res := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if res[f] {
			return
		}
		res[f] = true
		for _, g := range out[f] {
			rec(g)
		}
	}
	rec(root)
	return res
}
