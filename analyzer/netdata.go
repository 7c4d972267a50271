package main

// C08: malformed network data never crashes the program.
//
// What comes from the network is followed through the program (lengths and numbers separately, with branches that bound
// them taken into account); every access whose container or index the network decides must be proved to be in bounds,
// and no panic or exit may depend on it.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

const (
	tLow  uint8 = 1 << iota // may be as low as the network likes
	tHigh                   // may be as high as the network likes
	tLen                    // its length is up to the network
	tDeep                   // what is in it is from the network
	tNet                    // depends on the network
)

type netTaint struct {
	w       *World
	p       *boundsProver
	fl      *flow
	bits    map[ssa.Value]uint8
	locs    map[any]uint8
	res     map[*ssa.Function][]uint8
	changed bool
	src     map[ssa.Value]bool
	entry   map[*ssa.Function]bool // called with data by another package
	tci     map[string]bool
	memo    map[string]bool
	cut     map[*ssa.Function]bool
}

func netType(t types.Type) uint8 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tLen | tDeep | tNet
		case u.Info()&types.IsBoolean != 0:
			return tNet
		case u.Info()&types.IsUnsigned != 0:
			return tHigh | tNet
		case u.Info()&types.IsNumeric != 0:
			return tLow | tHigh | tNet
		}
	case *types.Slice:
		return tLen | tDeep | tNet
	case *types.Map:
		return tLen | tDeep | tNet
	}
	return tDeep | tNet
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isTCI(pkg *types.Package) bool {
	return pkg != nil && strings.HasPrefix(pkg.Path(), "github.com/ftl/tci")
}

func isTCIType(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && isTCI(n.Obj().Pkg())
}

// callbacks: methods that the TCI library calls with what it received.
func (t *netTaint) callbacks() {
	ifaces := map[*types.Package]bool{}
	for _, f := range t.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || !isTCI(g.Pkg.Pkg) {
					continue
				}
				ifaces[g.Pkg.Pkg] = true
				for _, a := range ci.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Interface); !ok {
						continue
					}
					for _, o := range t.w.pts.Objs(a) {
						_ = o
					}
					var ty types.Type
					if mi, ok := a.(*ssa.MakeInterface); ok {
						ty = mi.X.Type()
					}
					if ty == nil || namedOf(deref(ty)) == nil {
						continue
					}
					names := map[string]bool{}
					for pkg := range ifaces {
						for _, n := range pkg.Scope().Names() {
							if it, ok := pkg.Scope().Lookup(n).Type().Underlying().(*types.Interface); ok {
								for i := 0; i < it.NumMethods(); i++ {
									names[it.Method(i).Name()] = true
								}
							}
						}
					}
					ms := types.NewMethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if names[ms.At(i).Obj().Name()] {
							if m := t.w.prog.MethodValue(ms.At(i)); m != nil {
								t.entry[m] = true
							}
						}
					}
				}
			}
		}
	}
	for f := range t.entry {
		if len(f.Blocks) == 0 {
			continue
		}
		for i, pr := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				continue
			}
			t.add(pr, netType(pr.Type()))
		}
	}
}

func (t *netTaint) add(v ssa.Value, b uint8) {
	if v == nil || b == 0 {
		return
	}
	if _, ok := v.Type().Underlying().(*types.Signature); ok {
		return
	}
	if isErrorType(v.Type()) {
		b &= tNet | tDeep
	}
	if t.bits[v]|b != t.bits[v] {
		t.bits[v] |= b
		t.changed = true
	}
}

func (t *netTaint) put(addr ssa.Value, b uint8) {
	if b == 0 {
		return
	}
	for _, l := range t.fl.addrLocs(addr) {
		t.putLoc(l, b)
	}
}

func (t *netTaint) putLoc(l any, b uint8) {
	if t.locs[l]|b != t.locs[l] {
		t.locs[l] |= b
		t.changed = true
	}
}

func (t *netTaint) content(addr ssa.Value) uint8 {
	var b uint8
	for _, l := range t.fl.addrLocs(addr) {
		b |= t.locs[l]
	}
	return b
}

func (t *netTaint) elems(v ssa.Value) uint8 {
	var b uint8
	for _, l := range t.fl.elemLocs(v, 0) {
		b |= t.locs[l]
	}
	return b
}

// fits: bits that make sense for the type.
func fits(b uint8, ty types.Type) uint8 {
	if b == 0 {
		return 0
	}
	n := netType(ty)
	if _, ok := ty.Underlying().(*types.Struct); ok {
		n |= tDeep | tNet
	}
	return b & n
}

// at: the bits of the value as the branches before the block leave them.
func (t *netTaint) at(v ssa.Value, b *ssa.BasicBlock) uint8 {
	x := t.bits[v]
	if x&(tLow|tHigh|tLen) == 0 {
		return x
	}
	if x&(tLow|tHigh) != 0 && isIntType(v.Type()) {
		l := t.p.form(v)
		if x&tHigh != 0 && t.bounded(l, 1, b, 0, 3) {
			x &^= tHigh
		}
		if x&tLow != 0 && (t.bounded(l, -1, b, 0, 3) || t.p.holds(l, b)) {
			x &^= tLow
		}
	}
	if x&(tLow|tHigh) != 0 && !isIntType(v.Type()) && isNumber(v.Type()) {
		x = t.floatAt(v, x, b)
	}
	if x&tLen != 0 {
		l := t.p.lenOf(v)
		if bo, ok := v.(*ssa.BinOp); ok && !l.isConst() {
			// pieces put together: as many as the network likes
			_ = bo
		} else if !t.netLength(l, b) {
			x &^= tLen
		}
	}
	return x
}

// floatAt: comparisons of floating point numbers bound them, too.
func (t *netTaint) floatAt(v ssa.Value, x uint8, b *ssa.BasicBlock) uint8 {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		iff, ok := d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		holds := d.Preds[0].Succs[0] == d
		for _, flip := range []bool{false, true} {
			a, o := c.X, c.Y
			if flip {
				a, o = o, a
			}
			if t.p.canon(a) != t.p.canon(v) || t.bits[o] != 0 {
				continue
			}
			less := c.Op == token.LSS || c.Op == token.LEQ
			more := c.Op == token.GTR || c.Op == token.GEQ
			if flip {
				less, more = more, less
			}
			if !holds {
				less, more = more, less
			}
			if less {
				x &^= tHigh
			}
			if more {
				x &^= tLow
			}
		}
	}
	return x
}

// bounded: dir*l has an upper bound that the network does not decide.
func (t *netTaint) bounded(l bLin, dir int64, b *ssa.BasicBlock, d, budget int) bool {
	for s, k := range l.t {
		if !t.boundedSym(s, k*dir > 0, b, d) {
			return false
		}
	}
	return true
}

func (t *netTaint) boundedSym(s bSym, up bool, b *ssa.BasicBlock, d int) bool {
	if s.q != 0 {
		return false
	}
	bits := t.bits[s.v]
	if s.fv != nil {
		bits = t.locs[s.fv]
	}
	if s.len || s.cap {
		if bits&tLen == 0 {
			return true
		}
		if !up {
			return d > 0
		}
	} else if up && bits&tHigh == 0 || !up && bits&tLow == 0 {
		return true
	}
	if d > 3 {
		return false
	}
	fs := t.p.blockFacts(b).ge
	all := append(append([]bLin{}, fs...), t.p.defFacts(s)...)
	for _, f := range fs {
		for o := range f.t {
			if !o.len && !o.cap {
				// a quotient of it
				for _, x := range t.p.defFacts(o) {
					if x.t[s] != 0 && o != s {
						all = append(all, x)
					}
				}
			}
		}
	}
	for _, f := range all {
		k := f.t[s]
		if k == 0 || (k < 0) != up {
			continue
		}
		ok := len(f.t) > 1 || d > 0 && up // a number is no bound, it must be shown to be in range
		for o, ko := range f.t {
			if o == s {
				continue
			}
			// k*s >= -(rest): up: |k|*s <= rest, all parts of the rest bounded above
			if !t.boundedSym(o, ko > 0, b, d+1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// pinned: an equation fixes the length.
func (t *netTaint) pinned(l bLin, b *ssa.BasicBlock) bool {
	fs := t.p.blockFacts(b)
	for s := range l.t {
		if !s.len || t.bits[s.v]&tLen == 0 {
			continue
		}
		hit := false
		for i := 0; i+1 < len(fs.ge); i++ {
			a := fs.ge[i]
			if !sameTerms(a.times(-1), fs.ge[i+1]) || a.c != -fs.ge[i+1].c {
				continue
			}
			ok, has := true, false
			for o := range a.t {
				if o == s {
					has = true
					continue
				}
				if o.q != 0 {
					ok = false
					break
				}
				if !o.len {
					for _, x := range t.p.defFacts(o) {
						if x.t[s] != 0 {
							has = true
						}
					}
					if has {
						if q, isQ := o.v.(*ssa.BinOp); isQ && (q.Op == token.QUO || q.Op == token.SHR) {
							continue
						}
						if q, isQ := o.v.(*ssa.BinOp); isQ && q.Op == token.REM {
							ok = false // a multiple of something
							break
						}
					}
				}
				if t.bits[o.v]&(tLow|tHigh) != 0 && !o.len || o.len && t.bits[o.v]&tLen != 0 {
					ok = false
				}
			}
			if ok && has {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

func (t *netTaint) run() {
	t.callbacks()
	for round := 0; round < 60; round++ {
		t.changed = false
		for _, f := range t.fl.fns {
			t.function(f)
		}
		if !t.changed {
			return
		}
	}
}

func (t *netTaint) function(f *ssa.Function) {
	for i, fv := range f.FreeVars {
		for _, mc := range makersOf(t.w, f) {
			if i < len(mc.Bindings) {
				t.add(fv, t.at(mc.Bindings[i], mc.Block())&^0)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.instr(f, b, in)
		}
	}
}

func (t *netTaint) instr(f *ssa.Function, b *ssa.BasicBlock, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			t.add(x, t.onEdge(e, b.Preds[i], b))
		}
	case *ssa.BinOp:
		a, c := t.bits[x.X], t.bits[x.Y]
		if a == 0 && c == 0 {
			return
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			t.add(x, tNet)
			return
		}
		a, c = t.at(x.X, b), t.at(x.Y, b)
		res := (a | c) & (tNet | tDeep)
		switch x.Op {
		case token.ADD:
			res |= (a | c) & (tLow | tHigh | tLen)
			if res&tDeep != 0 && !isNumber(x.Type()) {
				res |= tLen // what grows by something received
			}
		case token.SUB:
			res |= a & (tLow | tHigh)
			if a&tHigh != 0 && isIntType(x.Type()) {
				res |= tLow // less than nothing is left
			}
			if c&tLow != 0 {
				res |= tHigh
			}
			if c&tHigh != 0 {
				res |= tLow
			}
		case token.REM:
			if c&(tLow|tHigh) != 0 {
				res |= a&tLow | tHigh
			} else {
				res |= a & tLow
			}
		case token.AND:
			if k, ok := bInt(x.Y); ok && k >= 0 {
				break
			}
			res |= (a | c) & (tLow | tHigh)
		case token.QUO, token.SHR:
			if c&(tLow|tHigh|tNet) == 0 {
				if k, ok := bInt(x.Y); !ok || k > 0 {
					res |= a & (tLow | tHigh)
					break
				}
			}
			if isIntType(x.Type()) && x.Op == token.SHR {
				res |= a & (tLow | tHigh)
				break
			}
			res |= tLow | tHigh
		default:
			res |= (a | c) & (tLow | tHigh)
			if k, ok := bInt(x.Y); x.Op == token.MUL && !(ok && k >= 0) {
				if k, ok := bInt(x.X); !(ok && k >= 0) && res&(tLow|tHigh) != 0 {
					if !(t.p.nonneg(x.X) && t.p.nonneg(x.Y)) {
						res |= tLow | tHigh
					}
				}
			}
		}
		t.add(x, res)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			r := t.content(x.X)
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				if t.bits[a.X]&tDeep != 0 {
					r |= netType(x.Type())
				}
				r |= t.elems(a.X)
			case *ssa.FieldAddr:
				if isTCIType(a.X.Type()) || t.bits[a.X]&tDeep != 0 && !repoType(a.X.Type()) {
					r |= netType(x.Type())
				}
			}
			t.add(x, fits(r, x.Type()))
		case token.SUB:
			a := t.at(x.X, b)
			r := a & (tNet | tDeep)
			if a&tLow != 0 {
				r |= tHigh
			}
			if a&tHigh != 0 {
				r |= tLow
			}
			t.add(x, r)
		case token.ARROW:
			var r uint8
			for _, mk := range t.w.pts.ChansOf(x.X) {
				r |= t.locs[mk]
			}
			if x.CommaOk {
				t.add(x, r)
			} else {
				t.add(x, fits(r, x.Type()))
			}
		case token.NOT:
			t.add(x, t.bits[x.X]&tNet)
		}
	case *ssa.Field:
		fv := fieldVar(x.X.Type(), x.Field)
		r := t.locs[fv]
		if isTCIType(x.X.Type()) {
			r |= netType(x.Type())
		}
		t.add(x, fits(r, x.Type()))
	case *ssa.Index:
		r := t.elems(x.X)
		if t.bits[x.X]&tDeep != 0 {
			r |= netType(x.Type())
		}
		t.add(x, fits(r, x.Type()))
	case *ssa.Lookup:
		r := t.elems(x.X)
		if t.bits[x.X]&tDeep != 0 {
			if x.CommaOk {
				r |= tNet | tDeep
			} else {
				r |= netType(x.Type())
			}
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			t.add(x, r)
			return
		}
		if !x.CommaOk {
			r = fits(r, x.Type())
		}
		t.add(x, r|t.bits[x.Index]&tNet)
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			// set by the call
		case *ssa.Next:
			if t.bits[y]&tDeep != 0 {
				if x.Index == 1 && y.IsString {
					t.add(x, tHigh|tNet)
				} else if x.Index == 2 && y.IsString {
					t.add(x, tHigh|tNet)
				} else if x.Index > 0 {
					t.add(x, netType(x.Type()))
				}
			}
		case *ssa.Select:
			if x.Index >= 2 {
				n := 2
				for _, st := range y.States {
					if st.Dir == types.RecvOnly {
						if n == x.Index {
							var r uint8
							for _, mk := range t.w.pts.ChansOf(st.Chan) {
								r |= t.locs[mk]
							}
							t.add(x, fits(r, x.Type()))
						}
						n++
					}
				}
			}
		default:
			r := t.bits[y]
			if x.Index == 0 {
				r = fits(r, x.Type())
			} else {
				r &= tNet
			}
			t.add(x, r)
		}
	case *ssa.Range:
		t.add(x, t.bits[x.X]&(tDeep|tNet)|t.elems(x.X)&(tDeep|tNet))
	case *ssa.Next:
		t.add(x, t.bits[x.Iter])
	case *ssa.Convert:
		r := t.at(x.X, b)
		if r == 0 {
			return
		}
		if isNumber(x.X.Type()) && isNumber(x.Type()) {
			switch {
			case isIntType(x.Type()) && isIntType(x.X.Type()):
				if isUnsigned(x.Type()) && r&tLow != 0 {
					r = r&^tLow | tHigh
				} else if intSize(x.Type()) < intSize(x.X.Type()) && r&tHigh != 0 || isUnsigned(x.X.Type()) && !isUnsigned(x.Type()) && intSize(x.Type()) <= intSize(x.X.Type()) {
					r |= tLow | tHigh
				}
			case isIntType(x.Type()):
				if r&(tLow|tHigh) != 0 {
					r |= tLow | tHigh // what does not fit can become anything
				}
			}
			t.add(x, r)
			return
		}
		t.add(x, fits(r|tDeep, x.Type())|r&tDeep)
	case *ssa.ChangeType:
		t.add(x, t.at(x.X, b))
	case *ssa.MakeInterface:
		t.add(x, t.at(x.X, b)&(tDeep|tNet)|deepIf(t.bits[x.X]))
	case *ssa.ChangeInterface:
		t.add(x, t.bits[x.X])
	case *ssa.TypeAssert:
		if t.bits[x.X] != 0 {
			if x.CommaOk {
				t.add(x, tDeep|tNet)
			} else {
				t.add(x, netType(x.AssertedType))
			}
		}
	case *ssa.Slice:
		r := t.at(x.X, b) & (tDeep | tNet)
		if t.netLength(t.p.lenOf(x), b) {
			r |= tLen | tNet
		}
		t.add(x, r)
	case *ssa.MakeSlice:
		if t.netLength(t.p.form(x.Len), b) {
			t.add(x, tLen|tNet)
		}
	case *ssa.Store:
		t.put(x.Addr, t.at(x.Val, b))
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if r := t.at(x.Val, b); r != 0 {
				for _, l := range t.fl.elemLocs(ia.X, 0) {
					t.putLoc(l, r)
				}
			}
		}
	case *ssa.MapUpdate:
		if r := t.bits[x.Value]; r != 0 {
			for _, l := range t.fl.elemLocs(x.Map, 0) {
				t.putLoc(l, r)
			}
		}
	case *ssa.Send:
		if r := t.at(x.X, b); r != 0 {
			for _, mk := range t.w.pts.ChansOf(x.Chan) {
				t.putLoc(mk, r)
			}
		}
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				if r := t.at(st.Send, b); r != 0 {
					for _, mk := range t.w.pts.ChansOf(st.Chan) {
						t.putLoc(mk, r)
					}
				}
			}
		}
	case *ssa.Return:
		rs := t.res[f]
		if rs == nil {
			rs = make([]uint8, len(x.Results))
			t.res[f] = rs
		}
		for i, v := range x.Results {
			if r := rs[i] | t.at(v, b); r != rs[i] {
				rs[i] = r
				t.changed = true
			}
		}
	case ssa.CallInstruction:
		t.call(b, x)
	}
}

func deepIf(b uint8) uint8 {
	if b != 0 {
		return tDeep | tNet
	}
	return 0
}

// netLength: the network decides the length.
func (t *netTaint) netLength(l bLin, b *ssa.BasicBlock) bool {
	for s := range l.t {
		if (s.len || s.cap) && t.bits[s.v]&tLen != 0 && !t.pinned(bOf(s), b) || !s.len && !s.cap && t.bits[s.v]&tNet != 0 {
			return true
		}
	}
	return false
}

// onEdge: the bits of the value when this edge is taken.
func (t *netTaint) onEdge(v ssa.Value, from, to *ssa.BasicBlock) uint8 {
	x := t.at(v, from)
	if x&(tLow|tHigh|tLen) == 0 || len(from.Succs) < 2 {
		return x
	}
	if _, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); !ok {
		return x
	}
	f := &bFacts{}
	base := t.p.blockFacts(from)
	f.ge = append(f.ge, base.ge...)
	f.ne = append(f.ne, base.ne...)
	t.p.edgeFacts(f, from, to, 0)
	// a block that stands for the edge
	tmp := &ssa.BasicBlock{}
	t.p.facts[tmp] = f
	defer delete(t.p.facts, tmp)
	if isIntType(v.Type()) {
		l := t.p.form(v)
		if x&tHigh != 0 && t.bounded(l, 1, tmp, 0, 3) {
			x &^= tHigh
		}
		if x&tLow != 0 && (t.bounded(l, -1, tmp, 0, 3) || t.p.prove(l, f.ge, f.ne, from, 0)) {
			x &^= tLow
		}
	} else if x&tLen != 0 {
		l := t.p.lenOf(v)
		if !t.netLength(l, tmp) {
			x &^= tLen
		}
	} else if isNumber(v.Type()) {
		iff := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if c, ok := iff.Cond.(*ssa.BinOp); ok {
			holds := from.Succs[0] == to
			for _, flip := range []bool{false, true} {
				a, o := c.X, c.Y
				if flip {
					a, o = o, a
				}
				if t.p.canon(a) != t.p.canon(v) || t.bits[o] != 0 {
					continue
				}
				less := c.Op == token.LSS || c.Op == token.LEQ
				more := c.Op == token.GTR || c.Op == token.GEQ
				if flip != !holds {
					less, more = more, less
				}
				if less {
					x &^= tHigh
				}
				if more {
					x &^= tLow
				}
			}
		}
	}
	return x
}

func (t *netTaint) setResult(ci ssa.CallInstruction, j int, b uint8) {
	v, ok := ci.(ssa.Value)
	if !ok || b == 0 {
		return
	}
	if _, isTuple := v.Type().(*types.Tuple); isTuple {
		if r := resultOf(ci, j); r != nil {
			t.add(r, b)
		}
		return
	}
	if j == 0 {
		t.add(v, b)
	}
}

var readNames = map[string]bool{"ReadMessage": true, "Read": true, "ReadByte": true, "ReadRune": true, "ReadString": true, "ReadBytes": true, "ReadLine": true, "NextReader": true, "ReadAll": true, "ReadFull": true, "ReadAtLeast": true, "ReadJSON": true, "Text": true, "Bytes": true, "ReadSlice": true, "Peek": true}

// isSource: the call reads from the network.
func (t *netTaint) isSource(ci ssa.CallInstruction) bool {
	c := ci.Common()
	f := ci.Parent()
	if fnPkgIs(t.w, f, "cmd") || fnPkgIs(t.w, f, "pb") || fnPkgIs(t.w, f, "cw") || fnPkgIs(t.w, f, "scope") {
		return false
	}
	if c.IsInvoke() {
		return readNames[c.Method.Name()]
	}
	g := c.StaticCallee()
	if g == nil || t.w.inRepo(g) || !readNames[g.Name()] || g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "net", "bufio", "io", "github.com/gorilla/websocket", "crypto/tls":
		return true
	}
	return false
}

func (t *netTaint) call(b *ssa.BasicBlock, ci ssa.CallInstruction) {
	c := ci.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		v, _ := ci.(ssa.Value)
		switch bi.Name() {
		case "len", "cap":
			if t.at(c.Args[0], b)&tLen != 0 {
				t.add(v, tHigh|tNet)
			}
		case "min", "max":
			lo, hi := uint8(tLow), uint8(tHigh)
			var any uint8
			anyLo, anyHi := uint8(0), uint8(0)
			for _, a := range c.Args {
				x := t.at(a, b)
				any |= x & tNet
				anyLo |= x & tLow
				anyHi |= x & tHigh
				lo &= x
				hi &= x
			}
			if bi.Name() == "min" {
				t.add(v, any|anyLo|hi&tHigh)
			} else {
				t.add(v, any|lo&tLow|anyHi)
			}
		case "append":
			var r uint8
			for _, a := range c.Args {
				r |= t.at(a, b) & (tLen | tDeep | tNet)
			}
			t.add(v, r)
			for _, a := range c.Args[1:] {
				if e := t.elems(a); e != 0 {
					for _, l := range t.fl.elemLocs(v, 0) {
						t.putLoc(l, e)
					}
				}
			}
		case "copy":
			e := t.elems(c.Args[1])
			if t.bits[c.Args[1]]&tDeep != 0 {
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					e |= netType(sl.Elem())
				}
			}
			if e != 0 {
				for _, l := range t.fl.elemLocs(c.Args[0], 0) {
					t.putLoc(l, e)
				}
				t.add(c.Args[0], tDeep|tNet)
			}
		}
		return
	}
	sig := c.Signature()
	if t.isSource(ci) {
		for j := 0; j < sig.Results().Len(); j++ {
			r := netType(sig.Results().At(j).Type())
			if j == 0 && isNumber(sig.Results().At(j).Type()) && len(c.Args) > 0 {
				r = tHigh | tNet
			}
			t.setResult(ci, j, r)
		}
		for _, a := range c.Args {
			if sl, ok := a.Type().Underlying().(*types.Slice); ok {
				for _, l := range t.fl.elemLocs(a, 0) {
					t.putLoc(l, netType(sl.Elem()))
				}
				t.add(a, tDeep|tNet)
			}
		}
		return
	}
	// the TCI client
	tciCall := false
	if g := c.StaticCallee(); g != nil && g.Pkg != nil && isTCI(g.Pkg.Pkg) && g.Signature.Recv() != nil {
		tciCall = true
	}
	for _, g := range t.w.pts.Callees(ci) {
		if !t.w.inRepo(g) || len(g.Blocks) == 0 {
			continue
		}
		for i, pr := range g.Params {
			a := argOf(ci, g, i)
			if a == nil {
				continue
			}
			if i == 0 && c.IsInvoke() {
				continue
			}
			t.add(pr, fits(t.at(a, b), pr.Type()))
		}
		for j, r := range t.res[g] {
			t.setResult(ci, j, r)
		}
	}
	ext := true
	for _, g := range t.w.pts.Callees(ci) {
		if t.w.inRepo(g) {
			ext = false
		}
	}
	if !ext {
		return
	}
	var in uint8
	for _, a := range c.Args {
		in |= t.bits[a]
		in |= t.elems(a)
	}
	if in == 0 && !tciCall {
		return
	}
	g := c.StaticCallee()
	name := ""
	if g != nil {
		name = extName(g)
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "time.") && !tciCall {
		return
	}
	for j := 0; j < sig.Results().Len(); j++ {
		ty := sig.Results().At(j).Type()
		r := netType(ty)
		if isNumber(ty) && (strings.HasPrefix(name, "strings.Index") || strings.HasPrefix(name, "bytes.Index") || strings.HasPrefix(name, "strings.LastIndex") || strings.HasPrefix(name, "strings.Count")) {
			r = tHigh | tNet
			if strings.Contains(name, "Index") {
				r |= tLow // -1
			}
		}
		t.setResult(ci, j, r)
	}
}

// ---------- the obligations ----------

func checkC08(w *World, r *Result) {
	r.rule("what is read from a connection, given to the callbacks of the TCI library and kept in its client is followed through the program (numbers, lengths and contents apart; branches, min, max and remainders that bound it are taken into account)")
	r.rule("an index, a slice bound, a size, a divisor that the network decides, and an index into something whose length the network decides, must be proved to be in range: by linear facts from dominating branches (also in helpers), from the operations themselves and from loops, or at all callers")
	r.rule("no panic and no exit of the process depends on what came from the network")
	r.rule("a map that is written while handling messages was made")
	r.assume("an index that the network decides is in range of a table of the program if a value that the network does not decide bounds it")
	p := newBounds(w)
	t := &netTaint{w: w, p: p, fl: newFlow(w), bits: map[ssa.Value]uint8{}, locs: map[any]uint8{}, res: map[*ssa.Function][]uint8{}, src: map[ssa.Value]bool{}, entry: map[*ssa.Function]bool{}}
	t.run()
	if os.Getenv("SDCHECK_NET") != "" {
		t.dump()
	}
	var fs findings
	n, proved := 0, 0
	touched := map[*ssa.Function]bool{}
	for _, f := range t.fl.fns {
		if fnPkgIs(w, f, "pb") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				obs := t.obligations(b, in)
				if len(obs) > 0 {
					touched[f] = true
				}
				for _, o := range obs {
					n++
					if o.e == nil && o.ok || o.e != nil && p.ensured(*o.e, in, 0) {
						proved++
						r.sample("%s: %s", w.ipos(in), o.what)
						continue
					}
					fs.add(o.rule, fnKey(f)+" "+o.what, w.ipos(in), fmt.Sprintf("%s: %s, which is not ensured for what the network sends", fnKey(f), o.what))
				}
			}
		}
	}
	t.fatals(r, &fs)
	r.count("accesses the network has influence on", n)
	r.count("accesses proved", proved)
	r.count("functions with such accesses", len(touched))
	tainted := 0
	for _, b := range t.bits {
		if b != 0 {
			tainted++
		}
	}
	r.count("values that depend on the network", tainted)
	r.need(len(t.entry) > 0, "callbacks of the TCI library")
	r.addAll(fs.list)
}

type obligation struct {
	rule string
	what string
	e    *bLin
	ok   bool
}

func (t *netTaint) obligations(b *ssa.BasicBlock, in ssa.Instruction) []obligation {
	var res []obligation
	need := func(rule, what string, e bLin) {
		res = append(res, obligation{rule: rule, what: what, e: &e})
	}
	index := func(coll, idx ssa.Value) {
		_, isArr := arrayLen(coll.Type())
		if _, isMap := coll.Type().Underlying().(*types.Map); isMap {
			return
		}
		cl := uint8(0)
		if !isArr {
			cl = t.at(coll, b) & tLen
		}
		ix := t.at(idx, b)
		i := t.p.form(idx)
		if ix&tLow != 0 {
			need("out-of-range", "index at least 0", i)
		}
		if ix&tHigh != 0 || cl != 0 || t.bits[idx]&tHigh != 0 && t.p.lenOf(coll).isConst() {
			e := t.p.lenOf(coll).plus(bConst(1), -1).plus(i, -1)
			need("out-of-range", "index below the length", e)
		}
	}
	if os.Getenv("SDCHECK_NET") == t.w.ipos(in) {
		fmt.Fprintln(os.Stderr, "AT", in)
		t.debugBlock(b)
		for _, op := range in.Operands(nil) {
			if *op != nil {
				fmt.Fprintf(os.Stderr, "   op %s bits %05b at %05b form %s len %s\n", (*op).Name(), t.bits[*op], t.at(*op, b), fmtLin(t.p.form(*op)), fmtLin(t.p.lenOf(*op)))
			}
		}
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		index(x.X, x.Index)
	case *ssa.Index:
		index(x.X, x.Index)
	case *ssa.Lookup:
		if strOrBytes(x.X.Type()) {
			index(x.X, x.Index)
		}
	case *ssa.Slice:
		var lo, hi bLin
		lob, hib := uint8(0), uint8(0)
		n := t.p.lenOf(x.X)
		if x.Low != nil {
			lo = t.p.form(x.Low)
			lob = t.at(x.Low, b)
		}
		hi = n
		if x.High != nil {
			hi = t.p.form(x.High)
			hib = t.at(x.High, b)
		}
		cl := t.at(x.X, b) & tLen
		if _, isArr := arrayLen(x.X.Type()); isArr {
			cl = 0
		}
		if x.Low == nil && x.High == nil {
			break
		}
		if lob&tLow != 0 {
			need("out-of-range", "start of the part at least 0", lo)
		}
		if x.High != nil && (hib&tHigh != 0 || cl != 0 || t.bits[x.High]&tHigh != 0 && n.isConst()) {
			bound := n
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok && x.High != nil {
				if _, isLen := hasLen(hi); !isLen || true {
					bound = n
				}
			}
			if hi.isConst() && hi.c == 0 {
				break
			}
			need("out-of-range", "end of the part within the length", bound.plus(hi, -1))
		}
		if x.Low != nil && (lob&tHigh != 0 || hib&tLow != 0 || cl != 0 && x.High == nil || x.High != nil && t.bits[x.High]&tLow != 0 && lo.isConst() && lo.c > 0) {
			need("out-of-range", "start of the part before its end", hi.plus(lo, -1))
		}
		if x.Low == nil && hib&tLow != 0 {
			need("out-of-range", "end of the part at least 0", hi)
		}
	case *ssa.SliceToArrayPointer:
		if t.at(x.X, b)&tLen != 0 {
			if n, ok := arrayLen(x.Type()); ok {
				need("out-of-range", "array conversion within the length", t.p.lenOf(x.X).plus(bConst(n), -1))
			}
		}
	case *ssa.MakeSlice:
		for _, v := range []ssa.Value{x.Len, x.Cap} {
			a := t.at(v, b)
			if a&tLow != 0 {
				need("size", "size at least 0", t.p.form(v))
			}
			if a&tHigh != 0 && !t.fromLengths(t.p.form(v), 0) {
				res = append(res, obligation{rule: "size", what: "size bounded"})
			}
			if x.Len == x.Cap {
				break
			}
		}
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			y := t.p.form(x.Y)
			if y.isConst() && y.c != 0 {
				break
			}
			if t.bits[x.Y]&tNet == 0 {
				break
			}
			ok := t.nonzero(x.Y, x, 0)
			res = append(res, obligation{rule: "division", what: "divisor is not 0", ok: ok})
		}
	case ssa.CallInstruction:
		c := x.Common()
		name := ""
		args := c.Args
		if c.IsInvoke() {
			name = c.Method.Name()
		} else if g := c.StaticCallee(); g != nil && !t.w.inRepo(g) {
			name = g.Name()
			if g.Signature.Recv() != nil && len(args) > 0 {
				args = args[1:]
			}
			if g.Pkg != nil && (g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "bytes") && g.Name() == "Repeat" && t.at(args[1], b)&(tLow|tHigh) != 0 {
				if t.at(args[1], b)&tLow != 0 {
					need("size", "count at least 0", t.p.form(args[1]))
				}
				if t.at(args[1], b)&tHigh != 0 && !t.fromLengths(t.p.form(args[1]), 0) {
					res = append(res, obligation{rule: "size", what: "count bounded"})
				}
			}
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && (g.Name() == "NewTicker" || g.Name() == "Tick") && t.at(args[0], b)&tNet != 0 {
				need("size", "positive interval", t.p.form(args[0]).plus(bConst(1), -1))
			}
		} else {
			break
		}
		if k := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[name]; k > 0 && len(args) > 0 && strOrBytes(args[0].Type()) {
			if s, ok := args[0].(*ssa.Slice); ok {
				if l := t.p.lenOf(s); l.isConst() && l.c >= k {
					break
				}
			}
			if t.at(args[0], b)&tLen != 0 {
				need("out-of-range", fmt.Sprintf("at least %d bytes", k), t.p.lenOf(args[0]).plus(bConst(k), -1))
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk && t.bits[x.X]&tDeep != 0 {
			res = append(res, obligation{rule: "assertion", what: "type assertion of received data checked"})
		}
	case *ssa.MapUpdate:
		if t.bits[x.Key] == 0 && t.bits[x.Value] == 0 {
			break
		}
		ok := len(t.w.pts.Objs(x.Map)) > 0
		res = append(res, obligation{rule: "nil-map", what: "map was made", ok: ok})
	}
	return res
}

func hasLen(l bLin) (bSym, bool) {
	for s := range l.t {
		if s.len {
			return s, true
		}
	}
	return bSym{}, false
}

// nonzero: the divisor is not zero, here or at all callers.
func (t *netTaint) nonzero(v ssa.Value, at ssa.Instruction, d int) bool {
	l := t.p.form(v)
	one := l.plus(bConst(1), -1)
	if t.p.ensured(one, at, 0) || t.p.ensured(l.times(-1).plus(bConst(1), -1), at, 0) {
		return true
	}
	for _, n := range t.p.blockFacts(at.Block()).ne {
		if sameTerms(n, l) && n.c == l.c || sameTerms(n.times(-1), l) && n.c == -l.c {
			return true
		}
	}
	if d > 3 {
		return false
	}
	// a field: what is stored there
	c := t.p.canon(v)
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			fv := fieldVar(fa.X.Type(), fa.Field)
			n := 0
			for _, f := range t.fl.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						if a, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(a.X.Type(), a.Field) == fv {
							n++
							if t.bits[st.Val]&tNet == 0 {
								continue
							}
							if !t.nonzero(st.Val, st, d+1) {
								return false
							}
						}
					}
				}
			}
			return n > 0
		}
	}
	if pr, ok := c.(*ssa.Parameter); ok {
		f := pr.Parent()
		n := 0
		for _, ci := range t.w.callSitesOf(f) {
			a := argOf(ci, f, paramPos(f, pr))
			if a == nil {
				return false
			}
			n++
			if t.bits[a]&tNet == 0 {
				continue
			}
			if !t.nonzero(a, ci, d+1) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// fromLengths: not more than what was received.
func (t *netTaint) fromLengths(l bLin, d int) bool {
	for s, k := range l.t {
		if s.len || s.cap {
			continue
		}
		if k > 0 && t.bits[s.v]&tHigh == 0 || k < 0 && t.bits[s.v]&tLow == 0 {
			continue
		}
		ok := false
		if d < 3 {
			for _, f := range t.p.defFacts(s) {
				if f.t[s] < 0 == (k > 0) && f.t[s] != 0 {
					rest := f.subst(s, bConst(0))
					if k < 0 {
						rest = rest.times(-1)
					}
					if t.fromLengths(rest, d+1) {
						ok = true
					}
				}
			}
			if pr, isP := s.v.(*ssa.Parameter); isP && !ok {
				f := pr.Parent()
				sites := t.w.callSitesOf(f)
				ok = len(sites) > 0
				for _, ci := range sites {
					a := argOf(ci, f, paramPos(f, pr))
					if a == nil || !t.fromLengths(t.p.form(a), d+1) {
						ok = false
					}
				}
			}
			if ph, isPhi := s.v.(*ssa.Phi); isPhi && !ok {
				ok = true
				for _, e := range ph.Edges {
					if e != s.v && !t.fromLengths(t.p.form(e), d+2) {
						ok = false
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// fatals: panics and exits that depend on the network.
func (t *netTaint) fatals(r *Result, fs *findings) {
	type site struct {
		in   ssa.Instruction
		what string
		root string
	}
	var work []site
	n := 0
	for _, f := range t.fl.fns {
		if fnPkgIs(t.w, f, "pb") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Panic:
					if !x.Pos().IsValid() {
						continue
					}
					work = append(work, site{in, "panics", fnKey(f) + " panic"})
				case *ssa.Call:
					gs := t.w.pts.Callees(x)
					if g := x.Call.StaticCallee(); g != nil {
						gs = append(gs, g)
					}
					if what, ok := neverReturns(gs); ok {
						work = append(work, site{in, "ends the process (" + what + ")", fnKey(f) + " " + what})
					}
				}
			}
		}
	}
	r.count("panics and exits", len(work))
	seen := map[string]bool{}
	pds := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		k := fmt.Sprintf("%p%s", s.in, s.root)
		if seen[k] || n > 4000 {
			continue
		}
		seen[k] = true
		n++
		f := s.in.Parent()
		if pds[f] == nil {
			pds[f] = postDominatorsReturn(f)
		}
		b := s.in.Block()
		conds := 0
		hit := false
		for _, a := range f.Blocks {
			iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If)
			if !ok || !directControl(pds[f], a, b) {
				continue
			}
			if loopCond(a, b) {
				continue
			}
			conds++
			if os.Getenv("SDCHECK_NET") != "" {
				fmt.Fprintln(os.Stderr, "FATAL", t.w.ipos(s.in), "cond", t.w.ipos(iff), iff.Cond, t.netCond(iff.Cond, 0))
			}
			if !t.netCond(iff.Cond, 0) {
				continue
			}
			p := t.p
			bf := p.blockFacts(b)
			all := append(append([]bLin{}, bf.ge...), p.define(append(append([]bLin{}, bf.ge...), bf.ne...))...)
			if infeasible(all, bf.ne, 0) {
				continue
			}
			hit = true
			fs.add("ends", s.root, t.w.ipos(s.in), fmt.Sprintf("%s %s depending on what the network sends (%s)", fnKey(f), s.what, t.w.ipos(iff)))
			break
		}
		if hit || conds > 0 {
			continue
		}
		if t.entry[f] || t.handles(f, b) {
			fs.add("ends", s.root, t.w.ipos(s.in), fmt.Sprintf("%s %s while handling what the network sends", fnKey(f), s.what))
			continue
		}
		for _, ci := range t.w.callSitesOf(f) {
			if _, ok := ci.(*ssa.Call); ok && t.w.inRepo(ci.Parent()) {
				work = append(work, site{ci, s.what, s.root})
			}
		}
	}
}

// handles: a read from the network comes before in the function.
func (t *netTaint) handles(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range f.Blocks {
		if !x.Dominates(b) {
			continue
		}
		for _, in := range x.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && t.isSource(ci) {
				return true
			}
		}
	}
	return false
}

// loopCond: the condition only keeps a loop going in which the block is.
func loopCond(a, b *ssa.BasicBlock) bool {
	for _, l := range loopsOf(a.Parent()) {
		if l.header == a && l.blocks[b] {
			return true
		}
	}
	return false
}

// postDominatorsReturn: post-dominance where a panic is a way out as well.
func postDominatorsReturn(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	return postDominators(f)
}

func directControl(pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, a, b *ssa.BasicBlock) bool {
	if len(a.Succs) < 2 {
		return false
	}
	any, all := false, true
	for _, s := range a.Succs {
		if pd[s][b] {
			any = true
		} else {
			all = false
		}
	}
	return any && !all
}

// netCond: the condition depends on the network.
func (t *netTaint) netCond(c ssa.Value, d int) bool {
	if d > 5 || c == nil {
		return false
	}
	if t.bits[c] != 0 {
		return true
	}
	switch x := c.(type) {
	case *ssa.BinOp:
		return t.netCond(x.X, d+1) || t.netCond(x.Y, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if st := lastStore(x); st != nil {
				return t.netCond(st, d+1)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, s := range t.w.cellStores(al) {
					if t.netCond(s, d+2) {
						return true
					}
				}
			}
			return false
		}
		return t.netCond(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if t.netCond(e, d+2) {
				return true
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return t.netCall(call)
		}
		return t.netCond(x.Tuple, d+1)
	case *ssa.Call:
		return t.netCall(x)
	case *ssa.TypeAssert:
		return t.netCond(x.X, d+1)
	}
	return false
}

func (t *netTaint) netCall(c *ssa.Call) bool {
	if t.isSource(c) {
		return true
	}
	for _, a := range c.Call.Args {
		if t.bits[a] != 0 {
			return true
		}
	}
	return false
}

func (t *netTaint) dump() {
	var lines []string
	for _, f := range t.fl.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range t.obligations(b, in) {
					lines = append(lines, fmt.Sprintf("%s %s %s", t.w.ipos(in), in, o.what))
				}
			}
		}
		for i, pr := range f.Params {
			if x := t.bits[pr]; x != 0 {
				lines = append(lines, fmt.Sprintf("param %s %d %s %05b", fnKey(f), i, pr.Name(), x))
			}
		}
	}
	for l, x := range t.locs {
		if fv, ok := l.(*types.Var); ok {
			lines = append(lines, fmt.Sprintf("field %s %05b", fieldKey(fv), x))
		}
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Fprintln(os.Stderr, l)
	}
}

func (t *netTaint) debugBlock(b *ssa.BasicBlock) {
	fs := t.p.blockFacts(b)
	for _, f := range fs.ge {
		fmt.Fprintln(os.Stderr, "  fact", f.c, fmtLin(f), ">= 0")
	}
}

func fmtLin(l bLin) string {
	s := ""
	for k, c := range l.t {
		n := "?"
		if k.v != nil {
			n = k.v.Name()
		}
		if k.fv != nil {
			n = k.fv.Name()
		}
		if k.len {
			n = "len(" + n + ")"
		}
		s += fmt.Sprintf(" %+d*%s", c, n)
	}
	return s
}
