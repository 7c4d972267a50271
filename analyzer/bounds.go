package main

// A prover for index and length conditions: linear forms over SSA values and lengths, facts from dominating branches
// (also through helpers that return a verdict), definitional facts of the operations, induction facts of loops, a case
// split over merges, and callers where the condition depends on parameters.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bSym struct {
	v   ssa.Value
	fv  *types.Var // content of the field of v
	len bool
	cap bool
	q   int64               // quotient of v by q, or, if -1, how often the loop of v (first of its header) has run
	w   *ssa.Phi            // with q -2: v times how often the loop of w has run
	at  ssa.CallInstruction // the value in the function called here
}

// plain: the value itself.
func (s bSym) plain() bool { return s.q == 0 && s.at == nil }

type bLin struct {
	c int64
	t map[bSym]int64
}

func bConst(c int64) bLin { return bLin{c: c} }

func bOf(s bSym) bLin { return bLin{t: map[bSym]int64{s: 1}} }

func (a bLin) plus(b bLin, k int64) bLin {
	r := bLin{c: a.c + k*b.c, t: map[bSym]int64{}}
	for s, x := range a.t {
		r.t[s] = x
	}
	for s, x := range b.t {
		if y := r.t[s] + k*x; y != 0 {
			r.t[s] = y
		} else {
			delete(r.t, s)
		}
	}
	return r
}

func (a bLin) times(k int64) bLin { return bLin{}.plus(a, k) }

func (a bLin) subst(s bSym, by bLin) bLin {
	k, ok := a.t[s]
	if !ok {
		return a
	}
	return a.plus(bOf(s), -k).plus(by, k)
}

func (a bLin) isConst() bool { return len(a.t) == 0 }

type bFacts struct {
	ge []bLin // >= 0
	ne []bLin // != 0
}

func (f *bFacts) eq(l bLin) { f.ge = append(f.ge, l, l.times(-1)) }

type boundsProver struct {
	w      *World
	facts  map[*ssa.BasicBlock]*bFacts
	forms  map[ssa.Value]bLin
	lens   map[ssa.Value]bLin
	busy   map[ssa.Value]bool
	loads  map[ssa.Value]ssa.Value
	stored map[*ssa.Function]map[any]int
	depth  int
	steps  int
	fns    map[*ssa.Function]bool
}

func newBounds(w *World) *boundsProver {
	return &boundsProver{w: w, facts: map[*ssa.BasicBlock]*bFacts{}, forms: map[ssa.Value]bLin{}, lens: map[ssa.Value]bLin{}, busy: map[ssa.Value]bool{}, loads: map[ssa.Value]ssa.Value{}, stored: map[*ssa.Function]map[any]int{}, fns: map[*ssa.Function]bool{}}
}

func bInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	k := constant.ToInt(c.Value)
	if k.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// unsignedMax: the largest value of a narrow unsigned type.
func unsignedMax(t types.Type) (int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 255, true
	case types.Uint16:
		return 65535, true
	case types.Uint32:
		return 1<<32 - 1, true
	}
	return 0, false
}

// canon: one representative for loads of the same place.
func (p *boundsProver) canon(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	if c, ok := p.loads[v]; ok {
		return c
	}
	p.loads[v] = v
	res := p.canon1(u)
	p.loads[v] = res
	return res
}

func (p *boundsProver) canon1(u *ssa.UnOp) ssa.Value {
	if st := lastStore(u); st != nil {
		return p.canon(st)
	}
	switch a := u.X.(type) {
	case *ssa.Alloc:
		if sts := p.w.cellStores(a); len(sts) == 1 {
			return p.canon(sts[0])
		}
	case *ssa.FreeVar:
		for _, mc := range makersOf(p.w, a.Parent()) {
			for i, fv := range a.Parent().FreeVars {
				if fv == a && i < len(mc.Bindings) {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						if sts := p.w.cellStores(al); len(sts) == 1 {
							if _, ok := sts[0].(*ssa.Const); ok {
								return sts[0]
							}
						}
					}
				}
			}
		}
	}
	// an earlier load of the same place with no store in between
	key := placeKey(u.X)
	if key == nil {
		return u
	}
	f := u.Parent()
	if p.storesTo(f)[key] == 0 {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.UnOp); ok && x.Op == token.MUL && placeKey(x.X) == key && x.Type() == u.Type() && sameBase(x.X, u.X) {
					return x
				}
			}
		}
		return u
	}
	// the closest load or store before it
	blk, at := u.Block(), len(u.Block().Instrs)
	for i, in := range blk.Instrs {
		if in == ssa.Instruction(u) {
			at = i
		}
	}
	for n := 0; n < 50; n++ {
		for i := at - 1; i >= 0; i-- {
			switch x := blk.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && placeKey(x.X) == key && sameBase(x.X, u.X) {
					return p.canon(x)
				}
			case *ssa.Store:
				if placeKey(x.Addr) == key {
					if c := p.canon(x.Val); sameBase(x.Addr, u.X) {
						if _, ok := c.(*ssa.Const); !ok {
							return c
						}
					}
					return u
				}
			}
		}
		if len(blk.Preds) != 1 {
			break
		}
		blk = blk.Preds[0]
		at = len(blk.Instrs)
	}
	return u
}

func sameBase(a, b ssa.Value) bool {
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok != ok2 {
		return false
	}
	if !ok {
		return a == b
	}
	if x.X == y.X {
		return true
	}
	u, ok := x.X.(*ssa.UnOp)
	v, ok2 := y.X.(*ssa.UnOp)
	if ok && ok2 {
		return u.X == v.X || sameBase(u.X, v.X)
	}
	return sameBase(x.X, y.X) && x.X != nil && isFA(x.X)
}

func isFA(v ssa.Value) bool { _, ok := v.(*ssa.FieldAddr); return ok }

func placeKey(a ssa.Value) any {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldVar(x.X.Type(), x.Field)
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		return x
	case *ssa.Global:
		return x
	}
	return nil
}

func (p *boundsProver) storesTo(f *ssa.Function) map[any]int {
	if m, ok := p.stored[f]; ok {
		return m
	}
	m := map[any]int{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k := placeKey(st.Addr); k != nil {
					m[k]++
				}
			}
		}
	}
	p.stored[f] = m
	return m
}

func (p *boundsProver) sym(v ssa.Value) bLin {
	v = p.canon(v)
	if k, ok := bInt(v); ok {
		return bConst(k)
	}
	return bOf(bSym{v: v})
}

// form: the linear form of an integer.
func (p *boundsProver) form(v ssa.Value) bLin {
	if l, ok := p.forms[v]; ok {
		return l
	}
	if p.busy[v] {
		return bOf(bSym{v: v})
	}
	p.busy[v] = true
	l := p.form1(v)
	delete(p.busy, v)
	p.forms[v] = l
	return l
}

func (p *boundsProver) form1(v ssa.Value) bLin {
	if k, ok := bInt(v); ok {
		return bConst(k)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isIntType(x.Type()) {
			break
		}
		switch x.Op {
		case token.ADD:
			return p.form(x.X).plus(p.form(x.Y), 1)
		case token.SUB:
			return p.form(x.X).plus(p.form(x.Y), -1)
		case token.MUL:
			a, b := p.form(x.X), p.form(x.Y)
			if b.isConst() {
				return a.times(b.c)
			}
			if a.isConst() {
				return b.times(a.c)
			}
			if l, ok := p.distribute(x, a, b); ok {
				return l
			}
		case token.SHL:
			if b := p.form(x.Y); b.isConst() && b.c >= 0 && b.c < 31 {
				return p.form(x.X).times(1 << b.c)
			}
		}
	case *ssa.Convert:
		if isIntType(x.X.Type()) && isIntType(x.Type()) {
			s, d := intSize(x.X.Type()), intSize(x.Type())
			if isUnsigned(x.X.Type()) == isUnsigned(x.Type()) && d >= s || isUnsigned(x.X.Type()) && d > s || d >= 8 && s >= 8 && p.nonneg(x.X) {
				return p.form(x.X)
			}
		}
	case *ssa.ChangeType:
		return p.form(x.X)
	case *ssa.Parameter:
		if k, ok := p.constParam(x); ok {
			return bConst(k)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return p.form(x.X).times(-1)
		}
		if c := p.canon(x); c != v {
			return p.form(c)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				return p.lenOf(x.Call.Args[0])
			case "cap":
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok {
					return bOf(bSym{v: p.canon(x.Call.Args[0]), cap: true})
				}
			}
			break
		}
		if r, ok := p.inlineResult(x, 0); ok {
			return p.translate(r.form, r.g, x)
		}
	}
	return p.sym(v)
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

type inlined struct {
	form bLin
	g    *ssa.Function
}

// single: the only function the call can be.
func (p *boundsProver) single(c ssa.CallInstruction) *ssa.Function {
	if _, ok := c.Common().Value.(*ssa.Builtin); ok {
		return nil
	}
	g := c.Common().StaticCallee()
	if g == nil {
		gs := p.w.pts.Callees(c)
		if len(gs) != 1 {
			return nil
		}
		g = gs[0]
	}
	if !p.w.inRepo(g) || len(g.Blocks) == 0 {
		return nil
	}
	return g
}

// inlineResult: the result of a function with one way to return, in terms of its parameters.
func (p *boundsProver) inlineResult(c *ssa.Call, j int) (inlined, bool) {
	g := p.single(c)
	if g == nil || p.depth > 2 {
		return inlined{}, false
	}
	var ret *ssa.Return
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ret != nil {
				return inlined{}, false
			}
			ret = r
		}
	}
	if ret == nil || j >= len(ret.Results) {
		return inlined{}, false
	}
	p.depth++
	defer func() { p.depth-- }()
	l := p.form(retVal(ret.Results[j]))
	if !p.translatable(l, g) {
		return inlined{}, false
	}
	return inlined{l, g}, true
}

func retVal(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if st := lastStore(u); st != nil {
			return st
		}
	}
	return v
}

// translatable: only parameters of g.
func (p *boundsProver) translatable(l bLin, g *ssa.Function) bool {
	for s := range l.t {
		if s.fv != nil || !s.plain() {
			return false
		}
		switch x := s.v.(type) {
		case *ssa.Parameter:
			if x.Parent() != g {
				return false
			}
		case *ssa.FreeVar:
			if x.Parent() != g {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// translate: a form over the parameters of g at a call.
func (p *boundsProver) translate(l bLin, g *ssa.Function, c ssa.CallInstruction) bLin {
	r := bConst(l.c)
	for s, k := range l.t {
		by := bOf(s)
		if pr, ok := s.v.(*ssa.Parameter); ok && s.plain() {
			if a := argOf(c, g, paramPos(g, pr)); a != nil {
				switch {
				case s.len:
					by = p.lenOf(a)
				case s.cap:
					by = bOf(bSym{v: p.canon(a), cap: true})
				default:
					by = p.form(a)
				}
			}
		}
		r = r.plus(by, k)
	}
	return r
}

func argOf(c ssa.CallInstruction, g *ssa.Function, i int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < 0 || i >= len(cc.Args) {
		return nil
	}
	return cc.Args[i]
}

// lenOf: the linear form of a length.
func (p *boundsProver) lenOf(v ssa.Value) bLin {
	if l, ok := p.lens[v]; ok {
		return l
	}
	if p.busy[v] {
		return bOf(bSym{v: v, len: true})
	}
	p.busy[v] = true
	l := p.lenOf1(v)
	delete(p.busy, v)
	p.lens[v] = l
	return l
}

func arrayLen(t types.Type) (int64, bool) {
	if ptr, ok := t.Underlying().(*types.Pointer); ok {
		t = ptr.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func (p *boundsProver) lenOf1(v ssa.Value) bLin {
	if n, ok := arrayLen(v.Type()); ok {
		return bConst(n)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return bConst(int64(len(constant.StringVal(x.Value))))
		}
		if x.Value == nil {
			return bConst(0)
		}
	case *ssa.Slice:
		var hi bLin
		if x.High != nil {
			hi = p.form(x.High)
		} else {
			hi = p.lenOf(x.X)
		}
		if x.Low != nil {
			return hi.plus(p.form(x.Low), -1)
		}
		return hi
	case *ssa.MakeSlice:
		return p.form(x.Len)
	case *ssa.ChangeType:
		return p.lenOf(x.X)
	case *ssa.Convert:
		if strOrBytes(x.X.Type()) && strOrBytes(x.Type()) {
			return p.lenOf(x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return p.lenOf(x.X).plus(p.lenOf(x.Y), 1)
		}
	case *ssa.UnOp:
		if c := p.canon(x); c != v {
			return p.lenOf(c)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && len(x.Call.Args) == 2 {
				return p.lenOf(x.Call.Args[0]).plus(p.lenOf(x.Call.Args[1]), 1)
			}
			break
		}
		if g := x.Call.StaticCallee(); g != nil && !p.w.inRepo(g) {
			switch extName(g) {
			case "fft.FFT", "fft.IFFT", "slices.Clone", "bytes.Clone", "strings.Clone", "slices.Grow":
				return p.lenOf(x.Call.Args[0])
			}
		}
		if g := p.single(x); g != nil && p.depth <= 2 {
			if r, ok := p.inlineLen(x, g); ok {
				return p.translate(r, g, x)
			}
		}
	}
	c := p.canon(v)
	if c != v {
		return p.lenOf(c)
	}
	return bOf(bSym{v: v, len: true})
}

func (p *boundsProver) inlineLen(c *ssa.Call, g *ssa.Function) (bLin, bool) {
	if g.Signature.Results().Len() != 1 {
		return bLin{}, false
	}
	var ret *ssa.Return
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ret != nil {
				return bLin{}, false
			}
			ret = r
		}
	}
	if ret == nil {
		return bLin{}, false
	}
	p.depth++
	defer func() { p.depth-- }()
	l := p.lenOf(retVal(ret.Results[0]))
	return l, p.translatable(l, g)
}

func extName(g *ssa.Function) string {
	if g.Pkg == nil {
		if g.Origin() != nil && g.Origin().Pkg != nil {
			return g.Origin().Pkg.Pkg.Name() + "." + g.Origin().Name()
		}
		return g.Name()
	}
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

func strOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (p *boundsProver) nonneg(v ssa.Value) bool {
	if isUnsigned(v.Type()) {
		return true
	}
	l := p.form(v)
	if l.c < 0 {
		return false
	}
	for s, k := range l.t {
		if k < 0 || !s.plain() && s.q != -1 || s.plain() && !s.len && !s.cap && !p.nonnegSym(s.v, 0) {
			return false
		}
	}
	return true
}

func (p *boundsProver) nonnegSym(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	if isUnsigned(v.Type()) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		k, ok := bInt(x)
		return ok && k >= 0
	case *ssa.Convert:
		return isIntType(x.X.Type()) && isUnsigned(x.X.Type()) && intSize(x.X.Type()) < intSize(x.Type())
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHR:
			return p.nonneg(x.X)
		case token.AND:
			return p.nonneg(x.X) || p.nonneg(x.Y)
		}
	case *ssa.Phi:
		// an index that starts at zero or more and grows
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			l := p.form(e)
			if l.t[bSym{v: v}] == 1 && len(l.t) == 1 && l.c >= 0 {
				continue
			}
			if l.isConst() && l.c >= 0 {
				continue
			}
			return false
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
			return true
		}
	}
	return false
}

// distribute: (i + c) * k as i*k + c*k, where i*k is computed as well.
func (p *boundsProver) distribute(x *ssa.BinOp, a, b bLin) (bLin, bool) {
	for _, ab := range [][2]bLin{{a, b}, {b, a}} {
		if len(ab[0].t) != 1 || len(ab[1].t) != 1 || ab[1].c != 0 {
			continue
		}
		// of all the products of these factors, those with the smallest offset are the reference
		bare := ab[0].plus(bConst(ab[0].c), -1)
		var ref *ssa.BinOp
		least := ab[0].c
		for _, blk := range x.Parent().Blocks {
			for _, in := range blk.Instrs {
				y, ok := in.(*ssa.BinOp)
				if !ok || y == x || y.Op != token.MUL || !isIntType(y.Type()) {
					continue
				}
				c, d := p.form(y.X), p.form(y.Y)
				for _, cd := range [][2]bLin{{c, d}, {d, c}} {
					if cd[1].c == 0 && sameTerms(cd[1], ab[1]) && sameTerms(cd[0], bare) && abs64(cd[0].c) < abs64(least) {
						ref, least = y, cd[0].c
					}
				}
			}
		}
		if ref != nil {
			return p.sym(ref).plus(ab[1], ab[0].c-least), true
		}
	}
	return bLin{}, false
}

func abs64(k int64) int64 {
	if k < 0 {
		return -k
	}
	return k
}

// everyRound: what the branches into the head of a loop say about its variables.
func (p *boundsProver) everyRound(f *bFacts, h *ssa.BasicBlock) {
	var back, entry []*ssa.BasicBlock
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			back = append(back, pr)
		} else {
			entry = append(entry, pr)
		}
	}
	if len(back) != 1 || len(entry) != 1 {
		return
	}
	bf, ef := &bFacts{}, &bFacts{}
	p.edgeFacts(f, entry[0], h, 0)
	p.edgeFacts(bf, back[0], h, 1)
	if len(bf.ge) == 0 {
		return
	}
	p.edgeFacts(ef, entry[0], h, 1)
	ef.ge = append(ef.ge, p.blockFacts(entry[0]).ge...)
	ef.ne = append(ef.ne, p.blockFacts(entry[0]).ne...)
	bi, ei := 0, 0
	for i, pr := range h.Preds {
		if pr == back[0] {
			bi = i
		} else {
			ei = i
		}
	}
	for _, in := range h.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := bSym{v: x}
		var nx, first bLin
		switch {
		case isIntType(x.Type()):
			nx, first = p.form(x.Edges[bi]), p.form(x.Edges[ei])
		case strOrBytes(x.Type()):
			s.len = true
			nx, first = p.lenOf(x.Edges[bi]), p.lenOf(x.Edges[ei])
		default:
			if _, isSlice := x.Type().Underlying().(*types.Slice); !isSlice {
				continue
			}
			s.len = true
			nx, first = p.lenOf(x.Edges[bi]), p.lenOf(x.Edges[ei])
		}
		diff := nx.plus(bOf(s), -1)
		if !diff.isConst() {
			continue
		}
		for _, l := range bf.ge {
			if l.t[s] == 0 {
				continue
			}
			stays := true
			for o := range l.t {
				if o != s && (o.v == nil || !o.plain() || definedIn(o.v, h)) {
					stays = false
				}
			}
			if !stays {
				continue
			}
			inv := l.subst(s, bOf(s).plus(bConst(diff.c), -1))
			start := inv.subst(s, first)
			if p.prove(start, ef.ge, ef.ne, entry[0], 2) {
				f.ge = append(f.ge, inv)
			}
		}
	}
}

// definedIn: the value is computed in the loop of the header (or behind it).
func definedIn(v ssa.Value, h *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && h.Dominates(in.Block())
}

// blockFacts: what the branches that lead to the block say.
func (p *boundsProver) blockFacts(b *ssa.BasicBlock) *bFacts {
	if f, ok := p.facts[b]; ok {
		return f
	}
	p.fns[b.Parent()] = true
	f := &bFacts{}
	p.facts[b] = f
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p.edgeFacts(f, d.Preds[0], d, 0)
		} else if len(d.Preds) == 2 {
			p.everyRound(f, d)
		}
	}
	return f
}

// edgeFacts: what taking this edge says.
func (p *boundsProver) edgeFacts(f *bFacts, from, to *ssa.BasicBlock, d int) {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	p.condFacts(f, iff.Cond, from.Succs[0] == to, from, d)
}

func (p *boundsProver) condFacts(f *bFacts, cond ssa.Value, holds bool, at *ssa.BasicBlock, d int) {
	if d > 4 {
		return
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			p.condFacts(f, x.X, !holds, at, d)
			return
		}
		if c := p.canon(x); c != cond {
			p.condFacts(f, c, holds, at, d+1)
		}
	case *ssa.Phi:
		// a && b, a || b
		hit := -1
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) != holds {
					continue
				}
			}
			if hit >= 0 {
				return
			}
			hit = i
		}
		if hit >= 0 {
			pr := x.Block().Preds[hit]
			for e := pr; e != nil && e != at.Idom(); e = e.Idom() {
				if len(e.Preds) == 1 {
					p.edgeFacts(f, e.Preds[0], e, d+1)
				}
			}
			p.edgeFacts(f, pr, x.Block(), d+1)
			p.condFacts(f, x.Edges[hit], holds, pr, d+1)
		}
	case *ssa.BinOp:
		op := x.Op
		if !holds {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return
			}
		}
		if isIntType(x.X.Type()) {
			a, b := p.form(x.X), p.form(x.Y)
			switch op {
			case token.LSS:
				f.ge = append(f.ge, b.plus(a, -1).plus(bConst(1), -1))
			case token.LEQ:
				f.ge = append(f.ge, b.plus(a, -1))
			case token.GTR:
				f.ge = append(f.ge, a.plus(b, -1).plus(bConst(1), -1))
			case token.GEQ:
				f.ge = append(f.ge, a.plus(b, -1))
			case token.EQL:
				f.eq(a.plus(b, -1))
				// x % k == 0
			case token.NEQ:
				f.ne = append(f.ne, a.plus(b, -1))
			}
			return
		}
		if strOrBytes(x.X.Type()) && op == token.EQL {
			if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
				f.eq(p.lenOf(x.X).plus(p.lenOf(x.Y), -1))
			}
		}
		if strOrBytes(x.X.Type()) && op == token.NEQ {
			for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := pair[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
					f.ne = append(f.ne, p.lenOf(pair[0]))
				}
			}
		}
		// err == nil of a helper
		if op == token.EQL || op == token.NEQ {
			v, c := x.X, x.Y
			if isNilConst(v) {
				v, c = c, v
			}
			if isNilConst(c) {
				p.verdict(f, p.canon(v), func(r ssa.Value) int {
					if isNilConst(r) {
						return yesNo(op == token.EQL)
					}
					if definitelyNotNil(r) {
						return yesNo(op == token.NEQ)
					}
					return 0
				}, nil, d)
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && !p.w.inRepo(g) && holds {
			switch extName(g) {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains", "bytes.Equal":
				f.ge = append(f.ge, p.lenOf(x.Call.Args[0]).plus(p.lenOf(x.Call.Args[1]), -1))
			}
			return
		}
		p.boolVerdict(f, x, holds, d)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); ok {
			p.boolVerdict(f, x, holds, d)
		}
	}
}

func yesNo(b bool) int {
	if b {
		return 1
	}
	return -1
}

func definitelyNotNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc:
		return true
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			n := extName(g)
			return n == "fmt.Errorf" || n == "errors.New"
		}
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok && isErrorType(v.Type())
	}
	return false
}

func (p *boundsProver) boolVerdict(f *bFacts, v ssa.Value, holds bool, d int) {
	p.verdict(f, v, func(r ssa.Value) int {
		if c, ok := r.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			return yesNo(constant.BoolVal(c.Value) == holds)
		}
		return 0
	}, &holds, d)
}

// verdict: the call returned something that fits; what does that say about its arguments (and its other results)?
func (p *boundsProver) verdict(f *bFacts, v ssa.Value, fits func(r ssa.Value) int, cond *bool, d int) {
	j := 0
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		j = x.Index
	}
	if call == nil || d > 2 {
		return
	}
	g := p.single(call)
	if g == nil {
		return
	}
	type way struct {
		ret *ssa.Return
		v   ssa.Value
	}
	var ways []way
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || j >= len(ret.Results) {
			continue
		}
		r := retVal(ret.Results[j])
		if phi, ok := r.(*ssa.Phi); ok && phi.Block() == b {
			// several returns that share a block
			n := 0
			for _, e := range phi.Edges {
				if fits(e) >= 0 {
					n++
				}
			}
			if n == 1 && cond == nil {
				for i, e := range phi.Edges {
					if fits(e) >= 0 {
						sub := &bFacts{}
						pr := phi.Block().Preds[i]
						*sub = *p.blockFacts(pr)
						p.edgeFacts(sub, pr, b, d+1)
						p.importFacts(f, sub, g, call)
					}
				}
			}
			if n > 0 {
				ways = append(ways, way{ret, r})
			}
			continue
		}
		if fits(r) < 0 {
			continue
		}
		ways = append(ways, way{ret, r})
	}
	if len(ways) != 1 {
		return
	}
	sub := &bFacts{}
	*sub = *p.blockFacts(ways[0].ret.Block())
	sub.ge = append([]bLin{}, sub.ge...)
	sub.ne = append([]bLin{}, sub.ne...)
	if cond != nil {
		p.condFacts(sub, ways[0].v, *cond, ways[0].ret.Block(), d+1)
	}
	p.importFacts(f, sub, g, call)
	// the other results
	for k := range ways[0].ret.Results {
		if k == j {
			continue
		}
		e := resultOf(call, k)
		if e == nil {
			continue
		}
		r := retVal(ways[0].ret.Results[k])
		if isIntType(r.Type()) {
			if l := p.form(r); p.translatable(l, g) {
				f.eq(bOf(bSym{v: e}).plus(p.translate(l, g, call), -1))
			} else {
				p.importDef(f, sub, g, call, bOf(bSym{v: e}), l)
			}
		}
		switch r.Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			if bt, ok := r.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString == 0 {
				continue
			}
			if l := p.lenOf(r); p.translatable(l, g) {
				f.eq(bOf(bSym{v: e, len: true}).plus(p.translate(l, g, call), -1))
			}
		}
	}
}

// importDef: bounds of a result that is not a form of the parameters.
func (p *boundsProver) importDef(f, sub *bFacts, g *ssa.Function, call *ssa.Call, res, l bLin) {
	all := p.define(append([]bLin{l}, sub.ge...))
	for _, x := range append(append([]bLin{}, sub.ge...), all...) {
		if len(l.t) != 1 {
			return
		}
		for s, k := range l.t {
			if k != 1 || x.t[s] == 0 {
				continue
			}
			y := x.subst(s, bConst(-l.c))
			rest := y
			if p.translatable(rest, g) {
				f.ge = append(f.ge, p.translate(rest, g, call).plus(res, x.t[s]))
			}
		}
	}
}

func (p *boundsProver) importFacts(f, sub *bFacts, g *ssa.Function, call ssa.CallInstruction) {
	for _, l := range sub.ge {
		if y, ok := p.inContext(l, g, call); ok {
			f.ge = append(f.ge, y)
		}
	}
	for _, l := range sub.ne {
		if y, ok := p.inContext(l, g, call); ok {
			f.ne = append(f.ne, y)
		}
	}
}

// inContext: a form over values of g at a call; what is not given by the arguments stays as a value of the callee.
func (p *boundsProver) inContext(l bLin, g *ssa.Function, call ssa.CallInstruction) (bLin, bool) {
	r := bConst(l.c)
	for s, k := range l.t {
		if p.translatable(bOf(s), g) {
			r = r.plus(p.translate(bOf(s), g, call), k)
			continue
		}
		if s.at != nil || s.v == nil || s.v.Parent() != g {
			return r, false
		}
		s.at = call
		r = r.plus(bOf(s), k)
	}
	return r, true
}

// define: what the operations that make the symbols of the forms say.
func (p *boundsProver) define(ls []bLin) []bLin {
	var res []bLin
	seen := map[bSym]bool{}
	var work []bSym
	addSyms := func(l bLin) {
		var ss []bSym
		for s := range l.t {
			if !seen[s] {
				ss = append(ss, s)
			}
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i].v.Name() < ss[j].v.Name() })
		for _, s := range ss {
			seen[s] = true
			work = append(work, s)
		}
	}
	for _, l := range ls {
		addSyms(l)
	}
	for len(work) > 0 && len(res) < 120 {
		s := work[0]
		work = work[1:]
		for _, l := range p.defFacts(s) {
			res = append(res, l)
			addSyms(l)
		}
	}
	return res
}

func (p *boundsProver) defFacts(s bSym) []bLin {
	var res []bLin
	ge := func(l bLin) { res = append(res, l) }
	me := bOf(s)
	if s.at != nil {
		in := s
		in.at = nil
		for _, l := range p.defFacts(in) {
			if y, ok := p.inContext(l, s.v.Parent(), s.at); ok {
				ge(y)
			}
		}
		return res
	}
	if s.q != 0 {
		if s.q == -1 {
			ge(me)
		}
		return res
	}
	if s.len {
		ge(me)
		switch x := s.v.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || p.w.inRepo(g) {
				break
			}
			switch extName(g) {
			case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "bytes.TrimSpace", "bytes.Trim":
				ge(p.lenOf(x.Call.Args[0]).plus(me, -1))
			case "strings.Split", "bytes.Split":
				if l := p.lenOf(x.Call.Args[1]); l.isConst() && l.c > 0 {
					ge(me.plus(bConst(1), -1))
				}
			case "strings.SplitN", "bytes.SplitN":
				n := p.form(x.Call.Args[2])
				if l := p.lenOf(x.Call.Args[1]); l.isConst() && l.c > 0 && n.isConst() && n.c != 0 {
					ge(me.plus(bConst(1), -1))
					if n.c > 0 {
						ge(n.plus(me, -1))
					}
				}
			}
		case *ssa.Phi:
			// shrinks or grows only
			p.induct(x, me, p.lenOf, ge)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && !p.w.inRepo(g) {
					switch extName(g) {
					case "strings.Cut", "bytes.Cut", "strings.CutPrefix", "strings.CutSuffix":
						ge(p.lenOf(c.Call.Args[0]).plus(me, -1))
					}
				}
			}
		}
		return res
	}
	if s.cap {
		ge(me.plus(p.lenOf(s.v), -1))
		return res
	}
	v := s.v
	if m, ok := unsignedMax(v.Type()); ok {
		ge(me)
		ge(bConst(m).plus(me, -1))
	} else if isUnsigned(v.Type()) {
		ge(me)
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if isIntType(x.X.Type()) {
			if m, ok := unsignedMax(x.X.Type()); ok && intSize(x.Type()) > intSize(x.X.Type()) {
				ge(me)
				ge(bConst(m).plus(me, -1))
			}
		}
	case *ssa.BinOp:
		a, b := p.form(x.X), p.form(x.Y)
		switch x.Op {
		case token.QUO, token.SHR:
			k := b.c
			if x.Op == token.SHR && b.isConst() && b.c >= 0 && b.c < 31 {
				k = 1 << b.c
			}
			if !b.isConst() || k <= 0 {
				break
			}
			if p.nonneg(x.X) {
				ge(me)
				ge(a.plus(me, -k))                               // k*q <= x
				ge(me.times(k).plus(a, -1).plus(bConst(k-1), 1)) // x <= k*q + k-1
			} else {
				ge(a.plus(bConst(k-1), 1).plus(me, -k))
				ge(me.times(k).plus(a, -1).plus(bConst(k-1), 1))
			}
		case token.REM:
			if b.isConst() && b.c > 0 {
				ge(bConst(b.c-1).plus(me, -1))
				whole := a.plus(me, -1).plus(bOf(bSym{v: v, q: b.c}), -b.c)
				ge(whole)
				ge(whole.times(-1))
				if p.nonneg(x.X) {
					ge(me)
					ge(a.plus(me, -1))
				} else {
					ge(me.plus(bConst(b.c-1), 1))
				}
			} else if !b.isConst() {
				if p.nonneg(x.Y) {
					ge(b.plus(bConst(1), -1).plus(me, -1))
				}
				if p.nonneg(x.X) {
					ge(me)
				}
			}
		case token.AND:
			for _, m := range []bLin{a, b} {
				if m.isConst() && m.c >= 0 {
					ge(me)
					ge(m.plus(me, -1))
				}
			}
		}
	case *ssa.Phi:
		p.induct(x, me, p.form, ge)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 1 && t.IsString {
				ge(me)
				ge(p.lenOf(r.X).plus(bConst(1), -1).plus(me, -1))
			}
		case *ssa.Call:
			name := ""
			var args []ssa.Value
			if t.Call.IsInvoke() {
				name = t.Call.Method.Name()
				args = t.Call.Args
			} else if g := t.Call.StaticCallee(); g != nil {
				name = g.Name()
				args = t.Call.Args
				if g.Signature.Recv() != nil && len(args) > 0 {
					args = args[1:]
				}
				switch extName(g) {
				case "io.ReadFull", "io.ReadAtLeast":
					name, args = "Read", args[1:]
				case "utf8.DecodeRune", "utf8.DecodeRuneInString", "utf8.DecodeLastRune", "utf8.DecodeLastRuneInString":
					if x.Index == 1 {
						ge(me)
						ge(p.lenOf(args[0]).plus(me, -1))
					}
				}
			}
			if x.Index == 0 && (name == "Read" || name == "Write" || name == "WriteString" || name == "ReadFrom") && len(args) >= 1 && strOrBytes(args[0].Type()) {
				ge(me)
				ge(p.lenOf(args[0]).plus(me, -1))
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "min":
				for _, a := range x.Call.Args {
					ge(p.form(a).plus(me, -1))
				}
			case "max":
				for _, a := range x.Call.Args {
					ge(me.plus(p.form(a), -1))
				}
			case "copy":
				ge(me)
				ge(p.lenOf(x.Call.Args[0]).plus(me, -1))
				ge(p.lenOf(x.Call.Args[1]).plus(me, -1))
			}
			break
		}
		if g := x.Call.StaticCallee(); g != nil && !p.w.inRepo(g) {
			n := extName(g)
			switch {
			case n == "strings.Index" || n == "strings.LastIndex" || n == "bytes.Index" || n == "bytes.LastIndex":
				ge(me.plus(bConst(1), 1))
				sep := p.lenOf(x.Call.Args[1])
				// found: r + len(sep) <= len(s); not found: -1
				if sep.isConst() && sep.c >= 1 {
					ge(p.lenOf(x.Call.Args[0]).plus(bConst(1), -1).plus(me, -1))
					_ = sep
				} else {
					ge(p.lenOf(x.Call.Args[0]).plus(me, -1))
				}
			case strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "bytes.LastIndex"):
				ge(me.plus(bConst(1), 1))
				ge(p.lenOf(x.Call.Args[0]).plus(bConst(1), -1).plus(me, -1))
			case n == "strings.Count" || n == "utf8.RuneCountInString" || n == "utf8.RuneCount":
				ge(me)
			case n == "slices.Index" || n == "slices.IndexFunc":
				ge(me.plus(bConst(1), 1))
				ge(p.lenOf(x.Call.Args[0]).plus(bConst(1), -1).plus(me, -1))
			}
		}
	}
	return res
}

// induct: bounds of a loop variable.
func (p *boundsProver) induct(x *ssa.Phi, me bLin, of func(ssa.Value) bLin, ge func(bLin)) {
	var inits []bLin
	up, down := true, true
	var step *int64
	even := true
	var varying *bLin
	latches := 0
	for i, e := range x.Edges {
		pr := x.Block().Preds[i]
		if !x.Block().Dominates(pr) {
			inits = append(inits, of(e))
			continue
		}
		for _, leaf := range phiLeaves(e, x, map[ssa.Value]bool{}) {
			l := of(leaf)
			diff := l.plus(me, -1)
			latches++
			varying = nil
			if latches == 1 && diff.c == 0 && len(diff.t) == 1 {
				for s := range diff.t {
					if s.plain() && !s.len && !s.cap && s.fv == nil && !definedIn(s.v, x.Block()) {
						varying = &diff
					}
				}
			}
			if !diff.isConst() || step != nil && *step != diff.c {
				even = false
			} else {
				k := diff.c
				step = &k
			}
			// what is left besides lengths and constants
			if !p.sign(diff, 1) {
				up = false
			}
			if !p.sign(diff, -1) {
				down = false
			}
		}
	}
	if len(inits) != 1 || len(x.Edges) == len(inits) {
		return
	}
	if !even {
		step = nil
	}
	if varying != nil {
		if first, ok := x.Block().Instrs[0].(*ssa.Phi); ok {
			for s, k := range varying.t {
				l := me.plus(inits[0], -1).plus(bOf(bSym{v: s.v, q: -2, w: first}), -k)
				ge(l)
				ge(l.times(-1))
			}
		}
	}
	if even && step != nil && *step != 0 {
		// the same in each round
		if first, ok := x.Block().Instrs[0].(*ssa.Phi); ok {
			l := me.plus(inits[0], -1).plus(bOf(bSym{v: first, q: -1}), -*step)
			ge(l)
			ge(l.times(-1))
		}
	}
	if up {
		ge(me.plus(inits[0], -1))
	}
	if down {
		ge(inits[0].plus(me, -1))
	}
}

func phiLeaves(v ssa.Value, stop *ssa.Phi, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok && ph != stop && stop.Block().Dominates(ph.Block()) {
		var res []ssa.Value
		for _, e := range ph.Edges {
			res = append(res, phiLeaves(e, stop, seen)...)
		}
		return res
	}
	return []ssa.Value{v}
}

// sign: k*l is at least zero for sure.
func (p *boundsProver) sign(l bLin, k int64) bool {
	if l.c*k < 0 {
		return false
	}
	for s, c := range l.t {
		if c*k < 0 {
			return false
		}
		if !s.plain() {
			if s.q == -1 {
				continue
			}
			return false
		}
		if !s.len && !s.cap && !p.nonnegSym(s.v, 0) {
			if e, ok := s.v.(*ssa.Extract); ok {
				if fs := p.defFacts(s); len(fs) > 0 && fs[0].c == 0 && len(fs[0].t) == 1 && fs[0].t[s] == 1 {
					_ = e
					continue
				}
			}
			return false
		}
	}
	return true
}

// holds: e >= 0 at the block.
func (p *boundsProver) holds(e bLin, b *ssa.BasicBlock) bool {
	p.steps = 0
	f := p.blockFacts(b)
	return p.prove(e, f.ge, f.ne, b, 0)
}

func (p *boundsProver) prove(e bLin, ge, ne []bLin, b *ssa.BasicBlock, d int) bool {
	if e.isConst() && e.c >= 0 {
		return true
	}
	p.steps++
	if p.steps > 60 {
		return false
	}
	neg := e.times(-1).plus(bConst(1), -1) // e <= -1
	base := append([]bLin{}, ge...)
	all := append(append([]bLin{}, base...), neg)
	all = append(all, p.define(append(append([]bLin{}, all...), ne...))...)
	all = append(all, p.products(all)...)
	if infeasible(all, ne, 0) {
		return true
	}
	if d >= 3 {
		return false
	}
	// case split over merges and min/max
	split := p.splittable(all, e)
	for _, s := range split {
		switch x := s.v.(type) {
		case *ssa.Phi:
			blk := x.Block()
			if !blk.Dominates(b) {
				continue
			}
			ok := true
			for i, ed := range x.Edges {
				var by bLin
				if s.len {
					by = p.lenOf(ed)
				} else {
					by = p.form(ed)
				}
				pr := blk.Preds[i]
				pf := p.blockFacts(pr)
				ef := &bFacts{ge: append([]bLin{}, pf.ge...), ne: append([]bLin{}, pf.ne...)}
				p.edgeFacts(ef, pr, blk, 0)
				nge := substAll(ge, s, by)
				nne := substAll(ne, s, by)
				// the other merges of the block
				e2 := e.subst(s, by)
				for _, in := range blk.Instrs {
					y, isPhi := in.(*ssa.Phi)
					if !isPhi {
						break
					}
					if y == x && !s.len {
						ls := bSym{v: y, len: true}
						nge, nne, e2 = substAll(nge, ls, p.lenOf(y.Edges[i])), substAll(nne, ls, p.lenOf(y.Edges[i])), e2.subst(ls, p.lenOf(y.Edges[i]))
						continue
					}
					if y == x {
						continue
					}
					ys := bSym{v: y}
					if isIntType(y.Type()) {
						nge, nne, e2 = substAll(nge, ys, p.form(y.Edges[i])), substAll(nne, ys, p.form(y.Edges[i])), e2.subst(ys, p.form(y.Edges[i]))
					}
					ls := bSym{v: y, len: true}
					switch y.Type().Underlying().(type) {
					case *types.Slice, *types.Basic:
						nge, nne, e2 = substAll(nge, ls, p.lenOf(y.Edges[i])), substAll(nne, ls, p.lenOf(y.Edges[i])), e2.subst(ls, p.lenOf(y.Edges[i]))
					}
				}
				if !p.prove(e2, append(nge, ef.ge...), append(nne, ef.ne...), pr, d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		case *ssa.Call:
			bi, isB := x.Call.Value.(*ssa.Builtin)
			if !isB || bi.Name() != "min" && bi.Name() != "max" {
				continue
			}
			ok := true
			for _, a := range x.Call.Args {
				by := p.form(a)
				var more []bLin
				for _, o := range x.Call.Args {
					if bi.Name() == "min" {
						more = append(more, p.form(o).plus(by, -1))
					} else {
						more = append(more, by.plus(p.form(o), -1))
					}
				}
				if !p.prove(e.subst(s, by), append(substAll(ge, s, by), more...), substAll(ne, s, by), b, d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// products: bounds of a product of which one factor is bounded by constants and the other is not negative.
func (p *boundsProver) products(all []bLin) []bLin {
	var res []bLin
	seen := map[bSym]bool{}
	for _, l := range all {
		for s := range l.t {
			if s.q == -2 && !seen[s] {
				seen[s] = true
				res = append(res, p.rounds(s, all)...)
			}
			if seen[s] || s.len || s.cap || !s.plain() {
				continue
			}
			seen[s] = true
			x, ok := s.v.(*ssa.BinOp)
			if !ok || x.Op != token.MUL || !isIntType(x.Type()) {
				continue
			}
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				a, b := p.form(pr[0]), p.form(pr[1])
				if !p.nonneg(pr[1]) && !infeasible(append(append([]bLin{}, all...), b.times(-1).plus(bConst(1), -1)), nil, 2) {
					continue
				}
				more := p.define([]bLin{a, b})
				for _, f := range append(append([]bLin{}, all...), more...) {
					if len(f.t) == 0 || len(f.t) != len(a.t) {
						continue
					}
					if sameTerms(f, a.times(-1)) { // f.c - a(terms) >= 0
						res = append(res, b.times(f.c+a.c).plus(bOf(s), -1))
					}
					if sameTerms(f, a) { // a(terms) + f.c >= 0
						res = append(res, bOf(s).plus(b, f.c-a.c))
					}
				}
			}
		}
	}
	return res
}

// rounds: how much v times the rounds of the loop may be.
func (p *boundsProver) rounds(s bSym, all []bLin) []bLin {
	v := p.form(s.v)
	if !p.nonneg(s.v) && !infeasible(append(append([]bLin{}, all...), v.times(-1).plus(bConst(1), -1)), nil, 2) {
		return nil
	}
	res := []bLin{bOf(s)}
	h := s.w.Block()
	for _, in := range h.Instrs {
		y, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(y.Type()) {
			continue
		}
		c0, one := int64(0), true
		for i, e := range y.Edges {
			l := p.form(e)
			if h.Dominates(h.Preds[i]) {
				d := l.plus(bOf(bSym{v: y}), -1)
				one = one && d.isConst() && d.c == 1
			} else {
				one = one && l.isConst()
				c0 = l.c
			}
		}
		if !one {
			continue
		}
		for _, f := range all {
			if len(f.t) == 1 && f.t[bSym{v: y}] == -1 {
				res = append(res, v.times(f.c-c0).plus(bOf(s), -1))
			}
		}
	}
	return res
}

func substAll(ls []bLin, s bSym, by bLin) []bLin {
	res := make([]bLin, 0, len(ls)+8)
	for _, l := range ls {
		res = append(res, l.subst(s, by))
	}
	return res
}

func (p *boundsProver) splittable(ls []bLin, e bLin) []bSym {
	var res []bSym
	seen := map[bSym]bool{}
	add := func(s bSym) {
		if seen[s] || !s.plain() {
			return
		}
		seen[s] = true
		switch x := s.v.(type) {
		case *ssa.Phi:
			if s.cap {
				return
			}
			for _, pr := range x.Block().Preds {
				if x.Block().Dominates(pr) {
					return // a loop
				}
			}
			res = append(res, s)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") && !s.len {
				res = append(res, s)
			}
		}
	}
	for s := range e.t {
		add(s)
	}
	n := len(res)
	for _, l := range ls {
		for s := range l.t {
			add(s)
		}
	}
	sort.SliceStable(res[:n], func(i, j int) bool { return res[i].v.Name() < res[j].v.Name() })
	sort.SliceStable(res[n:], func(i, j int) bool { return res[n+i].v.Name() < res[n+j].v.Name() })
	if len(res) > 4 {
		res = res[:4]
	}
	return res
}

// infeasible: Fourier-Motzkin over the rationals, with a case split over inequalities.
func infeasible(ge, ne []bLin, d int) bool {
	if fm(solved(ge)) {
		return true
	}
	if d >= 2 {
		return false
	}
	for i, n := range ne {
		if i > 5 {
			break
		}
		rest := append(append([]bLin{}, ne[:i]...), ne[i+1:]...)
		lo := append(append([]bLin{}, ge...), n.times(-1).plus(bConst(1), -1))
		hi := append(append([]bLin{}, ge...), n.plus(bConst(1), -1))
		if fm(solved(lo)) && infeasible(hi, rest, d+1) || fm(solved(hi)) && infeasible(lo, rest, d+1) {
			return true
		}
	}
	return false
}

// solved: with the equations that have a symbol on its own used up (that loses nothing for integers).
func solved(ls []bLin) []bLin {
	cur := dedup(ls)
	for round := 0; round < 40; round++ {
		found := false
	search:
		for i, a := range cur {
			for j := i + 1; j < len(cur); j++ {
				b := cur[j]
				if a.c != -b.c || len(a.t) != len(b.t) || !sameTerms(a.times(-1), b) {
					continue
				}
				var pick bSym
				for s, k := range a.t {
					if (k == 1 || k == -1) && (!found || symLess(s, pick)) {
						pick, found = s, true
					}
				}
				if !found {
					continue
				}
				by := a.plus(bOf(pick), -a.t[pick]).times(-a.t[pick])
				var nx []bLin
				for x, l := range cur {
					if x == i || x == j {
						continue
					}
					nx = append(nx, reduce(l.subst(pick, by)))
				}
				cur = dedup(nx)
				break search
			}
		}
		if !found {
			break
		}
	}
	return cur
}

func symLess(a, b bSym) bool {
	if x, y := a.v.Name(), b.v.Name(); x != y {
		return x < y
	}
	if a.len != b.len {
		return b.len
	}
	return a.q < b.q
}

func fm(ls []bLin) bool {
	cur := dedup(ls)
	for round := 0; round < 14; round++ {
		for _, l := range cur {
			if l.isConst() && l.c < 0 {
				return true
			}
		}
		// the symbol with the fewest combinations
		pos, neg := map[bSym]int{}, map[bSym]int{}
		for _, l := range cur {
			for s, k := range l.t {
				if k > 0 {
					pos[s]++
				} else {
					neg[s]++
				}
			}
		}
		var best bSym
		bestN, found := 0, false
		consider := func(s bSym) {
			n := pos[s]*neg[s] - pos[s] - neg[s]
			if !found || n < bestN || n == bestN && s.v.Name() < best.v.Name() {
				best, bestN, found = s, n, true
			}
		}
		for s := range pos {
			consider(s)
		}
		for s := range neg {
			if pos[s] == 0 {
				consider(s)
			}
		}
		if !found {
			return false
		}
		var nx []bLin
		var ps, ns []bLin
		for _, l := range cur {
			switch k := l.t[best]; {
			case k > 0:
				ps = append(ps, l)
			case k < 0:
				ns = append(ns, l)
			default:
				nx = append(nx, l)
			}
		}
		for _, a := range ps {
			for _, b := range ns {
				nx = append(nx, reduce(a.times(-b.t[best]).plus(b, a.t[best])))
			}
		}
		if len(nx) > 400 {
			return false
		}
		cur = dedup(nx)
	}
	return false
}

// reduce: divide by the common factor (the constant rounds down: the forms are integers).
func reduce(l bLin) bLin {
	var g int64
	for _, k := range l.t {
		if k < 0 {
			k = -k
		}
		for k != 0 {
			g, k = k, g%k
		}
	}
	if g <= 1 {
		return l
	}
	r := bLin{t: map[bSym]int64{}}
	for s, k := range l.t {
		r.t[s] = k / g
	}
	r.c = l.c / g
	if l.c < 0 && l.c%g != 0 {
		r.c--
	}
	return r
}

func dedup(ls []bLin) []bLin {
	var res []bLin
	for _, l := range ls {
		l = reduce(l)
		if l.isConst() && l.c >= 0 {
			continue
		}
		dup := false
		for i, o := range res {
			if sameTerms(l, o) {
				dup = true
				if l.c < o.c {
					res[i] = l
				}
				break
			}
		}
		if !dup {
			res = append(res, l)
		}
	}
	return res
}

func sameTerms(a, b bLin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for s, k := range a.t {
		if b.t[s] != k {
			return false
		}
	}
	return true
}

// ensured: e >= 0 at the instruction, by the function or by all of its callers.
func (p *boundsProver) ensured(e bLin, at ssa.Instruction, d int) bool {
	b := at.Block()
	if p.holds(e, b) {
		return true
	}
	if d >= 4 {
		return false
	}
	f := b.Parent()
	for _, g := range p.weaker(e, b, f) {
		if p.atCallers(g, f, d) {
			return true
		}
	}
	return false
}

// weaker: conditions on the parameters that imply e >= 0.
func (p *boundsProver) weaker(e bLin, b *ssa.BasicBlock, f *ssa.Function) []bLin {
	fs := p.blockFacts(b)
	base := append([]bLin{}, fs.ge...)
	all := append(base, p.define(append(append([]bLin{}, base...), e))...)
	var res []bLin
	var rec func(e bLin, d int)
	rec = func(e bLin, d int) {
		if len(res) > 6 {
			return
		}
		var local *bSym
		for s := range e.t {
			s := s
			if !p.translatable(bOf(s), f) && (local == nil || s.v.Name() < local.v.Name()) {
				local = &s
			}
		}
		if local == nil {
			res = append(res, e)
			return
		}
		if d > 3 {
			return
		}
		k := e.t[*local]
		for _, x := range all {
			// e = (k/kx)*x + rest, with rest >= 0 wanted
			kx := x.t[*local]
			if kx == 0 || (k > 0) != (kx > 0) || k%kx != 0 {
				continue
			}
			rec(e.plus(x, -(k/kx)), d+1)
		}
	}
	rec(e, 0)
	return res
}

func (p *boundsProver) atCallers(e bLin, f *ssa.Function, d int) bool {
	if e.isConst() {
		return e.c >= 0
	}
	// a captured variable
	for s := range e.t {
		if _, ok := s.v.(*ssa.FreeVar); ok {
			return false
		}
	}
	sites := p.w.callSitesOf(f)
	n := 0
	for _, c := range sites {
		if !p.w.inRepo(c.Parent()) {
			continue
		}
		n++
		if !p.ensured(p.translate(e, f, c), c, d+1) {
			return false
		}
	}
	return n > 0
}

// constParam: the parameter has the same constant value at every call of its function.
func (p *boundsProver) constParam(x *ssa.Parameter) (int64, bool) {
	f := x.Parent()
	sites := p.w.callSitesOf(f)
	if len(sites) == 0 {
		return 0, false
	}
	i := paramIndex(f, x)
	val := int64(0)
	for n, s := range sites {
		com := s.Common()
		if com.IsInvoke() || com.StaticCallee() != f || i < 0 || i >= len(com.Args) {
			return 0, false
		}
		k, ok := bInt(com.Args[i])
		if !ok || n > 0 && k != val {
			return 0, false
		}
		val = k
	}
	return val, true
}
