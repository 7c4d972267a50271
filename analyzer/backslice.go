package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A backward slice with calling contexts: which fields does a value come from, and is it changed on the way?

type bctx struct {
	fn     *ssa.Function
	parent *bctx
	call   ssa.CallInstruction
	depth  int
	binds  []ssa.Value // of a closure
	bindIn *bctx
}

// node: a place where something is stored in a field or a container.
type bstore struct {
	ctx      *bctx
	in       ssa.Instruction
	field    *types.Var // store into this field
	cont     ssa.Value  // or into this container
	key, val ssa.Value
	whole    bool // all elements of val are copied
}

type backslice struct {
	w      *World
	source func(fv *types.Var) bool // fields at which the slice ends
	nodes  []*bctx
	stores []*bstore
	memo   map[bkey]map[string]bool
	busy   map[bkey]bool
	cycles int
	steps  int
}

type bkey struct {
	v    ssa.Value
	c    *bctx
	what string
}

func newBackslice(w *World, root *ssa.Function, source func(fv *types.Var) bool) *backslice {
	b := &backslice{w: w, source: source, memo: map[bkey]map[string]bool{}, busy: map[bkey]bool{}}
	b.build(&bctx{fn: root})
	return b
}

func (b *backslice) build(c *bctx) {
	if len(b.nodes) > 2000 {
		return
	}
	b.nodes = append(b.nodes, c)
	for _, blk := range c.fn.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					b.stores = append(b.stores, &bstore{ctx: c, in: in, field: fieldVar(a.X.Type(), a.Field), val: x.Val})
				case *ssa.IndexAddr:
					b.stores = append(b.stores, &bstore{ctx: c, in: in, cont: a.X, key: a.Index, val: x.Val})
				}
			case *ssa.MapUpdate:
				b.stores = append(b.stores, &bstore{ctx: c, in: in, cont: x.Map, key: x.Key, val: x.Value})
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						b.stores = append(b.stores, &bstore{ctx: c, in: in, cont: cc.Args[0], val: cc.Args[1], whole: true})
					}
					continue
				}
				if g := cc.StaticCallee(); g != nil && (g.String() == "maps.Copy" || strings.HasPrefix(g.String(), "maps.Copy[")) {
					b.stores = append(b.stores, &bstore{ctx: c, in: in, cont: cc.Args[0], val: cc.Args[1], whole: true})
					continue
				}
				if c.depth > 6 {
					continue
				}
				for _, g := range b.calleesOf(x) {
					if !b.onPath(c, g) {
						n := &bctx{fn: g, parent: c, call: x, depth: c.depth + 1}
						if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
							n.binds, n.bindIn = mc.Bindings, c
						}
						b.build(n)
					}
				}
			}
		}
	}
}

func (b *backslice) calleesOf(x ssa.CallInstruction) []*ssa.Function {
	var res []*ssa.Function
	for _, g := range b.w.pts.Callees(x) {
		if len(g.Blocks) > 0 && b.w.inRepo(g) && !strings.HasSuffix(b.w.fnPkg(g), "/pb") {
			res = append(res, g)
		}
	}
	return res
}

func (b *backslice) onPath(c *bctx, g *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == g {
			return true
		}
	}
	return false
}

// child: the context of a call.
func (b *backslice) child(c *bctx, call ssa.CallInstruction, g *ssa.Function) *bctx {
	for _, n := range b.nodes {
		if n.parent == c && n.call == call && n.fn == g {
			return n
		}
	}
	return nil
}

func addAllB(dst map[string]bool, src map[string]bool) {
	for k := range src {
		dst[k] = true
	}
}

func mapItems(src map[string]bool, role string) map[string]bool {
	res := map[string]bool{}
	for k := range src {
		if strings.HasPrefix(k, "!") || strings.HasPrefix(k, "?") || strings.HasPrefix(k, "=") {
			res[k] = true
			continue
		}
		res[k+role] = true
	}
	return res
}

// lossy external functions: the result does not determine the argument.
var lossy = map[string]bool{
	"(time.Time).Truncate": true, "(time.Time).Round": true, "(time.Time).Add": true, "(time.Time).AddDate": true,
	"(time.Time).Unix": true, "(time.Time).UnixMilli": true, "(time.Time).UnixMicro": true, "(time.Time).Second": true, "(time.Time).Minute": true,
	"math.Floor": true, "math.Ceil": true, "math.Round": true, "math.Abs": true, "math.Max": true, "math.Min": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.Trim": true, "strings.TrimPrefix": true,
}

// of: what the value comes from. Items: field names with the role (".key", ".val"), "!..." for changes on the way,
// "?..." for what is not understood, "=..." for constants.
func (b *backslice) of(v ssa.Value, c *bctx) map[string]bool {
	k := bkey{v, c, "of"}
	if r, ok := b.memo[k]; ok {
		return r
	}
	b.steps++
	if b.steps > 3_000_000 {
		return one("?budget")
	}
	if b.busy[k] {
		b.cycles++
		return nil
	}
	b.busy[k] = true
	n := b.cycles
	r := b.of1(v, c)
	delete(b.busy, k)
	if len(b.busy) == 0 || b.cycles == n {
		b.memo[k] = r
	}
	return r
}

func one(s string) map[string]bool { return map[string]bool{s: true} }

func (b *backslice) of1(v ssa.Value, c *bctx) map[string]bool {
	res := map[string]bool{}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return one("=nil")
		}
		return one("=" + x.Value.ExactString())
	case *ssa.Convert:
		res = mapItems(b.of(x.X, c), "")
		if isFloatType(x.X.Type()) && isIntType(x.Type()) {
			res["!rounded to an integer"] = true
		}
		return res
	case *ssa.ChangeType:
		return b.of(x.X, c)
	case *ssa.MultiConvert:
		return b.of(x.X, c)
	case *ssa.MakeInterface:
		return b.of(x.X, c)
	case *ssa.TypeAssert:
		return b.of(x.X, c)
	case *ssa.ChangeInterface:
		return b.of(x.X, c)
	case *ssa.Slice:
		res = mapItems(b.of(x.X, c), "")
		if x.Low != nil || x.High != nil {
			if a, ok := x.X.(*ssa.Alloc); !ok || a.Comment != "makeslice" && a.Comment != "varargs" && a.Comment != "slicelit" {
				if k, ok := constIntOf(x.Low); x.Low != nil && !(ok && k == 0) {
					res["!cut"] = true
				} else if x.High != nil {
					if k, ok := constIntOf(x.High); ok && k == 0 {
						return map[string]bool{}
					}
					res["?slice"] = true
				}
			}
		}
		return res
	case *ssa.Phi:
		for _, e := range x.Edges {
			addAllB(res, b.of(e, c))
		}
		return res
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one("?comparison")
		}
		addAllB(res, b.of(x.X, c))
		addAllB(res, b.of(x.Y, c))
		res["!changed by "+x.Op.String()] = true
		return res
	case *ssa.Field:
		fv := fieldVar(x.X.Type(), x.Field)
		if b.source(fv) {
			return one(fieldName(fv))
		}
		if isStruct(fv.Type()) {
			return b.of(x.X, c)
		}
		return one("?field " + fieldName(fv))
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB, token.XOR, token.NOT:
			res = mapItems(b.of(x.X, c), "")
			res["!negated"] = true
			return res
		case token.ARROW:
			return one("?received")
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return b.field(a, c)
		case *ssa.IndexAddr:
			return mapItems(b.of(a.X, c), ".val")
		case *ssa.Alloc:
			n := 0
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					n++
					addAllB(res, b.of(st.Val, c))
				}
			}
			if n == 0 {
				return one("?local")
			}
			return res
		case *ssa.FreeVar:
			return b.cell(a, c)
		case *ssa.Global:
			return one("!kept in " + a.Name())
		}
		return one("?pointer")
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			rg, ok := t.Iter.(*ssa.Range)
			if !ok {
				return one("?iterator")
			}
			switch x.Index {
			case 1:
				return mapItems(b.of(rg.X, c), ".key")
			case 2:
				return mapItems(b.of(rg.X, c), ".val")
			}
			return one("?ok")
		case *ssa.Call:
			return b.call(t, c, x.Index)
		case *ssa.Lookup:
			return mapItems(b.of(t.X, c), ".val")
		}
		return one("?extract")
	case *ssa.Lookup:
		return mapItems(b.of(x.X, c), ".val")
	case *ssa.Parameter:
		if c.call == nil {
			return one("?parameter " + x.Name())
		}
		args := c.call.Common().Args
		if c.call.Common().IsInvoke() {
			args = append([]ssa.Value{c.call.Common().Value}, args...)
		}
		off := len(c.fn.Params) - len(args)
		for i, p := range c.fn.Params {
			if p == x && i-off >= 0 && i-off < len(args) {
				return b.of(args[i-off], c.parent)
			}
		}
		return one("?parameter " + x.Name())
	case *ssa.FreeVar:
		return b.cell(x, c)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				for _, a := range x.Call.Args {
					addAllB(res, b.of(a, c))
				}
				return res
			case "len", "cap":
				return one("?len")
			}
			return one("?" + bi.Name())
		}
		return b.call(x, c, 0)
	case *ssa.MakeMap:
		return b.contents(v, c)
	case *ssa.MakeSlice:
		res := b.contents(v, c)
		if otherLength(x.Len) {
			with := one("!not as long as it was")
			addAllB(with, res)
			return with
		}
		return res
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			return b.contents(v, c)
		}
		return one("?object")
	}
	return one("?value")
}

func constIntOf(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func fieldName(fv *types.Var) string { return fieldKey(fv) }

func (b *backslice) cell(fv *ssa.FreeVar, c *bctx) map[string]bool {
	if c.binds == nil {
		return one("?captured")
	}
	for i, y := range c.fn.FreeVars {
		if y == fv && i < len(c.binds) {
			bv := c.binds[i]
			if a, ok := bv.(*ssa.Alloc); ok {
				res := map[string]bool{}
				for _, sv := range b.w.cellStores(a) {
					addAllB(res, b.of(sv, c.bindIn))
				}
				return res
			}
			return b.of(bv, c.bindIn)
		}
	}
	return one("?captured")
}

// field: a load of a field.
func (b *backslice) field(a *ssa.FieldAddr, c *bctx) map[string]bool {
	fv := fieldVar(a.X.Type(), a.Field)
	if b.source(fv) {
		return one(fieldName(fv))
	}
	// what this call tree stores in it
	res := map[string]bool{}
	n := 0
	for _, s := range b.stores {
		if s.field == fv {
			n++
			addAllB(res, b.of(s.val, s.ctx))
		}
	}
	addAllB(res, b.fieldContents(fv))
	if n == 0 {
		return one("!kept in " + fieldName(fv))
	}
	return res
}

func (b *backslice) call(x *ssa.Call, c *bctx, idx int) map[string]bool {
	res := map[string]bool{}
	gs := b.calleesOf(x)
	known := false
	for _, g := range gs {
		n := b.child(c, x, g)
		if n == nil {
			continue
		}
		known = true
		for _, blk := range g.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				addAllB(res, b.of(ret.Results[idx], n))
			}
		}
	}
	if known {
		return res
	}
	if len(gs) > 0 {
		return one("?recursion")
	}
	name := ""
	if g := x.Call.StaticCallee(); g != nil {
		name = g.String()
		if i := strings.IndexByte(name, '['); i > 0 {
			name = name[:i]
		}
		// generated getters
		if strings.HasSuffix(b.w.fnPkg(g), "/pb") && strings.HasPrefix(g.Name(), "Get") && g.Signature.Recv() != nil {
			if st, ok := deref(g.Signature.Recv().Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == g.Name()[3:] {
						if b.source(st.Field(i)) {
							return one(fieldName(st.Field(i)))
						}
					}
				}
			}
		}
	}
	for _, a := range x.Call.Args {
		addAllB(res, b.of(a, c))
	}
	if x.Call.IsInvoke() {
		res["?"+x.Call.Method.Name()] = true
	}
	if lossy[name] {
		res["!changed by "+name] = true
	}
	if name == "time.Now" {
		res["=now"] = true
	}
	return res
}

// sameContainer: the two values are the same container.
func (b *backslice) sameContainer(v ssa.Value, c *bctx, w ssa.Value, d *bctx, depth int) bool {
	if depth > 10 {
		return false
	}
	if v == w && c == d {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if c.call == nil {
			return false
		}
		args := c.call.Common().Args
		off := len(c.fn.Params) - len(args)
		for i, p := range c.fn.Params {
			if p == x && i-off >= 0 && i-off < len(args) {
				return b.sameContainer(args[i-off], c.parent, w, d, depth+1)
			}
		}
	case *ssa.ChangeType:
		return b.sameContainer(x.X, c, w, d, depth+1)
	case *ssa.Slice:
		return b.sameContainer(x.X, c, w, d, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b.sameContainer(e, c, w, d, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, sv := range b.w.cellStores(a) {
				if b.sameContainer(sv, c, w, d, depth+1) {
					return true
				}
			}
		}
	case *ssa.FreeVar:
		if c.binds != nil {
			for i, y := range c.fn.FreeVars {
				if y == x && i < len(c.binds) {
					return b.sameContainer(c.binds[i], c.bindIn, w, d, depth+1)
				}
			}
		}
	}
	return false
}

// isField: the value is a load of the field.
func (b *backslice) isField(v ssa.Value, c *bctx, fv *types.Var, depth int) bool {
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldVar(a.X.Type(), a.Field) == fv
		}
	case *ssa.Parameter:
		if c.call == nil {
			return false
		}
		args := c.call.Common().Args
		off := len(c.fn.Params) - len(args)
		for i, p := range c.fn.Params {
			if p == x && i-off >= 0 && i-off < len(args) {
				return b.isField(args[i-off], c.parent, fv, depth+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b.isField(e, c, fv, depth+1) {
				return true
			}
		}
	}
	return false
}

// contents of a container that is made here.
func (b *backslice) contents(v ssa.Value, c *bctx) map[string]bool {
	res := map[string]bool{}
	for _, s := range b.stores {
		if s.cont != nil && b.sameContainer(s.cont, s.ctx, v, c, 0) {
			addAllB(res, b.element(s))
		}
	}
	return res
}

func (b *backslice) fieldContents(fv *types.Var) map[string]bool {
	res := map[string]bool{}
	for _, s := range b.stores {
		if s.cont != nil && b.isField(s.cont, s.ctx, fv, 0) {
			addAllB(res, b.element(s))
		}
	}
	return res
}

// element: what one element of a container comes from. An element that is an element of a source field makes the
// container as a whole come from this field.
func (b *backslice) element(s *bstore) map[string]bool {
	res := map[string]bool{}
	if s.whole {
		return b.of(s.val, s.ctx)
	}
	vals := b.of(s.val, s.ctx)
	for k := range vals {
		switch {
		case strings.HasPrefix(k, "!"), strings.HasPrefix(k, "?"):
			res[k] = true
		case strings.HasPrefix(k, "="):
			res[k] = true
		case strings.HasSuffix(k, ".val"):
			res[strings.TrimSuffix(k, ".val")] = true
		default:
			res["!element is "+k] = true
		}
	}
	if _, isMap := s.in.(*ssa.MapUpdate); isMap {
		for k := range b.of(s.key, s.ctx) {
			switch {
			case strings.HasPrefix(k, "!"), strings.HasPrefix(k, "?"):
				res[k] = true
			case strings.HasSuffix(k, ".key"):
				if !vals[strings.TrimSuffix(k, ".key")+".val"] {
					res["!key of "+k] = true
				}
			default:
				res["!key is "+k] = true
			}
		}
	} else if s.key != nil {
		if _, ok := s.key.(*ssa.Const); ok && onLoop(s.in.Block()) {
			if _, arr := s.cont.(*ssa.Alloc); !arr {
				res["!moved to another place"] = true
			}
		}
		if j := b.loadIndex(s.val, 0); j != nil && j != s.key {
			if bo, ok := j.(*ssa.BinOp); ok && arithOp(bo.Op) && derivedFromIdx(bo, s.key) {
				res["!moved to another place"] = true
			} else if bo, ok := s.key.(*ssa.BinOp); ok && arithOp(bo.Op) && derivedFromIdx(bo, j) {
				res["!moved to another place"] = true
			}
		}
	}
	// executed for every element?
	for _, l := range loopsOf(s.ctx.fn) {
		if !l.blocks[s.in.Block()] {
			continue
		}
		if why := skipped(l, s.in.Block()); why {
			res["!left out for some elements"] = true
		}
		if _, _, kind, _ := l.walk(); kind == walkPartial {
			res["!left out for some elements"] = true
		}
	}
	return res
}

// skipped: some round of the loop ends without the block.
func skipped(l *Loop, b *ssa.BasicBlock) bool {
	for _, p := range l.header.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return true
		}
	}
	// left early
	for x := range l.blocks {
		if x == l.header {
			continue
		}
		for _, s := range x.Succs {
			if !l.blocks[s] {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !ok {
					return true
				}
			}
		}
	}
	return false
}

func arithOp(op token.Token) bool {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
		return true
	}
	return false
}

func derivedFromIdx(bo *ssa.BinOp, v ssa.Value) bool {
	if bo.X == v || bo.Y == v {
		return true
	}
	if x, ok := bo.X.(*ssa.BinOp); ok && derivedFromIdx(x, v) {
		return true
	}
	if x, ok := bo.Y.(*ssa.BinOp); ok && derivedFromIdx(x, v) {
		return true
	}
	return false
}

func (b *backslice) loadIndex(v ssa.Value, d int) ssa.Value {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return b.loadIndex(x.X, d+1)
	case *ssa.ChangeType:
		return b.loadIndex(x.X, d+1)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return nil
}

func itemList(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

// otherLength: the length is that of something else, changed by a calculation.
func otherLength(n ssa.Value) bool {
	isLen := func(v ssa.Value) bool {
		c, ok := convStripped(v).(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	var has func(v ssa.Value, d int) bool
	has = func(v ssa.Value, d int) bool {
		if isLen(v) {
			return true
		}
		if bo, ok := convStripped(v).(*ssa.BinOp); ok && d < 4 {
			return has(bo.X, d+1) || has(bo.Y, d+1)
		}
		return false
	}
	switch x := convStripped(n).(type) {
	case *ssa.BinOp:
		lin, k := linear(x)
		if len(lin) == 1 && k == 0 {
			for v, m := range lin {
				if m == 1 && isLen(v) {
					return false
				}
			}
		}
		return has(x, 0)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			some, constant := false, false
			for _, a := range x.Call.Args {
				some = some || has(a, 0)
				if _, ok := constInt(a); ok {
					constant = true
				}
			}
			return some && constant
		}
	}
	return false
}

func convStripped(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}
