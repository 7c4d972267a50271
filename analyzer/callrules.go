package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

// repCall: the invoke of a reporter method of the text processor ("CallsignDecoded", ...), with the callsign as first argument.
func repCall(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok || !c.Common().IsInvoke() {
		return ""
	}
	m := c.Common().Method
	if len(c.Common().Args) == 0 || typeStr(c.Common().Args[0].Type()) != "string" {
		return ""
	}
	n := len(c.Common().Args)
	switch m.Name() {
	case "CallsignDecoded":
		if n == 3 {
			return "decoded"
		}
	case "CallsignSpotted":
		if n == 1 {
			return "spotted"
		}
	case "SpotTimeout":
		if n == 1 {
			return "timeout"
		}
	}
	return ""
}

func isCallsignType(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Name() == "Callsign" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "hamradio/callsign")
}

// isPrefixDB: the type of something that knows the DXCC prefixes.
func isPrefixDB(t types.Type) bool {
	if isDBType(t) {
		return strings.Contains(namedOf(deref(t)).Obj().Pkg().Path(), "hamradio/dxcc")
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if prefixFind(it.Method(i).Type().(*types.Signature)) {
			return true
		}
	}
	return false
}

func prefixFind(s *types.Signature) bool {
	if s.Results().Len() != 2 || typeStr(s.Results().At(1).Type()) != "bool" {
		return false
	}
	sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(sl.Elem())
	return n != nil && n.Obj().Name() == "Prefix" && strings.Contains(n.Obj().Pkg().Path(), "dxcc")
}

// constNamed finds an integer constant of a package by the words in its name.
func (w *World) constNamed(pkg string, words ...string) (int64, string, bool) {
	for _, p := range w.pkgs {
		if shortPkg(p.PkgPath) != pkg {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			c, ok := p.Types.Scope().Lookup(n).(*types.Const)
			if !ok || c.Val().Kind() != constant.Int {
				continue
			}
			all := true
			for _, x := range words {
				all = all && strings.Contains(strings.ToLower(n), x)
			}
			if all {
				v, exact := constant.Int64Val(c.Val())
				return v, n, exact
			}
		}
	}
	return 0, "", false
}

// trimmed: white space at the start was removed.
func trimmed(t *Term) bool {
	for t != nil && t.op == "call" && len(t.args) > 0 {
		f, ok := t.payload.(*ssa.Function)
		if !ok {
			return false
		}
		switch f.String() {
		case "strings.TrimSpace", "strings.TrimLeft", "strings.Trim", "strings.TrimLeftFunc", "strings.TrimFunc", "strings.TrimPrefix":
			return true
		case "strings.ToUpper", "strings.ToLower":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func checkC20(w *World, r *Result) {
	r.rule("On every way to the report of a decoded callsign: the text was compared with the known false positives and is none of them; the callsign is what the callsign parser returned without an error for that text; its prefix was found in the DXCC database, or there is none. The reported count is the former one plus one.")
	r.rule("A callsign is spotted only on ways on which the sum of its count and its weight was compared with the spotting threshold (a constant, or a running maximum that starts right below it and never falls), and it is never the empty callsign.")
	r.rule("On every way to a spot the callsign is the one spotted before, or there was none before, or that one was timed out before. Afterwards the spotted callsign is remembered as the last one. Nothing but a reset forgets it.")
	var out findings
	defer func() { r.addAll(out.list) }()

	thr, thrName, ok := w.constNamed("rx", "spot", "threshold")
	if !ok {
		r.assume("There is no named constant for the spotting threshold; 3 is taken.")
		thr, thrName = 3, "3"
	}
	// the function(s) that know the false positives
	fpText := map[string]bool{"tu5nn": true}
	fpFns := map[*ssa.Function]bool{}
	fpGlobals := map[*ssa.Global]bool{}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "rx") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					c, ok := (*o).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String || !fpText[constant.StringVal(c.Value)] {
						continue
					}
					if f.Name() == "init" {
						// a package variable: the functions that read it
						for _, bb := range f.Blocks {
							for _, i2 := range bb.Instrs {
								if s, ok := i2.(*ssa.Store); ok {
									if g, ok := s.Addr.(*ssa.Global); ok && initialises(s.Val, in) {
										fpGlobals[g] = true
									}
								}
							}
						}
						continue
					}
					fpFns[f] = true
				}
			}
		}
	}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "rx") || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && fpGlobals[g] {
						fpFns[f] = true
					}
				}
			}
		}
	}
	for f := range fpFns { // closures of it, and what contains it
		for _, g := range w.funcs {
			if g.Parent() == f {
				fpFns[g] = true
			}
		}
		for p := f.Parent(); p != nil; p = p.Parent() {
			fpFns[p] = true
		}
	}
	r.count("functions with known false positives", len(fpFns))
	// walks through the list
	for f := range fpFns {
		for _, l := range loopsOf(f) {
			coll, _, kind, why := l.walk()
			if sl, ok := coll.(*ssa.Slice); ok && (sl.Low != nil && !isZero(sl.Low) || sl.High != nil) {
				kind, why = walkPartial, "it walks through a part of them"
			}
			if coll != nil && kind == walkPartial {
				out.add("false-positives-skipped", "false-positives-skipped:"+fnKey(f), w.loopPos(l), fmt.Sprintf("%s does not compare with all known false positives: %s", fnKey(f), why))
			}
		}
	}

	roots := w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		return fnPkgIs(w, f, "rx") && repCall(in) != "" && fnPkgIs(w, f, "rx")
	})
	// forwarding methods of the reporters are not meant
	var own []*ssa.Function
	for _, f := range roots {
		if n := f.Name(); n == "CallsignDecoded" || n == "CallsignSpotted" || n == "SpotTimeout" {
			continue
		}
		own = append(own, f)
	}
	hasLast := false
	for fv := range fieldOwner {
		hasLast = hasLast || isLastField(fv)
	}
	if !hasLast {
		r.assume("the callsign that was spotted last is not kept as a callsign; whether a replaced spot is timed out was not decided")
	}
	// helpers are explored from the function that decodes; everything else from itself
	callers := w.callers()
	isTop := func(f *ssa.Function) bool {
		for _, g := range own {
			if g == f {
				continue
			}
			if w.reachableFrom([]*ssa.Function{g}, false, nil)[f] && !w.reachableFrom([]*ssa.Function{f}, false, nil)[g] {
				return false
			}
		}
		return true
	}
	_ = callers
	found := false
	for _, f := range own {
		hasDecoded := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				hasDecoded = hasDecoded || repCall(in) == "decoded" || repCall(in) == "spotted"
			}
		}
		if hasDecoded {
			found = true
		}
		if !isTop(f) {
			continue
		}
		var prev []*Finding
		gaveUp := false
		fs := w.climb(f, func(root *ssa.Function) []*Finding {
			if !gaveUp {
				if next, ok := w.collecting(r, root, own, fpFns, thr, thrName, hasLast); ok {
					prev = next
				} else {
					gaveUp = true
					r.assume("what happens before " + fnKey(root) + " calls " + fnKey(f) + " is not looked at")
				}
			}
			return prev
		})
		out.list = append(out.list, fs...)
	}
	r.need(found, "the function that reports decoded callsigns")
	r.floor("decoded reports (on some way)", 1)
	r.floor("spotted reports (on some way)", 1)

	w.lastSpotStores(r, &out, own)
}

// initialises: the instruction takes part in building the value.
func initialises(v ssa.Value, in ssa.Instruction) bool {
	if s, ok := v.(*ssa.Slice); ok {
		v = s.X
	}
	switch x := in.(type) {
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			return ia.X == v
		}
		return false
	case *ssa.MapUpdate:
		return x.Map == v
	case ssa.Value:
		return x == v
	}
	return false
}

// lastSpotField: the field of the text processor with the callsign that was spotted last.
func isLastField(fv *types.Var) bool {
	return fv != nil && isCallsignType(fv.Type()) && strings.HasPrefix(fieldOwner[fv], "rx.TextProcessor")
}

func (w *World) collecting(r *Result, root *ssa.Function, own []*ssa.Function, fpFns map[*ssa.Function]bool, thr int64, thrName string, hasLast bool) ([]*Finding, bool) {
	var out findings
	name := fnKey(root)
	owners := map[string]bool{}
	for _, f := range own {
		if f.Signature.Recv() != nil {
			owners[typeStr(deref(f.Signature.Recv().Type()))] = true
		}
	}
	var ex *Explorer
	badMax := map[*ssa.Phi]string{}
	needMax := map[*ssa.Phi]bool{}
	var countVar, weightVar *types.Var
	boolT := types.Typ[types.Bool]

	prefixCall := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && c.Call.Signature() != nil && prefixFind(c.Call.Signature())
	}
	parseCall := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Call.StaticCallee()
		return g != nil && g.Name() == "Parse" && g.Signature.Results().Len() == 2 && isCallsignType(g.Signature.Results().At(0).Type())
	}
	// text of a callsign: String() of the term
	textOf := func(t *Term) *Term {
		for t != nil && t.op == "call" && len(t.args) > 0 {
			f, ok := t.payload.(*ssa.Function)
			if !ok {
				return nil
			}
			if f.Name() == "String" && isCallsignType(t.args[0].typ) {
				return t.args[0]
			}
			t = stripText(t)
			if t.op == "call" && t.payload == any(f) {
				return nil
			}
		}
		return nil
	}
	intField := func(t *Term) *types.Var {
		if t == nil {
			return nil
		}
		if t.op == "sym" && t.src != nil && t.src.op == "&" {
			v, _ := t.src.payload.(*types.Var)
			return v
		}
		if t.op == "field" || t.op == "*" && t.args[0].op == "&" {
			if t.op == "*" {
				t = t.args[0]
			}
			v, _ := t.payload.(*types.Var)
			return v
		}
		return nil
	}
	isSum := func(t *Term) bool {
		if t == nil || t.op != "+" || len(t.args) != 2 {
			return false
		}
		ok := func(x *Term) *types.Var { return intField(x) }
		a, b := ok(t.args[0]), ok(t.args[1])
		if a != nil && b != nil {
			return a != b
		}
		// the count of this very report: count+1 and the weight
		return false
	}
	unknownSum := func(t *Term) bool { // a number that is kept under a name of its own
		v := intField(t)
		return v != nil && v != countVar && v != weightVar && strings.HasPrefix(fieldOwner[v], "rx.")
	}
	maxPhi := func(t *Term) *ssa.Phi {
		if t.op != "sym" {
			return nil
		}
		phi, ok := t.payload.(*ssa.Phi)
		if !ok || loopWithHeader(phi.Block()) == nil {
			return nil
		}
		return phi
	}
	// lowMax: the running maximum starts at least at the threshold minus one
	lowMax := func(phi *ssa.Phi) bool {
		l := loopWithHeader(phi.Block())
		for i, e := range phi.Edges {
			if l.blocks[phi.Block().Preds[i]] {
				continue
			}
			k, ok := constInt(e)
			if !ok || k < thr-1 {
				return false
			}
		}
		return true
	}
	// reaches: the branch shows that a weighted count is at least the threshold (2), at least equal to a maximum that reached it (1), or nothing (0)
	var reaches func(st *State, c *Term, taken bool) int
	reaches = func(st *State, c *Term, taken bool) int {
		for c.op == "not" {
			c, taken = c.args[0], !taken
		}
		if c.op == "any" || len(c.args) != 2 {
			return 0
		}
		x, y := c.args[0], c.args[1]
		is := func(t *Term) bool {
			if isSum(t) {
				return true
			}
			if unknownSum(t) {
				st.set("unknown")
				return true
			}
			return false
		}
		num := func(t *Term) (int64, bool) {
			if t.cval != nil && t.cval.Kind() == constant.Int {
				return constant.Int64Val(t.cval)
			}
			return 0, false
		}
		var sum, other *Term
		strict := false
		switch {
		case c.op == "lt" && taken && is(y):
			sum, other, strict = y, x, true
		case c.op == "lt" && !taken && is(x):
			sum, other = x, y
		case c.op == "le" && taken && is(y):
			sum, other = y, x
		case c.op == "le" && !taken && is(x):
			sum, other, strict = x, y, true
		case c.op == "eq" && taken && is(x):
			sum, other = x, y
		case c.op == "eq" && taken && is(y):
			sum, other = y, x
		default:
			return 0
		}
		_ = sum
		if k, ok := num(other); ok {
			if strict {
				k++
			}
			if k >= thr {
				return 2
			}
			return 0
		}
		if phi := maxPhi(other); phi != nil {
			if strict && lowMax(phi) {
				needMax[phi] = true
				return 2
			}
			return 1
		}
		if isSum(other) || unknownSum(other) { // the sum of the best one so far
			return 1
		}
		return 0
	}
	elemLike := func(t types.Type) bool {
		if isCallsignType(t) {
			return true
		}
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if isCallsignType(s.Field(i).Type()) {
				return namedOf(deref(t)) != nil && !strings.HasPrefix(typeStr(deref(t)), "TextProcessor")
			}
		}
		return false
	}
	changed := func(st *State) { // another callsign is the best one
		if st.has("iter") {
			st.set("reached")
		} else {
			st.unset("reached")
		}
	}
	lastOf := func(st *State) *Term { return st.rs["last"] }
	prevOf := func(st *State) *Term { return st.rs["prev"] }
	noCall := func(st *State, t *Term) int {
		if t.op == "zero" {
			return 1
		}
		return ex.decide(st, ex.eq(t, ex.ts.App("zero", t.typ, t.typ)))
	}
	setLast := func(st *State, addr, val *Term, store bool) {
		if addr.op == "&" {
			if fv, ok := addr.payload.(*types.Var); ok && isLastField(fv) {
				if prevOf(st) == nil {
					t := val
					if store {
						t = ex.ts.App("*", nil, fv.Type(), addr)
					}
					st.setT("prev", t)
				}
				if store {
					st.set("stored")
				}
				st.setT("last", val)
			}
		}
	}
	isFP := func(t *Term) bool {
		for t.op == "not" {
			t = t.args[0]
		}
		_, ok := ex.fp[t]
		return ok
	}
	ex = newExplorer(w, &Rule{
		Interesting: func(in ssa.Instruction) bool {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isLastField(fieldVar(fa.X.Type(), fa.Field)) {
					return true
				}
			}
			return repCall(in) != "" || parseCall(in) || prefixCall(in)
		},
		NoInline: func(f *ssa.Function) bool {
			if ex.reach(f) || fpFns[f] || f.Signature.Recv() == nil {
				return false
			}
			t := f.Signature.Recv().Type()
			return !elemLike(t) && !owners[typeStr(deref(t))]
		},
		Inline: func(f *ssa.Function) bool {
			if fpFns[f] {
				return true
			}
			if !fnPkgIs(w, f, "rx") {
				return false
			}
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if elemLike(res.At(i).Type()) {
					return true
				}
			}
			return false
		},
		OnAlloc: func(ex *Explorer, st *State, in *ssa.Alloc, t *Term) {
			if elemLike(deref(in.Type())) {
				st.setT("zero:"+t.String(), t)
			}
		},
		OnLoad: func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term) {
			if addr.op == "global" && isCallsignType(in.Type()) { // callsign.NoCallsign
				st.top().regs[in] = ex.ts.App("zero", in.Type(), in.Type())
				return
			}
			if addr.op == "&" && isCallsignType(in.Type()) && !isPtr(in.Type()) && st.has("zero:"+addr.args[0].String()) {
				st.top().regs[in] = ex.ts.App("zero", in.Type(), in.Type())
				return
			}
			if fv, ok := addr.payload.(*types.Var); ok && addr.op == "&" && isLastField(fv) && st.has("stored") {
				st.top().regs[in] = lastOf(st)
				return
			}
			setLast(st, addr, val, false)
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			if p := in.Parent(); fpFns[p] && (p != root || loopWithHeader(in.Block()) != nil) {
				st.set("fpcall")
			}
			var key ssa.Value
			switch in := in.(type) {
			case *ssa.Lookup:
				if mt, ok := in.X.Type().Underlying().(*types.Map); ok && elemLike(mt.Elem()) {
					key = in.Index
				}
			case *ssa.MapUpdate:
				if mt, ok := in.Map.Type().Underlying().(*types.Map); ok && elemLike(mt.Elem()) {
					key = in.Key
				}
			}
			if key != nil {
				r.count("keys of the counted callsigns (on some way)", 1)
				v := intField(ex.val(st, key))
				if f, ok := key.(*ssa.Field); ok && v == nil {
					v = fieldVar(f.X.Type(), f.Field)
				}
				if v != nil && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "hamradio/callsign") {
					out.add("key", "key:"+fnKey(in.Parent()), w.ipos(in), fmt.Sprintf("%s counts all callsigns with the same %s as one", fnKey(in.Parent()), v.Name()), st.traceText(8)...)
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				if a := ex.val(st, in.Addr); a.op == "alloc" {
					st.unset("zero:" + a.String())
				} else if a.op == "&" {
					st.unset("zero:" + a.args[0].String())
				}
				setLast(st, ex.val(st, in.Addr), ex.val(st, in.Val), true)
				if v := storeField(in); v != nil {
					if a := ex.val(st, in.Addr); a.op == "&" && a.args[0].op == "alloc" {
						if _, ok := in.Val.(*ssa.BinOp); !ok {
							st.setT("first:"+fieldKey(v), ex.val(st, in.Val))
						}
					}
					if bo, ok := in.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
						for i, x := range []ssa.Value{bo.X, bo.Y} {
							y := []ssa.Value{bo.Y, bo.X}[i]
							if c, ok := y.(*ssa.Const); ok && c.Value != nil && w.srcFields(x)[v] {
								if n, ok := constInt(c); ok && n == 1 {
									st.set("counted:" + fieldKey(v))
								} else {
									st.set("miscounted:" + fieldKey(v))
								}
							}
						}
					}
				}
				if a, ok := in.Addr.(*ssa.Alloc); ok && elemLike(deref(a.Type())) && onLoop(in.Block()) && !w.sameLoop(a, in) {
					changed(st)
				}
			case *ssa.Lookup:
				if fpFns[in.Parent()] && typeStr(in.Index.Type()) == "string" && !in.CommaOk {
					st.setT("fp", ex.val(st, in.Index))
				}
			case *ssa.BinOp:
				if fpFns[in.Parent()] && (in.Op == token.EQL || in.Op == token.NEQ) && typeStr(in.X.Type()) == "string" {
					x, y := ex.val(st, in.X), ex.val(st, in.Y)
					if x.isConst() {
						x, y = y, x
					}
					st.setT("fp", x)
					ex.fp[ex.eq(x, y)] = true
				}
			}
		},
		OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) {
			if loopWithHeader(b) != nil {
				st.unset("iter")
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if isNumeric(phi.Type()) && lowMax(phi) || elemLike(phi.Type()) {
						st.setT("best:"+phi.Name(), ex.val(st, phi))
					}
				}
			}
		},
		OnEdge: func(ex *Explorer, st *State, b *ssa.BasicBlock, pi int) {
			l := loopWithHeader(b)
			if l == nil || !l.blocks[b.Preds[pi]] {
				return
			}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				old, next := st.rs["best:"+phi.Name()], ex.val(st, phi.Edges[pi])
				if old == nil {
					continue
				}
				if old == next {
					continue
				}
				switch {
				case elemLike(phi.Type()):
					changed(st)
				case isNumeric(phi.Type()) && lowMax(phi):
					if ex.decide(st, ex.binop(token.LSS, old, next, boolT, phi.Type())) != 1 && ex.decide(st, ex.eq(old, next)) != 1 {
						badMax[phi] = w.pos(phi.Pos())
					}
				}
			}
		},
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
			c, tk := cond, taken
			for c.op == "not" {
				c, tk = c.args[0], !tk
			}
			if isFP(c) && tk {
				st.set("fphit")
			}
			if c.op == "eq" && tk {
				for i, x := range c.args {
					if c.args[1-i] == ex.ts.Nil && x.typ != nil && isPrefixDB(x.typ) {
						st.set("nodxcc")
					}
				}
			}
			switch reaches(st, c, tk) {
			case 2:
				st.set("reached")
				st.set("iter")
			case 1:
				if st.has("reached") {
					st.set("iter")
				}
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			if c.fn != nil && c.fn.Pkg != nil {
				switch c.fn.Pkg.Pkg.Path() {
				case "slices", "sort", "maps":
					st.set("elsewhere")
				}
			} else if c.fn != nil && c.fn.Origin() != nil && c.fn.Origin().Pkg != nil && c.fn.Origin().Pkg.Pkg.Path() != "" && !w.inRepo(c.fn) {
				st.set("elsewhere")
			}
			what := repCall(in)
			switch what {
			case "decoded":
				r.count("decoded reports (on some way)", 1)
				st.unset("prev")
				st.unset("timeout")
				call := textOf(args[len(args)-3])
				if n := args[len(args)-2]; n != nil {
					if v := intField(n); v != nil {
						countVar = v
					} else if n.op == "+" {
						for _, a := range n.args {
							if v := intField(a); v != nil {
								countVar = v
							}
						}
					}
				}
				if v := intField(args[len(args)-1]); v != nil {
					weightVar = v
				}
				at := w.ipos(in)
				add := func(rule, msg string) {
					out.add(rule, rule+":"+fnKey(in.Parent()), at, fnKey(in.Parent())+" "+msg, st.traceText(8)...)
				}
				e := st.rs["err"]
				switch {
				case e == nil:
					add("not-parsed", "reports a callsign that was not parsed")
					return
				case ex.decide(st, ex.eq(e, ex.ts.Nil)) != 1:
					add("not-parsed", "reports a callsign although the parser may have returned an error")
				}
				if call == nil || call != st.rs["call"] && !ownEntry(call) {
					add("other-callsign", "reports something else than the callsign that was parsed")
				}
				if !st.has("nodxcc") {
					switch d := st.rs["dxcc"]; {
					case d == nil:
						add("no-prefix", "reports a callsign without looking up its prefix in the DXCC database")
					case ex.decide(st, d) != 1:
						add("no-prefix", "reports a callsign although its prefix was not found in the DXCC database")
					}
				}
				fp := st.rs["fp"]
				switch {
				case st.has("fphit"):
					add("false-positive", "reports a known false positive")
				case fp == nil && !st.has("fpcall"):
					add("false-positive", "reports a callsign without comparing the text with the known false positives")
				case fp != nil:
					if p := st.rs["text"]; p != nil && p != fp && stripText(p) == stripText(fp) && trimmed(p) && !trimmed(fp) {
						add("false-positive", "compares the text with the known false positives before the white space at its start is removed")
					}
				}
				n := args[len(args)-2]
				if v := countVar; v != nil {
					if t := st.rs["first:"+fieldKey(v)]; t != nil {
						var same func(t *Term, d int) bool
						same = func(t *Term, d int) bool {
							if intField(t) == v {
								return true
							}
							for _, a := range t.args {
								if d < 6 && same(a, d+1) {
									return true
								}
							}
							return false
						}
						switch {
						case t.cval != nil && !isIntConst(t, 0) && (!isIntConst(t, 1) || st.has("counted:"+fieldKey(v))), t.cval == nil && !same(t, 0):
							add("count", "does not start to count at one")
						}
					}
				}
				if n.op == "+" && len(n.args) == 2 {
					for i, a := range n.args {
						if a.cval != nil && intField(n.args[1-i]) != nil && !isIntConst(a, 1) {
							add("count", "adds more or less than one to the count of a callsign that was decoded once")
						}
					}
				} else if v := intField(n); v != nil && n.src != nil {
					if st.has("miscounted:" + fieldKey(v)) {
						add("count", "adds more or less than one to the count of a callsign that was decoded once")
					} else if !st.has("counted:"+fieldKey(v)) && n.src.op == "&" && n.src.args[0].op == "alloc" {
						add("count", "does not add one to the count of a callsign that was decoded")
					}
				} else if n.cval != nil && !isIntConst(n, 1) {
					add("count", "does not start to count at one")
				}
			case "timeout":
				r.count("timed out spots (on some way)", 1)
				t, l := textOf(args[len(args)-1]), prevOf(st)
				if t == nil {
					return
				}
				st.setT("timeout", t)
				if l != nil && t != l && ex.decide(st, ex.eq(t, l)) != 1 {
					out.add("wrong-timeout", "wrong-timeout:"+fnKey(in.Parent()), w.ipos(in), fmt.Sprintf("%s times out another callsign than the one that was spotted last", fnKey(in.Parent())), st.traceText(8)...)
				}
			case "spotted":
				r.count("spotted reports (on some way)", 1)
				add := func(rule, msg string) {
					out.add(rule, rule+":"+fnKey(in.Parent()), w.ipos(in), fnKey(in.Parent())+" "+msg, st.traceText(8)...)
				}
				b := textOf(args[len(args)-1])
				if b == nil {
					if st.has("elsewhere") {
						r.assume("what is spotted is no text of a callsign; its selection was not decided")
						return
					}
					b = args[len(args)-1]
				}
				if b.typ != nil && isCallsignType(b.typ) && noCall(st, b) == 1 {
					add("empty-callsign", "spots the empty callsign when no callsign was selected")
					return
				}
				if !st.has("reached") {
					if st.has("elsewhere") || st.has("unknown") {
						r.assume("the selection of the spotted callsign in " + name + " was not decided completely")
					} else {
						add("not-confirmed", fmt.Sprintf("spots a callsign whose weighted count was not shown to reach the threshold %s = %d", thrName, thr))
					}
				}
				l := prevOf(st)
				same := l != nil && (l == b || ex.decide(st, ex.eq(l, b)) == 1)
				none := l != nil && noCall(st, l) == 1
				done := st.rs["timeout"] != nil && l != nil && (st.rs["timeout"] == l || ex.decide(st, ex.eq(st.rs["timeout"], l)) == 1)
				if hasLast && !same && !none && !done {
					add("not-timed-out", "spots a callsign without timing out the one that was spotted before on the same signal")
				}
				if done && same && l != nil {
					add("wrong-timeout", "times out a callsign that is not replaced")
				}
				st.setT("spotted", b)
			}
			if parseCall(in) {
				st.setT("text", args[0])
			}
			if fpFns[in.Parent()] && c.fn != nil && !w.inRepo(c.fn) {
				switch c.fn.String() {
				case "strings.HasPrefix", "strings.Contains", "strings.EqualFold", "strings.HasSuffix", "strings.Compare":
					st.setT("fp", args[0])
				default:
					if inGeneric(c.fn, "slices", "ContainsFunc", "Contains", "IndexFunc") || strings.HasPrefix(c.fn.String(), "(*regexp.Regexp)") {
						st.set("fpcall")
					}
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if res == nil {
				return
			}
			if v, ok := in.(ssa.Value); ok && c.fn != nil && c.fn.Name() == "String" && len(args) == 1 && c.fn.Signature.Recv() != nil && isCallsignType(c.fn.Signature.Recv().Type()) && args[0].typ != nil {
				st.top().regs[v] = ex.ts.App("call", c.fn, v.Type(), args[0])
				return
			}
			if parseCall(in) && res.op == "tuple" {
				st.setT("call", res.args[0])
				st.setT("err", res.args[1])
			}
			if prefixCall(in) && res.op == "tuple" {
				st.setT("dxcc", res.args[1])
			}
			if fpFns[in.Parent()] && c.fn != nil && !w.inRepo(c.fn) {
				switch c.fn.String() {
				case "strings.HasPrefix", "strings.Contains", "strings.EqualFold":
					ex.fp[res] = true
				default:
					if inGeneric(c.fn, "slices", "ContainsFunc", "Contains") {
						ex.fp[res] = true
					}
				}
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			b := st.rs["spotted"]
			if b == nil || !hasLast {
				return
			}
			l := lastOf(st)
			if l == nil || l != b && ex.decide(st, ex.eq(l, b)) != 1 {
				out.add("not-remembered", "not-remembered:"+name, w.pos(root.Pos()), fmt.Sprintf("%s does not remember the callsign it spotted: it will not be timed out when it is replaced", name), st.traceText(8)...)
			}
		},
	})
	ex.fp = map[*Term]bool{}
	ex.budget = 600000
	ex.Run(root, nil)
	if ex.over {
		return nil, false
	}
	for phi := range needMax {
		if p, bad := badMax[phi]; bad {
			out.add("maximum-falls", "maximum-falls:"+fnKey(phi.Parent()), p, fmt.Sprintf("%s: the running maximum of the weighted counts can fall: callsigns below the threshold can be selected", fnKey(phi.Parent())))
		}
	}
	if os.Getenv("SDCHECK_DEBUG") != "" {
		for _, f := range out.list {
			fmt.Fprintln(os.Stderr, name, ex.steps, f.Rule, f.Pos, f.Msg, strings.Join(f.Detail, "; "))
		}
	}
	return out.list, true
}

func inGeneric(f *ssa.Function, pkg string, names ...string) bool {
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	if g.Pkg == nil || g.Pkg.Pkg.Path() != pkg {
		return false
	}
	for _, n := range names {
		if g.Name() == n {
			return true
		}
	}
	return false
}

// ownEntry: the callsign comes from what was collected before.
func ownEntry(t *Term) bool {
	if !isCallsignType(t.typ) {
		return false
	}
	if t.op == "*" && t.args[0].op == "&" || t.op == "field" {
		return true
	}
	return t.op == "sym" && t.src != nil
}

// sameLoop: the variable lives within the innermost loop of the instruction.
func (w *World) sameLoop(a *ssa.Alloc, in ssa.Instruction) bool {
	for _, l := range loopsOf(in.Parent()) {
		if l.blocks[in.Block()] && !l.blocks[a.Block()] {
			return false
		}
	}
	return true
}

// lastSpotStores: who else changes the callsign that was spotted last.
func (w *World) lastSpotStores(r *Result, out *findings, own []*ssa.Function) {
	near := w.reachableFrom(own, false, nil)
	spots := map[*ssa.Function]bool{}
	for _, f := range own {
		spots[f] = true
	}
	for _, f := range w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && isLastField(fieldVar(fa.X.Type(), fa.Field)) && !freshAlloc(fa.X)
	}) {
		r.count("functions that change the last spot", 1)
		if near[f] {
			continue
		}
		// a reset also forgets what was collected
		resets := false
		reach := w.reachableFrom([]*ssa.Function{f}, false, nil)
		for g := range reach {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "clear" || bi.Name() == "delete") {
							resets = true
						}
					}
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							if m, ok := deref(fa.Type()).Underlying().(*types.Map); ok && strings.HasPrefix(fieldOwner[fieldVar(fa.X.Type(), fa.Field)], "rx.TextProcessor") && m != nil {
								resets = true
							}
						}
					}
				}
			}
		}
		for _, c := range w.callers().sync[f] {
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					if cc, ok := in.(*ssa.Call); ok {
						if bi, ok := cc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "clear" {
							resets = true
						}
					}
				}
			}
		}
		if !resets {
			out.add("forgotten", "forgotten:"+fnKey(f), w.pos(f.Pos()), fmt.Sprintf("%s changes which callsign was spotted last, but neither spots one nor starts over: the spot will not be timed out when it is replaced", fnKey(f)))
		}
	}
}

func freshAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func isZero(v ssa.Value) bool { k, ok := constInt(v); return ok && k == 0 }
