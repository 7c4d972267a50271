package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkC23
	checks["C24"] = checkC24
}

func isSymbolType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Symbol" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "digimodes/cw")
}

// isCharType: an array of Morse symbols.
func isCharType(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isSymbolType(a.Elem())
}

func charLen(t types.Type) int64 { return t.Underlying().(*types.Array).Len() }

// morse is the code table of the Morse library, evaluated from its source.
type morse struct {
	symbols map[string]string // Dit -> "1,true"
	code    map[string][]string
	file    string
}

func (w *World) morseTable() (*morse, string) {
	var dir string
	for _, p := range w.pkgs {
		for path, imp := range p.Imports {
			if strings.HasSuffix(path, "digimodes/cw") && len(imp.GoFiles) > 0 {
				dir = filepath.Dir(imp.GoFiles[0])
			}
		}
	}
	if dir == "" {
		return nil, "the package with the Morse code table is not used any more"
	}
	m := &morse{symbols: map[string]string{}, code: map[string][]string{}, file: dir}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err.Error()
	}
	var lit *ast.CompositeLit
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, err.Error()
		}
		ast.Inspect(f, func(n ast.Node) bool {
			v, ok := n.(*ast.ValueSpec)
			if !ok {
				return true
			}
			for i, id := range v.Names {
				if i >= len(v.Values) {
					break
				}
				c, ok := v.Values[i].(*ast.CompositeLit)
				if !ok {
					continue
				}
				if id.Name == "Code" {
					lit = c
				} else if t, ok := c.Type.(*ast.Ident); ok && t.Name == "Symbol" {
					var vs []string
					for _, e := range c.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							e = kv.Value
						}
						vs = append(vs, types.ExprString(e))
					}
					m.symbols[id.Name] = strings.Join(vs, ",")
				}
			}
			return true
		})
	}
	if lit == nil {
		return nil, "the Morse code table is no composite literal"
	}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil, "the Morse code table has an unexpected form"
		}
		c, ok := kv.Value.(*ast.CompositeLit)
		if !ok {
			return nil, "the Morse code table has an unexpected form"
		}
		var seq []string
		for _, s := range c.Elts {
			seq = append(seq, types.ExprString(s))
		}
		m.code[types.ExprString(kv.Key)] = seq
	}
	return m, ""
}

// noSymbolTerm: the value of an empty place: the zero symbol, or the package variable for it.
func (w *World) emptySymbols(pkg string) (globals map[*ssa.Global]bool, problem string) {
	globals = map[*ssa.Global]bool{}
	for path, sp := range w.spkgs {
		if shortPkg(path) != pkg {
			continue
		}
		for _, mem := range sp.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || !isSymbolType(deref(g.Type())) {
				continue
			}
			globals[g] = true
		}
	}
	return globals, ""
}

// charMethod checks what an operation on a character does, by its signature. The result is "" (fine), a problem, or "?" (not decided).
func (w *World) charMethod(f *ssa.Function, empties map[*ssa.Global]bool) (kind, problem string, pos string) {
	if len(f.Params) == 0 || len(f.Blocks) == 0 {
		return "", "", ""
	}
	p := f.Params[0]
	if !isPtr(p.Type()) || !isCharType(deref(p.Type())) {
		return "", "", ""
	}
	pos = w.pos(f.Pos())
	N := charLen(deref(p.Type()))
	isEmptyVal := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Const); ok {
			return c.Value == nil
		}
		if u, ok := v.(*ssa.UnOp); ok {
			g, ok := u.X.(*ssa.Global)
			return ok && empties[g]
		}
		return false
	}
	var stores []*ssa.Store
	whole := false
	calls := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && ia.X == p {
					stores = append(stores, in)
				} else if in.Addr == p {
					stores = append(stores, in)
					whole = true
				}
			case *ssa.Call:
				if len(in.Call.Args) > 0 && in.Call.Args[0] == p {
					calls = true
				}
			}
		}
	}
	// indices: walking through all places, in order
	loops := loopsOf(f)
	fullWalk := func(l *Loop) (ssa.Value, string) { // index, problem
		coll, idx, k, why := l.walk()
		if sl, ok := coll.(*ssa.Slice); ok && (sl.Low != nil && !isZero(sl.Low) || sl.High != nil) {
			return nil, "it walks through a part of the places only"
		}
		if coll != nil {
			if k == walkPartial {
				return nil, why
			}
			if k == walkFull {
				return idx, ""
			}
		}
		// over a constant number of places
		hi, body := l.headerIf()
		if hi == nil {
			return nil, "?"
		}
		c, ok := hi.Cond.(*ssa.BinOp)
		if !ok || body != 0 || c.Op != token.LSS {
			return nil, "?"
		}
		k2, isC := constInt(c.Y)
		start, step, iv := induction(l, c.X)
		if !isC || !iv {
			return nil, "?"
		}
		switch {
		case start != 0:
			return nil, fmt.Sprintf("it starts at place %d", start)
		case step != 1:
			return nil, "it leaves places out"
		case k2 < N:
			return nil, "it ends before the last place"
		}
		return c.X, ""
	}
	sig := f.Signature
	var syms *ssa.Parameter
	var symSlice *ssa.Parameter
	for _, q := range f.Params[1:] {
		if isSymbolType(q.Type()) {
			syms = q
		}
		if s, ok := q.Type().Underlying().(*types.Slice); ok && isSymbolType(s.Elem()) {
			symSlice = q
		}
	}
	boolRes := sig.Results().Len() == 1 && typeStr(sig.Results().At(0).Type()) == "bool"
	intRes := sig.Results().Len() == 1 && typeStr(sig.Results().At(0).Type()) == "int"
	walkAll := func() (map[ssa.Value]bool, string) {
		idx := map[ssa.Value]bool{}
		for _, l := range loops {
			i, why := fullWalk(l)
			if why != "" {
				return nil, why
			}
			if i != nil {
				idx[i] = true
			}
		}
		return idx, ""
	}
	loadsPlace := func(v ssa.Value) (ssa.Value, bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.X == p {
				return ia.Index, true
			}
		}
		return nil, false
	}
	switch {
	case syms != nil && boolRes && len(stores) > 0:
		kind = "append"
		if calls {
			return kind, "?", pos
		}
		_, why := walkAll()
		if why != "" {
			return kind, why, pos
		}
		if len(loops) == 0 {
			return kind, "?", pos
		}
		for _, s := range stores {
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || s.Val != ssa.Value(syms) {
				return kind, "it stores something else than the symbol", w.ipos(s)
			}
			// the store is guarded by "this place is empty"
			guarded := false
			for _, b := range f.Blocks {
				hi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				c, ok := hi.Cond.(*ssa.BinOp)
				if !ok || c.Op != token.EQL && c.Op != token.NEQ {
					continue
				}
				x, y := c.X, c.Y
				if isEmptyVal(x) {
					x, y = y, x
				}
				i, isPlace := loadsPlace(x)
				if !isPlace || !isEmptyVal(y) || i != ia.Index {
					continue
				}
				succ := b.Succs[0]
				if c.Op == token.NEQ {
					succ = b.Succs[1]
				}
				if succ == s.Block() || succ.Dominates(s.Block()) && len(succ.Preds) == 1 {
					guarded = true
				}
			}
			if !guarded {
				return kind, "it stores the symbol in a place that may not be empty", w.ipos(s)
			}
			// and nothing else follows: the function returns true
			if !returnsOnly(s.Block(), true) {
				return kind, "it does not return true right after it stored the symbol", w.ipos(s)
			}
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				c, ok := r.Results[0].(*ssa.Const)
				if !ok {
					return kind, "?", pos
				}
				stored := false
				for _, s := range stores {
					stored = stored || s.Block().Dominates(b)
				}
				if constant.BoolVal(c.Value) != stored {
					return kind, "its result does not tell whether the symbol was stored", w.ipos(r)
				}
			}
		}
		return kind, "", pos
	case symSlice != nil && len(stores) > 0:
		kind = "set"
		if calls || whole {
			return kind, "?", pos
		}
		idx, why := walkAll()
		if why != "" {
			return kind, why, pos
		}
		if len(loops) != 1 {
			return kind, "?", pos
		}
		l := loops[0]
		copies := false
		for _, s := range stores {
			ia := s.Addr.(*ssa.IndexAddr)
			if isEmptyVal(s.Val) {
				continue
			}
			u, ok := s.Val.(*ssa.UnOp)
			if !ok {
				return kind, "it stores something else than the symbols", w.ipos(s)
			}
			src, ok := u.X.(*ssa.IndexAddr)
			if !ok || src.X != ssa.Value(symSlice) {
				return kind, "it stores something else than the symbols", w.ipos(s)
			}
			if src.Index != ia.Index {
				return kind, "it stores a symbol in another place than its own", w.ipos(s)
			}
			if !idx[ia.Index] {
				return kind, "?", pos
			}
			copies = true
		}
		if !copies {
			return kind, "it does not store the symbols", pos
		}
		// every branch in the loop is the comparison of the index with the number of symbols
		for b := range l.blocks {
			hi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b == l.header {
				continue
			}
			c, ok := hi.Cond.(*ssa.BinOp)
			if !ok {
				return kind, "?", pos
			}
			x, op, y := c.X, c.Op, c.Y
			if idx[y] {
				x, y = y, x
				op = map[token.Token]token.Token{token.GTR: token.LSS, token.LEQ: token.GEQ, token.LSS: token.GTR, token.GEQ: token.LEQ}[op]
			}
			_, off, lc := lenPlus(y)
			if !idx[x] || lc != ssa.Value(symSlice) {
				return kind, "it leaves out symbols under a condition", w.ipos(hi)
			}
			switch {
			case off == 0 && (op == token.LSS || op == token.GEQ):
			default:
				return kind, "it does not copy exactly the symbols there are", w.ipos(hi)
			}
			yes := b.Succs[0]
			if op == token.GEQ {
				yes = b.Succs[1]
			}
			hasCopy := false
			for _, s := range stores {
				hasCopy = hasCopy || s.Block() == yes && !isEmptyVal(s.Val)
			}
			if !hasCopy {
				return kind, "it does not store a symbol that is there", w.ipos(hi)
			}
		}
		return kind, "", pos
	case sig.Results().Len() == 0 && len(stores) > 0 && syms == nil:
		kind = "clear"
		for _, s := range stores {
			if !isEmptyVal(s.Val) {
				return kind, "?", pos
			}
		}
		if whole {
			return kind, "", pos
		}
		idx, why := walkAll()
		if why != "" {
			return kind, why, pos
		}
		if len(loops) != 1 {
			return kind, "?", pos
		}
		for _, s := range stores {
			if !idx[s.Addr.(*ssa.IndexAddr).Index] {
				return kind, "?", pos
			}
			for _, latch := range loops[0].header.Preds {
				if loops[0].blocks[latch] && !s.Block().Dominates(latch) {
					return kind, "it leaves places out under a condition", w.ipos(s)
				}
			}
		}
		return kind, "", pos
	case len(stores) == 0 && boolRes && syms == nil && len(f.Params) == 1:
		kind = "pred"
		if strings.Contains(strings.ToLower(f.Name()), "empty") {
			kind = "empty"
		}
		if len(f.Blocks) != 1 {
			return kind, "?", pos
		}
		r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok {
			return kind, "?", pos
		}
		c, ok := r.Results[0].(*ssa.BinOp)
		if !ok {
			return kind, "?", pos
		}
		x, op, y := c.X, c.Op, c.Y
		if call, ok := x.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee() != f {
			k, isC := constInt(y)
			if lk, lp, _ := w.charMethod(call.Call.StaticCallee(), empties); lk == "len" && lp == "" && isC && len(call.Call.Args) == 1 && call.Call.Args[0] == ssa.Value(p) {
				switch {
				case k == 0 && (op == token.EQL || op == token.LEQ), k == 1 && op == token.LSS:
					return "empty", "", pos
				case k == N && (op == token.EQL || op == token.GEQ), k == N-1 && op == token.GTR:
					return "full", "", pos
				}
			}
			return kind, "?", pos
		}
		if isEmptyVal(x) {
			x, y = y, x
		}
		if i, isPlace := loadsPlace(x); isPlace && isEmptyVal(y) {
			k, ok := constInt(i)
			switch {
			case ok && op == token.NEQ && k == N-1:
				return "full", "", pos
			case ok && op == token.NEQ && kind == "pred":
				return "pred", "?", pos
			case ok && op == token.EQL && k != 0:
				return "empty", fmt.Sprintf("it looks at place %d only", k), pos
			case ok && op == token.EQL:
				return "empty", "", pos
			}
		}
		return kind, "?", pos
	case len(stores) == 0 && intRes && syms == nil:
		return "len", "", pos
	}
	return "", "", pos
}

// returnsOnly: what follows in the block and the blocks after it ends with "return v" without changing anything.
func returnsOnly(b *ssa.BasicBlock, v bool) bool {
	for i := 0; i < 4; i++ {
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			c, ok := last.Results[0].(*ssa.Const)
			return ok && c.Value != nil && constant.BoolVal(c.Value) == v
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

func checkC23(w *World, r *Result) {
	r.rule("Each sequence of the code table fits into a character, no two characters have the same one, no sequence is empty, and the symbols of the table are different from each other and from the empty place (evaluated from the source of the table).")
	r.rule("The decode table is built by a walk through the whole code table; each pass enters the character itself under exactly its symbols, all of them, each in its own place; nothing else changes the decode table.")
	var out findings
	defer func() { r.addAll(out.list) }()
	m, why := w.morseTable()
	if m == nil {
		r.assume(why + "; the property was not decided")
		return
	}
	r.count("characters in the code table", len(m.code))
	r.floor("characters in the code table", 30)
	empties, _ := w.emptySymbols("cw")

	// the type of a character: key of the decode table
	isTable := func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && isCharType(mt.Key())
	}
	var char types.Type
	var updates []*ssa.MapUpdate
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "cw") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isTable(mu.Map.Type()) {
					updates = append(updates, mu)
					char = mu.Map.Type().Underlying().(*types.Map).Key()
				}
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isTable(c.Call.Args[0].Type()) {
						out.add("removed", "removed:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s removes characters from the decode table", fnKey(f)))
					}
				}
			}
		}
	}
	if char == nil {
		r.assume("there is no decode table with arrays of symbols as keys; the property was not decided")
		return
	}
	N := charLen(char)
	bySeq := map[string][]string{}
	var names []string
	for c := range m.code {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		seq := m.code[c]
		var vals []string
		for _, s := range seq {
			v, ok := m.symbols[s]
			if !ok {
				v = s
			}
			vals = append(vals, v)
		}
		k := strings.Join(vals, " ")
		bySeq[k] = append(bySeq[k], c)
		if int64(len(seq)) > N {
			out.add("too-long", "too-long:"+c, w.typePos(char), fmt.Sprintf("the sequence of %s has %d symbols, but a character has only %d places", c, len(seq), N))
		}
		if len(seq) == 0 {
			out.add("empty-sequence", "empty-sequence:"+c, m.file, fmt.Sprintf("%s has no symbols", c))
		}
	}
	for _, cs := range bySeq {
		if len(cs) > 1 {
			out.add("ambiguous", "ambiguous:"+strings.Join(cs, ","), m.file, fmt.Sprintf("%s have the same sequence", strings.Join(cs, " and ")))
		}
	}
	// the empty place
	used := map[string]bool{}
	for _, seq := range m.code {
		for _, s := range seq {
			used[s] = true
		}
	}
	for g := range empties {
		val := w.initSymbol(g, m)
		r.count("values for an empty place", 1)
		for s := range used {
			if val == m.symbols[s] && val != "" && len(used) == 2 && strings.Contains(strings.ToLower(g.Name()), "no") {
				out.add("no-empty-place", "no-empty-place:"+g.Name(), w.pos(g.Pos()), fmt.Sprintf("an empty place (%s) looks like the symbol %s", g.Name(), s))
			}
		}
	}
	for s := range used {
		if v := m.symbols[s]; v == "" || v == "0,false" {
			out.add("no-empty-place", "no-empty-place:"+s, m.file, fmt.Sprintf("the symbol %s looks like an empty place", s))
		}
	}

	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "cw") {
			continue
		}
		if kind, problem, pos := w.charMethod(f, empties); kind != "" && problem != "" && problem != "?" {
			out.add("character", "character:"+fnKey(f), pos, fmt.Sprintf("%s does not keep the exact sequence of symbols: %s", fnKey(f), problem))
		}
	}

	// building
	isCode := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "Code" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "digimodes/cw")
	}
	built := false
	for _, mu := range updates {
		f := mu.Parent()
		r.count("entries into the decode table", 1)
		var loop *Loop
		for _, l := range loopsOf(f) {
			if !l.blocks[mu.Block()] {
				continue
			}
			coll, _, kind, _ := l.walk()
			if coll == nil || kind != walkFull {
				continue
			}
			if isCode(coll) {
				loop = l
			}
			if p, ok := coll.(*ssa.Parameter); ok { // the table as an argument
				for _, cs := range w.callSitesOf(f) {
					if i := paramIndex(f, p); i >= 0 && i < len(cs.Common().Args) && isCode(cs.Common().Args[i]) {
						loop = l
					}
				}
			}
		}
		up := func(v ssa.Value) ssa.Value { return v }
		at := mu.Block()
		if loop == nil { // entered by a helper that is called in the walk
			var sites []ssa.CallInstruction
			for _, cs := range w.callSitesOf(f) {
				if cs.Common().StaticCallee() == f && w.inRepo(cs.Parent()) {
					sites = append(sites, cs)
				}
			}
			if len(sites) == 1 && len(loopsOf(f)) == 0 {
				cs := sites[0]
				for _, l := range loopsOf(cs.Parent()) {
					if l.blocks[cs.Block()] {
						if coll, _, kind, _ := l.walk(); coll != nil && kind == walkFull && isCode(coll) {
							loop, at = l, cs.Block()
							up = func(v ssa.Value) ssa.Value {
								if p, ok := v.(*ssa.Parameter); ok {
									if i := paramIndex(f, p); i >= 0 && i < len(cs.Common().Args) {
										return cs.Common().Args[i]
									}
								}
								return v
							}
						}
					}
				}
			}
		}
		if loop == nil {
			if _, ok := mu.Key.(*ssa.Parameter); ok {
				r.assume("what " + fnKey(f) + " enters into the decode table was not understood")
				built = true
				continue
			}
			fromCode := false
			for _, l := range loopsOf(f) {
				if l.blocks[mu.Block()] {
					fromCode = true
				}
			}
			if fromCode {
				r.assume("how " + fnKey(f) + " walks through the code table was not understood")
				built = true
				continue
			}
			out.add("other-entry", "other-entry:"+fnKey(f), w.ipos(mu), fmt.Sprintf("%s enters a character into the decode table that is not taken from the code table", fnKey(f)))
			continue
		}
		built = true
		// on each pass
		var next *ssa.Next
		for _, in := range loop.header.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				next = n
			}
		}
		if next == nil {
			continue
		}
		var ext func(v ssa.Value, i int) bool
		ext = func(v ssa.Value, i int) bool {
			v = up(v)
			if l, ok := v.(*ssa.Lookup); ok && i == 2 { // the entry of the character
				return !l.CommaOk && isCode(l.X) && ext(l.Index, 1)
			}
			e, ok := v.(*ssa.Extract)
			if ok && e.Index == 0 && i == 2 {
				if l, ok := e.Tuple.(*ssa.Lookup); ok {
					return isCode(l.X) && ext(l.Index, 1)
				}
			}
			return ok && e.Tuple == ssa.Value(next) && e.Index == i
		}
		for _, p := range loop.header.Preds {
			if loop.blocks[p] && !at.Dominates(p) {
				// the condition under which it is left out
				harmless := false
				for b := range loop.blocks {
					hi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || b == loop.header || !b.Dominates(at) {
						continue
					}
					harmless = emptySeqCond(hi.Cond, func(v ssa.Value) bool { return ext(v, 2) })
					if !harmless {
						break
					}
				}
				if !harmless {
					out.add("left-out", "left-out:"+fnKey(f), w.ipos(mu), fmt.Sprintf("%s leaves characters out of the decode table under a condition", fnKey(f)))
				}
				break
			}
		}
		for b := range loop.blocks { // leaving early
			for _, s := range b.Succs {
				if b != loop.header && !loop.blocks[s] {
					if _, isPanic := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !isPanic {
						out.add("left-out", "left-out:"+fnKey(f), w.ipos(b.Instrs[len(b.Instrs)-1]), fmt.Sprintf("%s stops before the end of the code table", fnKey(f)))
					}
				}
			}
		}
		if at != mu.Block() && len(f.Blocks) > 1 && !mu.Block().Dominates(f.Blocks[len(f.Blocks)-1]) {
			r.assume("the conditions in " + fnKey(f) + " were not judged")
		}
		if !ext(mu.Value, 1) {
			if c, ok := mu.Value.(*ssa.Convert); !ok || !ext(c.X, 1) {
				out.add("other-character", "other-character:"+fnKey(f), w.ipos(mu), fmt.Sprintf("%s enters something else than the character itself into the decode table", fnKey(f)))
			}
		}
		// the key
		switch problem, pos := w.copiesSymbols(mu.Key, func(v ssa.Value) bool { return ext(v, 2) }, empties, 0); problem {
		case "":
			r.count("keys that are exact copies of the symbols", 1)
		case "?":
			r.assume("how " + fnKey(f) + " builds the key of the decode table was not understood")
		default:
			if pos == "" {
				pos = w.ipos(mu)
			}
			out.add("inexact", "inexact:"+fnKey(f), pos, fmt.Sprintf("%s: the key of a character in the decode table is not its exact sequence of symbols: %s", fnKey(f), problem))
		}
	}
	if !built {
		r.assume("the decode table is not built by a walk through the code table; this was not decided")
	}
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == p {
			return i
		}
	}
	return -1
}

// emptySeqCond: the condition only concerns whether the sequence is empty.
func emptySeqCond(c ssa.Value, isSeq func(ssa.Value) bool) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		_, off, lc := lenPlus(v)
		return lc != nil && off == 0 && isSeq(lc)
	}
	x, op, y := b.X, b.Op, b.Y
	if isLen(y) {
		x, y = y, x
	}
	k, ok := constInt(y)
	if !ok || !isLen(x) {
		return false
	}
	return k == 0 && (op == token.EQL || op == token.NEQ || op == token.GTR || op == token.LSS) || k == 1 && (op == token.LSS || op == token.GEQ)
}

// copiesSymbols: the array value holds exactly the symbols (as long as they fit).
func (w *World) copiesSymbols(v ssa.Value, isSyms func(ssa.Value) bool, empties map[*ssa.Global]bool, d int) (string, string) {
	if d > 4 {
		return "?", ""
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return "?", ""
		}
		filled := "?"
		// a variable that is used again for the next sequence
		stale, fresh := map[*Loop]bool{}, false
		for _, l := range loopsOf(v.Parent()) {
			if l.blocks[v.Block()] && !l.blocks[a.Block()] {
				stale[l] = true
			}
		}
		for _, ref := range *a.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == ssa.Value(a) {
					fresh = true
				}
			case *ssa.Call:
				for i, arg := range ref.Call.Args {
					if arg != ssa.Value(a) || i != 0 {
						continue
					}
					g := ref.Call.StaticCallee()
					if g == nil || !w.inRepo(g) {
						return "?", ""
					}
					kind, problem, pos := w.charMethod(g, empties)
					switch kind {
					case "set":
						if problem != "" {
							return problem, pos
						}
						if len(ref.Call.Args) < 2 {
							return "?", ""
						}
						if sl, ok := ref.Call.Args[1].(*ssa.Slice); ok && isSyms(sl.X) && (sl.Low != nil && !isZero(sl.Low) || sl.High != nil) {
							return "it is filled with a part of the symbols", w.ipos(ref)
						}
						if !isSyms(ref.Call.Args[1]) {
							return "?", ""
						}
						if !ref.Block().Dominates(v.Block()) {
							return "it is filled under a condition", w.ipos(ref)
						}
						filled = ""
						fresh = true
					case "append":
						if problem != "" {
							return problem, pos
						}
						// in a walk through the symbols
						for _, l := range loopsOf(ref.Parent()) {
							if !l.blocks[ref.Block()] {
								continue
							}
							coll, _, k, why := l.walk()
							if coll == nil || !isSyms(coll) {
								continue
							}
							if k == walkPartial {
								return why, w.loopPos(l)
							}
							if k == walkFull {
								filled = ""
							}
						}
					case "clear":
						for l := range stale {
							if l.blocks[ref.Block()] {
								fresh = true
							}
						}
					case "empty", "len":
					default:
						return "?", ""
					}
				}
			case *ssa.Slice:
				for _, r2 := range *ref.Referrers() {
					c, ok := r2.(*ssa.Call)
					if !ok {
						continue
					}
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && c.Call.Args[0] == ssa.Value(ref) {
						src := c.Call.Args[1]
						if sl, ok := src.(*ssa.Slice); ok && (sl.Low != nil && !isZero(sl.Low) || sl.High != nil) {
							return "a part of the symbols is copied", w.ipos(c)
						}
						if ref.Low != nil && !isZero(ref.Low) || ref.High != nil {
							return "the symbols are copied to a part of the places", w.ipos(c)
						}
						if !isSyms(src) {
							return "?", ""
						}
						filled = ""
					}
				}
			case *ssa.IndexAddr: // filled in place
				for _, r2 := range *ref.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(ref) {
						continue
					}
					u, ok := s.Val.(*ssa.UnOp)
					if !ok {
						return "?", ""
					}
					if _, isG := u.X.(*ssa.Global); isG {
						fresh = true
						continue
					}
					src, ok := u.X.(*ssa.IndexAddr)
					if !ok || !isSyms(src.X) {
						return "?", ""
					}
					if src.Index != ref.Index {
						return "a symbol is stored in another place than its own", w.ipos(s)
					}
					for _, l := range loopsOf(s.Parent()) {
						if !l.blocks[s.Block()] {
							continue
						}
						if coll, idx, k, why := l.walk(); coll != nil && idx == ref.Index {
							if k == walkPartial {
								return why, w.loopPos(l)
							}
							if isSyms(coll) {
								filled = ""
							}
						}
					}
				}
			}
		}
		if filled == "" && len(stale) > 0 && !fresh {
			return "the symbols of the sequence before stay in the places behind its own symbols", w.pos(a.Pos())
		}
		return filled, ""
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !w.inRepo(g) || len(g.Blocks) == 0 {
			return "?", ""
		}
		var param ssa.Value
		for i, a := range v.Call.Args {
			if isSyms(a) && i < len(g.Params) {
				param = g.Params[i]
			}
		}
		if param == nil {
			for _, a := range v.Call.Args {
				if sl, ok := a.(*ssa.Slice); ok && isSyms(sl.X) {
					return "a part of the symbols is taken", w.ipos(v)
				}
			}
			return "?", ""
		}
		res, pos := "?", ""
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				res, pos = w.copiesSymbols(r.Results[0], func(x ssa.Value) bool { return x == param }, empties, d+1)
				if res != "" {
					return res, pos
				}
			}
		}
		return res, pos
	}
	return "?", ""
}

// initSymbol evaluates the symbol that a package variable is initialised with.
func (w *World) initSymbol(g *ssa.Global, m *morse) string {
	vals := map[int]string{0: "0", 1: "false"}
	init := g.Pkg.Func("init")
	if init == nil {
		return ""
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == ssa.Value(g) {
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if o, ok := u.X.(*ssa.Global); ok {
						return m.symbols[o.Name()]
					}
				}
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) {
				if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil {
					vals[fa.Field] = c.Value.String()
				}
			}
		}
	}
	return vals[0] + "," + vals[1]
}

func (w *World) typePos(t types.Type) string {
	if n := namedOf(t); n != nil {
		return w.pos(n.Obj().Pos())
	}
	return ""
}

func checkC24(w *World, r *Result) {
	r.rule("The operations on the current character are right: a symbol is stored in the first empty place, and the result tells whether there was one; emptying empties all places.")
	r.rule("On every way through a tick of the decoder: a symbol that did not fit is appended again after the character was written; a character is written exactly once and emptied with it, and never written when there is none; what is written is what the decode table has for exactly this character, or the mark for unknown characters; a word gap is written after the pending character; the mark of an invalid character does not outlive it.")
	r.rule("Every mark (falling edge) that is no noise is recorded exactly once: as a symbol or as invalid. Gaps of a character and of a word, and a pause, write the pending character. After a symbol was appended the decoder waits for the pause.")
	r.rule("The loop that feeds the decoder writes the pending character on every way out.")
	r.rule("Every block an attached listener gets, and every block the spectral demodulator gets, is passed on to the decoder exactly once.")
	var out findings
	defer func() { r.addAll(out.list) }()
	empties, _ := w.emptySymbols("cw")
	methods := map[*ssa.Function]string{}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "cw") {
			continue
		}
		kind, problem, pos := w.charMethod(f, empties)
		if kind == "" {
			continue
		}
		methods[f] = kind
		r.count("operations on characters", 1)
		switch problem {
		case "":
		case "?":
			r.assume("what " + fnKey(f) + " does was not understood; its effect is taken from its signature")
		default:
			out.add("character", "character:"+fnKey(f), pos, fmt.Sprintf("%s loses or mixes up symbols: %s", fnKey(f), problem))
		}
	}
	tick := w.fn("cw.(*Decoder).Tick")
	if tick == nil || len(tick.Params) != 2 {
		r.need(tick != nil, "cw.(*Decoder).Tick")
		return
	}
	dec := namedOf(deref(tick.Params[0].Type()))
	var charField *types.Var
	if st, ok := dec.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isCharType(st.Field(i).Type()) {
				charField = st.Field(i)
			}
		}
	}
	if charField == nil {
		r.assume("the current character is no array of symbols in the decoder; the property was not decided")
		return
	}
	d := &charRun{w: w, r: r, out: &out, methods: methods, char: charField, tick: tick, empties: empties}
	d.explore(tick)
	d.summary()
	// what writes the pending character
	flushes := map[*ssa.Function]bool{}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "cw") || f == tick || f.Signature.Recv() == nil || namedOf(deref(f.Signature.Recv().Type())) != dec || len(f.Params) != 1 || f.Signature.Results().Len() > 0 {
			continue
		}
		if d.flushes(f) {
			flushes[f] = true
			r.count("functions that write the pending character", 1)
		}
	}
	if stop := w.fn("cw.(*Decoder).stop"); stop != nil && !flushes[stop] {
		out.add("not-flushed", "not-flushed:"+fnKey(stop), w.pos(stop.Pos()), fmt.Sprintf("%s does not write the pending character on every way", fnKey(stop)))
	}
	// the loops that feed the decoder
	for _, g := range w.funcs {
		if !fnPkgIs(w, g, "cw") || g.Pkg == nil {
			continue
		}
		isRoot := false
		for _, c := range conc(w, r).roots {
			if c.fn == g && c.isGo {
				isRoot = true
			}
		}
		if !isRoot || !w.reachableFrom([]*ssa.Function{g}, false, nil)[tick] {
			continue
		}
		r.count("loops that feed the decoder", 1)
		name := fnKey(g)
		exits := 0
		ex := newExplorer(w, &Rule{
			NoNumbers: true,
			Interesting: func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && (c.Call.StaticCallee() == tick || flushes[c.Call.StaticCallee()])
			},
			NoInline: func(f *ssa.Function) bool { return f == tick || flushes[f] },
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				if c.fn == tick {
					st.unset("flushed")
				}
				if flushes[c.fn] {
					st.set("flushed")
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				exits++
				if !st.has("flushed") {
					out.add("not-flushed", "not-flushed:"+name, w.pos(g.Pos()), fmt.Sprintf("%s can end without writing the pending character", name), st.traceText(8)...)
				}
			},
		})
		ex.Run(g, nil)
		if ex.over {
			r.incomplete("too many ways through " + name)
		}
		r.count("ways out of the loops", exits)
	}
	w.everyBlock(r, &out)
}

// everyBlock: what is given one block passes it on to the decoder, once.
func (w *World) everyBlock(r *Result, out *findings) {
	for _, entry := range [][2]string{{"cw.(*SpectralDemodulator).Tick", "cw.(*Decoder).Tick"}, {"rx.(*Listener).Listen", "cw.(*SpectralDemodulator).Tick"}} {
		f := w.fn(entry[0])
		if f == nil || f.Blocks == nil || w.fn(entry[1]) == nil {
			continue
		}
		stages := map[string]bool{entry[1]: true}
		isStage := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && c.Call.StaticCallee() != nil && stages[fnKey(c.Call.StaticCallee())]
		}
		r.count("stages a block passes", 1)
		name := fnKey(f)
		ex := newExplorer(w, &Rule{
			Canon: func(owner string) bool { return owner == "rx.Listener" },
			Interesting: func(in ssa.Instruction) bool {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					return isPeakField(fa)
				}
				return isStage(in)
			},
			NoInline: func(g *ssa.Function) bool { return stages[fnKey(g)] },
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				if c.fn == nil || !stages[fnKey(c.fn)] {
					return
				}
				if st.has("passed") {
					out.add("ticked-twice", "ticked-twice:"+name, w.ipos(in), fmt.Sprintf("%s passes the same block on twice", name), st.traceText(8)...)
				}
				st.set("passed")
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				detached := st.holds(func(c *Term, v bool) bool {
					return c.op == "eq" && v && (srcField(c.args[0]) == "rx.Listener.peak" && c.args[1].op == "nil" || srcField(c.args[1]) == "rx.Listener.peak" && c.args[0].op == "nil")
				})
				if !st.has("passed") && !detached {
					out.add("not-ticked", "not-ticked:"+name, w.pos(f.Pos()), fmt.Sprintf("%s can end without passing its block on to the decoder: marks and pauses become shorter than they were", name), st.traceText(8)...)
				}
			},
		})
		ex.Run(f, nil)
		if ex.over {
			r.incomplete("too many ways through " + name)
		}
	}
}

func isPeakField(fa *ssa.FieldAddr) bool {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Name() != "Listener" {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	return ok && s.Field(fa.Field).Name() == "peak"
}

// charRun follows the current character of the decoder.
type charRun struct {
	w       *World
	r       *Result
	out     *findings
	methods map[*ssa.Function]string
	char    *types.Var
	tick    *ssa.Function
	empties map[*ssa.Global]bool

	flags       map[*types.Var]bool // fields that mark a character as invalid
	over        bool
	quiet       bool
	allFlush    bool
	exits       int
	charGap     bool // some rising edge writes the character without a word gap
	wordGap     bool
	pause       bool
	pauseOn     map[*types.Var]int
	pauses      int
	armed       []armedPath
	appends     int
	falling     int
	unknownOp   bool
	unknownPred bool
	pauseBr     map[string]bool   // the conditions that lead to the writing at a pause
	gapBr       []map[string]bool // the conditions with which a gap without a word gap writes
	ifs         map[*ssa.If]bool
	leading     map[string]bool // conditions that lead to the writing
}

func (d *charRun) add(rule, where, pos, msg string, detail ...string) {
	if !d.quiet {
		d.out.add(rule, rule+":"+where, pos, msg, detail...)
	}
}

func brKey(in *ssa.If, taken bool) string {
	return fmt.Sprintf("br:%s.%d:%v", in.Parent().Name(), in.Block().Index, taken)
}

// pauseIf: a condition of a tick on whose one side the character is written.
func (d *charRun) pauseIf(in *ssa.If) bool {
	if v, ok := d.ifs[in]; ok {
		return v
	}
	if d.ifs == nil {
		d.ifs, d.leading = map[*ssa.If]bool{}, map[string]bool{}
	}
	res := false
	f := in.Parent()
	if !d.quiet && len(f.Params) > 0 && f.Signature.Recv() != nil && namedOf(deref(f.Params[0].Type())) == namedOf(deref(d.tick.Params[0].Type())) {
		for i, s := range in.Block().Succs {
			var callees []*ssa.Function
			for _, b := range f.Blocks {
				if len(s.Preds) == 1 && s.Dominates(b) {
					for _, x := range b.Instrs {
						if c, ok := x.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fnPkgIs(d.w, c.Call.StaticCallee(), "cw") {
							callees = append(callees, c.Call.StaticCallee())
						}
					}
				}
			}
			for g := range d.w.reachableFrom(callees, false, nil) {
				for _, b := range g.Blocks {
					for _, x := range b.Instrs {
						if l, ok := x.(*ssa.Lookup); ok {
							mt, ok := l.X.Type().Underlying().(*types.Map)
							if ok && isCharType(mt.Key()) {
								res = true
								d.leading[brKey(in, i == 0)] = true
							}
						}
					}
				}
			}
		}
	}
	d.ifs[in] = res
	return res
}

// armedPath is a way through a tick with a pending character in the end.
type armedPath struct {
	st    *State
	what  string
	off   func(name string) bool
	trace []string
}

// boolFieldsOf: the flags of the decoder.
func (d *charRun) boolFieldsOf() map[*types.Var]bool {
	res := map[*types.Var]bool{}
	if st, ok := namedOf(deref(d.tick.Params[0].Type())).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if typeStr(st.Field(i).Type()) == "bool" {
				res[st.Field(i)] = true
			}
		}
	}
	return res
}

// states of the current character
const (
	csUnknown  = "" // as it was before
	csEmpty    = "empty"
	csPending  = "pending" // not empty
	csOwed     = "owed"    // emptied, not written yet
	csWritten  = "written" // written, not emptied yet
	charKey    = "char:"
	lookedFrom = "looked"
)

func charState(st *State) string {
	for _, s := range []string{csEmpty, csPending, csOwed, csWritten} {
		if st.has(charKey + s) {
			return s
		}
	}
	return csUnknown
}

func setCharState(st *State, s string) {
	for _, o := range []string{csEmpty, csPending, csOwed, csWritten} {
		st.unset(charKey + o)
	}
	if s != csUnknown {
		st.set(charKey + s)
	}
}

// flushes: on every way the character is empty in the end, and it was written if there was one.
func (d *charRun) flushes(f *ssa.Function) bool {
	q := *d
	q.quiet = true
	q.allFlush, q.exits = true, 0
	q.pauseOn = map[*types.Var]int{}
	q.explore(f)
	writes := false
	for g := range d.w.reachableFrom([]*ssa.Function{f}, false, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if d.isWrite(in) {
					writes = true
				}
			}
		}
	}
	return q.exits > 0 && q.allFlush && writes && !q.over
}

// isWrite: something is written to the output of the decoder.
func (d *charRun) isWrite(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	cc := c.Common()
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write", "WriteString", "WriteRune":
			return typeStr(cc.Value.Type()) == "io.Writer" || typeStr(cc.Value.Type()) == "io.StringWriter"
		}
		return false
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	switch g.String() {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		return d.fromDecoder(cc.Args[0])
	}
	return false
}

func (d *charRun) fromDecoder(v ssa.Value) bool {
	for fv := range d.w.srcFields(v) {
		if strings.HasPrefix(fieldOwner[fv], "cw.Decoder") {
			return true
		}
	}
	p, ok := v.(*ssa.Parameter)
	return ok && typeStr(p.Type()) == "io.Writer"
}

func (d *charRun) explore(root *ssa.Function) {
	w, r := d.w, d.r
	if d.pauseOn == nil {
		d.pauseOn = map[*types.Var]int{}
	}
	var ex *Explorer
	isCharAddr := func(t *Term) bool {
		if t == nil || t.op != "&" {
			return false
		}
		fv, ok := t.payload.(*types.Var)
		return ok && fv == d.char
	}
	isFlag := func(fv *types.Var) bool {
		return fv != nil && strings.HasPrefix(fieldOwner[fv], "cw.Decoder") && typeStr(fv.Type()) == "bool"
	}
	// the text that is written
	content := func(st *State, in *ssa.Call, args []*Term) *Term {
		var res *Term
		for i := len(args) - 1; i >= 0 && res == nil; i-- {
			a := args[i]
			base := a
			if base.op == "slice" {
				base = base.args[0]
			}
			if base.op == "alloc" || base.op == "make" {
				for k, v := range st.mem {
					if k.op == "&[]" && k.args[0] == base {
						res = v
					}
				}
			} else if i > 0 || in.Call.IsInvoke() {
				res = a
			}
		}
		for res != nil && (res.op == "iface" || res.op == "conv" || res.op == "call") && len(res.args) > 0 {
			res = res.args[len(res.args)-1]
		}
		return res
	}
	where := func(in ssa.Instruction) string { return fnKey(in.Parent()) }
	add := func(st *State, rule string, in ssa.Instruction, msg string) {
		d.add(rule, where(in), w.ipos(in), where(in)+" "+msg, st.traceText(10)...)
	}
	emptied := func(st *State, in ssa.Instruction) {
		switch charState(st) {
		case csWritten, csEmpty:
			setCharState(st, csEmpty)
		default:
			setCharState(st, csOwed)
		}
		st.set("emptied")
	}
	boolFields := func(st *State) map[*types.Var]bool {
		res := map[*types.Var]bool{}
		for fv := range d.flags {
			if st.has("clr:" + fv.Name()) {
				res[fv] = false
			}
		}
		for a, v := range st.mem {
			if a.op != "&" {
				continue
			}
			if fv, ok := a.payload.(*types.Var); ok && isFlag(fv) {
				switch ex.decide(st, v) {
				case 1:
					res[fv] = true
				case 0:
					res[fv] = false
				}
			}
		}
		return res
	}
	ex = newExplorer(w, &Rule{
		Interesting: func(in ssa.Instruction) bool {
			if c, ok := in.(*ssa.Call); ok {
				if d.methods[c.Call.StaticCallee()] != "" {
					return true
				}
			}
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					fv := fieldVar(fa.X.Type(), fa.Field)
					return fv == d.char || isFlag(fv)
				}
			}
			if l, ok := in.(*ssa.Lookup); ok {
				mt, ok := l.X.Type().Underlying().(*types.Map)
				return ok && isCharType(mt.Key())
			}
			return d.isWrite(in)
		},
		NoInline: func(f *ssa.Function) bool { return d.methods[f] != "" || !fnPkgIs(w, f, "cw") },
		OnLoad: func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term) {
			if addr.op == "global" && isSymbolType(in.Type()) {
				if g, ok := in.X.(*ssa.Global); ok && d.empties[g] {
					st.top().regs[in] = ex.ts.App("zero", in.Type(), in.Type())
				}
			}
			if addr.op == "&" {
				if fv, ok := addr.payload.(*types.Var); ok && isFlag(fv) {
					st.setT("bool:"+fv.Name(), val)
				}
			}
			if isCharAddr(addr) { // the value of the character
				st.top().regs[in] = ex.ts.App("charvalue", charState(st), in.Type())
			}
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				a := ex.val(st, in.Addr)
				if isCharAddr(a) {
					if v := ex.val(st, in.Val); v.op == "zero" {
						emptied(st, in)
					} else {
						d.unknownOp = true
					}
				}
				if a.op == "&[]" && isCharAddr(a.args[0]) {
					d.unknownOp = true
				}
				if a.op == "&" {
					if fv, ok := a.payload.(*types.Var); ok && isFlag(fv) {
						st.unset("clr:" + fv.Name())
						st.unset("on:" + fv.Name())
						st.unset("off:" + fv.Name())
						switch v := ex.val(st, in.Val); ex.decide(st, v) {
						case 1:
							st.set("set:" + fv.Name())
							st.set("on:" + fv.Name())
						case 0:
							st.set("off:" + fv.Name())
							st.set("clr:" + fv.Name())
						}
					}
				}
			case *ssa.Extract:
				if l, ok := in.Tuple.(*ssa.Lookup); ok && st.has(lookedFrom) {
					if mt, ok := l.X.Type().Underlying().(*types.Map); ok && isCharType(mt.Key()) {
						if t := ex.val(st, l); t.op == "tuple" && len(t.args) == 2 {
							st.setT("rune", t.args[0])
							st.setT("found", t.args[1])
						}
					}
				}
			case *ssa.Lookup:
				if mt, ok := in.X.Type().Underlying().(*types.Map); ok && isCharType(mt.Key()) {
					k := ex.val(st, in.Index)
					st.unset(lookedFrom)
					if k.op == "charvalue" {
						s, _ := k.payload.(string)
						if s == csOwed || s == csEmpty {
							add(st, "decoded-too-late", in, "looks up the character after it was emptied")
						}
						st.set(lookedFrom)
					}
				}
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			kind := d.methods[c.fn]
			if kind != "" && len(args) > 0 && isCharAddr(args[0]) {
				switch kind {
				case "append":
					st.unset("found")
					st.unset("rune")
					if st.rs["pend"] != nil && !(st.has("emptied") && st.rs["pendsym"] == args[1]) {
						add(st, "symbol-lost", in, "appends a symbol while another one that did not fit is still to be appended")
					}
				case "clear":
					emptied(st, in)
				case "set":
					d.unknownOp = true
				}
			}
			if call, ok := in.(*ssa.Call); ok && d.isWrite(in) && (call.Call.IsInvoke() || c.fn == call.Call.StaticCallee()) {
				t := content(st, call, args)
				space := t != nil && t.cval != nil && (t.cval.ExactString() == "32" || t.cval.ExactString() == "\" \"")
				s := charState(st)
				if space {
					r.count("word gaps written (on some way)", 1)
					if s != csEmpty {
						add(st, "gap-too-early", in, "writes a word gap before the pending character")
					}
					st.set("space")
					return
				}
				r.count("characters written (on some way)", 1)
				st.set("flushed")
				switch s {
				case csPending:
					setCharState(st, csWritten)
				case csOwed:
					setCharState(st, csEmpty)
				case csWritten:
					add(st, "written-twice", in, "writes a character twice")
				case csEmpty:
					add(st, "written-twice", in, "writes a character that was already written or that is empty")
				case csUnknown:
					add(st, "written-empty", in, "writes a character without knowing that there is one")
					setCharState(st, csWritten)
				}
				// what is written
				if t == nil {
					return
				}
				found := st.rs["found"]
				switch {
				case found != nil && t == st.rs["rune"]:
					if ex.decide(st, found) != 1 {
						add(st, "unknown-written", in, "writes a character that may not be in the decode table")
					}
				case t.cval != nil:
					if found != nil {
						if ex.decide(st, found) != 0 {
							add(st, "decoded-dropped", in, "writes a mark although the character is in the decode table")
						}
					} else {
						invalid := false
						for fv := range d.flags {
							v := st.rs["bool:"+fv.Name()]
							invalid = invalid || st.has("was:"+fv.Name()) || v != nil && ex.decide(st, v) == 1
						}
						if !invalid {
							add(st, "not-looked-up", in, "writes a mark without looking up the character")
						}
					}
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			kind := d.methods[c.fn]
			v, ok := in.(ssa.Value)
			if kind == "" || !ok || len(args) == 0 || !isCharAddr(args[0]) {
				return
			}
			switch kind {
			case "append":
				s := charState(st)
				if s == csEmpty || s == csOwed || st.has("room") {
					st.unset("room")
					if s == csOwed {
						add(st, "character-lost", in, "starts a new character although the one before was emptied without being written")
					}
					st.top().regs[v] = ex.ts.True
					setCharState(st, csPending)
					st.unset("pend")
					d.appended(st)
					st.unset("emptied")
					return
				}
				if s == csWritten {
					add(st, "written-twice", in, "appends a symbol to a character that was already written")
				}
				if _, used := usedResult(in); !used && !d.unknownPred {
					add(st, "symbol-lost", in, "does not look at whether the symbol fits into the character")
				}
				st.setT("pend", res)
				st.setT("pendsym", args[1])
				st.unset("emptied")
			case "len":
				switch charState(st) {
				case csEmpty, csOwed:
					st.top().regs[v] = ex.ts.Int(0)
				default:
					st.setT("len", res)
				}
			case "full":
				switch charState(st) {
				case csEmpty, csOwed:
					st.top().regs[v] = ex.ts.False
				default:
					st.setT("full", res)
				}
			case "pred":
				d.unknownOp, d.unknownPred = true, true
			case "empty":
				switch charState(st) {
				case csEmpty, csOwed:
					st.top().regs[v] = ex.ts.True
				case csPending, csWritten:
					st.top().regs[v] = ex.ts.False
				default:
					st.setT("isempty", res)
				}
			}
		},
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
			c, tk := cond, taken
			for c.op == "not" {
				c, tk = c.args[0], !tk
			}
			if e := st.rs["isempty"]; e != nil && e == c && charState(st) == csUnknown {
				if tk {
					setCharState(st, csEmpty)
				} else {
					setCharState(st, csPending)
				}
				st.unset("isempty")
			}
			if c.op == "eq" && charState(st) == csUnknown {
				for i, x := range c.args {
					if x.op == "charvalue" && c.args[1-i].op == "zero" {
						if tk {
							setCharState(st, csEmpty)
						} else {
							setCharState(st, csPending)
						}
					}
				}
			}
			if f := st.rs["full"]; f != nil && f == c {
				if tk {
					setCharState(st, csPending)
				} else {
					st.set("room")
				}
			}
			if l := st.rs["len"]; l != nil && (c.op == "eq" || c.op == "lt") && len(c.args) == 2 {
				k, isLeft := c.args[1], c.args[0] == l
				if !isLeft {
					k = c.args[0]
				}
				if n, ok := termInt(k); ok && (isLeft || c.args[1] == l) {
					N := charLen(d.char.Type())
					switch {
					case c.op == "eq" && n == 0 && tk, c.op == "lt" && isLeft && n == 1 && tk:
						if charState(st) == csUnknown {
							setCharState(st, csEmpty)
						}
					case c.op == "eq" && n == 0, c.op == "lt" && !isLeft && n >= 0 && tk:
						if charState(st) == csUnknown {
							setCharState(st, csPending)
						}
						if c.op == "lt" && n >= N-1 {
							st.unset("room")
						}
					case c.op == "eq" && n == N && !tk, c.op == "lt" && isLeft && n <= N && tk, c.op == "lt" && !isLeft && n == N-1 && !tk:
						st.set("room")
					case c.op == "eq" && n == N && tk, c.op == "lt" && isLeft && n == N && !tk:
						if charState(st) == csUnknown {
							setCharState(st, csPending)
						}
					}
				}
			}
			if p := st.rs["pend"]; p != nil && p == c {
				if tk {
					st.unset("pend")
					setCharState(st, csPending)
					d.appended(st)
				} else {
					setCharState(st, csPending) // it is full
				}
			}
			for k, v := range st.rs {
				if strings.HasPrefix(k, "bool:") && v == c && tk {
					st.set("was:" + k[5:])
				}
				if strings.HasPrefix(k, "bool:") && v == c && !tk && !st.has("on:"+k[5:]) {
					st.set("clr:" + k[5:])
				}
			}
			if c.op == "eq" && st.rs["state"] != nil && (c.args[0] == st.rs["state"] || c.args[1] == st.rs["state"]) {
				o := c.args[0]
				if o == st.rs["state"] {
					o = c.args[1]
				}
				st.setT("last", o)
				if !tk {
					st.set("edge")
				}
			}
			if d.pauseIf(in) {
				st.unset(brKey(in, !taken))
				st.set(brKey(in, taken))
			}
			if o := st.rs["last"]; o != nil { // the state before
				if v := ex.decide(st, st.rs["state"]); v >= 0 {
					ex.assume(st, o, (v == 1) != st.has("edge"))
				} else if v := ex.decide(st, o); v >= 0 {
					ex.assume(st, st.rs["state"], (v == 1) != st.has("edge"))
				}
			}
			if c.op == "lt" {
				if k := c.args[1]; tk && k.cval != nil && constant.Sign(k.cval) > 0 {
					st.set("noise")
				}
				if k := c.args[0]; !tk && k.cval != nil && constant.Sign(k.cval) > 0 {
					st.set("noise")
				}
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			d.exits++
			s := charState(st)
			at, name := w.pos(root.Pos()), fnKey(root)
			trace := st.traceText(12)
			if s != csEmpty {
				d.allFlush = false
			}
			if s == csOwed {
				d.add("character-lost", name, at, name+" can empty the pending character without writing it", trace...)
			}
			if s == csWritten {
				d.add("written-twice", name, at, name+" can write the pending character without emptying it: it is written again", trace...)
			}
			if st.rs["pend"] != nil && !d.unknownPred {
				d.add("symbol-lost", name, at, name+" can lose a symbol that does not fit into the character", trace...)
			}
			fields := boolFields(st)
			if s == csEmpty && !st.has("appended") {
				for fv := range d.flags {
					if v, known := fields[fv]; !known || v {
						d.add("mark-stays", name, at, fmt.Sprintf("%s can leave %s set when there is no character (any more): the next character is taken for an invalid one", name, fieldKey(fv)), trace...)
					}
				}
			}
			if root != d.tick {
				return
			}
			d.tickExit(ex, st, fields, trace)
		},
	})
	if d.flags == nil {
		d.flags = d.findFlags()
	}
	ex.budget = 1000000
	ex.Run(root, func(st *State, fr *FState) {
		if root == d.tick {
			st.setT("state", fr.regs[root.Params[1]])
		}
	})
	if ex.over {
		d.over = true
		r.incomplete("too many ways through " + fnKey(root))
	}
	if d.unknownOp && !d.quiet {
		r.assume("the current character is also changed in other ways than by its operations; these were not followed")
	}
}

// rune: the function finds out what is to be written.
func (d *charRun) rune(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.String) {
			return true
		}
	}
	return false
}

// marksOnly: the value decides about writing something without looking it up in the decode table.
func (d *charRun) marksOnly(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		hi, ok := ref.(*ssa.If)
		if !ok {
			if n, ok := ref.(*ssa.UnOp); ok && n.Op == token.NOT && d.marksOnly(n) {
				return true
			}
			continue
		}
		var sides [2]bool // which side looks the character up, here or later
		for k, s := range hi.Block().Succs {
			after := map[*ssa.BasicBlock]bool{}
			var visit func(b *ssa.BasicBlock)
			visit = func(b *ssa.BasicBlock) {
				if !after[b] {
					after[b] = true
					for _, x := range b.Succs {
						visit(x)
					}
				}
			}
			visit(s)
			own := len(s.Preds) == 1
			writes, looks := false, false
			var callees []*ssa.Function
			check := func(in ssa.Instruction) {
				writes = writes || own && d.isWrite(in)
				if l, ok := in.(*ssa.Lookup); ok {
					mt, ok := l.X.Type().Underlying().(*types.Map)
					looks = looks || ok && isCharType(mt.Key())
				}
			}
			for _, b := range hi.Parent().Blocks {
				if own && !s.Dominates(b) || !own && !after[b] {
					continue
				}
				for _, in := range b.Instrs {
					check(in)
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
						callees = append(callees, c.Call.StaticCallee())
					}
				}
			}
			for g := range d.w.reachableFrom(callees, false, nil) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						check(in)
					}
				}
			}
			sides[k] = looks
			if writes && !looks {
				return true
			}
		}
		if sides[0] != sides[1] && d.rune(hi.Parent()) {
			return true
		}
	}
	return false
}

// findFlags: the fields that are set when a mark is too long and looked at when the character is written.
func (d *charRun) findFlags() map[*types.Var]bool {
	w := d.w
	near := w.reachableFrom([]*ssa.Function{d.tick}, false, nil)
	set, read := map[*types.Var]bool{}, map[*types.Var]bool{}
	for f := range near {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || !strings.HasPrefix(fieldOwner[fv], "cw.Decoder") || typeStr(fv.Type()) != "bool" {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch ref := ref.(type) {
					case *ssa.Store:
						if c, ok := ref.Val.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) {
							set[fv] = true
						}
					case *ssa.UnOp:
						if d.marksOnly(ref) {
							read[fv] = true
						}
					}
				}
			}
		}
	}
	res := map[*types.Var]bool{}
	for fv := range set {
		if read[fv] {
			res[fv] = true
		}
	}
	return res
}

func (d *charRun) appended(st *State) {
	if st.has("appended") {
		st.set("appended2")
	}
	st.set("appended")
}

func (d *charRun) tickExit(ex *Explorer, st *State, fields map[*types.Var]bool, trace []string) {
	w := d.w
	name, at := fnKey(d.tick), w.pos(d.tick.Pos())
	state := st.rs["state"]
	if state == nil {
		return
	}
	on := ex.decide(st, state)
	if st.has("edge") && on == 0 {
		d.falling++
		marked := false
		for fv := range d.flags {
			marked = marked || fields[fv] || st.has("set:"+fv.Name())
		}
		if !st.has("appended") && !st.has("noise") && !marked {
			d.add("mark-ignored", name, at, name+" ignores a mark that is no noise", trace...)
		}
	}
	s := charState(st)
	if st.has("appended2") {
		d.add("symbol-twice", name, at, name+" can append two symbols for one mark", trace...)
	}
	if st.has("appended") {
		d.appends++
		if on == 1 {
			d.add("symbol-early", name, at, name+" appends a symbol when a mark begins", trace...)
		}
	}
	if s != csEmpty { // what arms the writing of the character at a pause
		if st.has("appended") {
			d.armed = append(d.armed, armedPath{st: st, what: "appends a symbol without", trace: trace, off: func(n string) bool { return !st.has("on:" + n) }})
		} else {
			d.armed = append(d.armed, armedPath{st: st, what: "keeps a pending character but does not keep", trace: trace, off: func(n string) bool { return st.has("off:" + n) }})
		}
	} else if !st.has("appended") && !st.has("edge") && on == 0 && st.has("flushed") {
		d.pauses++
		taken := map[string]bool{}
		for k := range st.rs {
			if strings.HasPrefix(k, "br:") && d.leading[k] && (d.pauses == 1 || d.pauseBr[k]) {
				taken[k] = true
			}
		}
		d.pauseBr = taken
		for fv := range d.boolFieldsOf() {
			if st.has("was:" + fv.Name()) {
				d.pauseOn[fv]++
			}
		}
	}
	// a flush without a symbol
	if s == csEmpty && !st.has("appended") {
		switch {
		case on == 1 && st.has("space"):
			d.wordGap = true
		case on == 1 && st.has("edge") && st.has("flushed"):
			taken := map[string]bool{}
			for k := range st.rs {
				if strings.HasPrefix(k, "br:") {
					taken[k] = true
				}
			}
			d.gapBr = append(d.gapBr, taken)
		case on == 0:
			d.pause = true
		}
	}
}

func (d *charRun) summary() {
	w := d.w
	if d.over {
		return
	}
	name, at := fnKey(d.tick), w.pos(d.tick.Pos())
	d.r.count("ways on which a symbol is appended", d.appends)
	d.r.count("ways with the end of a mark", d.falling)
	if d.appends == 0 {
		d.add("symbol-lost", name, at, name+" never appends a symbol")
	}
	for fv := range d.boolFieldsOf() {
		if d.pauses == 0 || d.pauseOn[fv] < d.pauses || d.flags[fv] {
			continue
		}
		d.r.count("flags the writing at a pause depends on", 1)
		for _, p := range d.armed {
			if p.off(fv.Name()) {
				d.add("not-armed", name+"-"+fv.Name(), at, fmt.Sprintf("%s %s %s set: the pending character is not written at the next pause", name, p.what, fieldKey(fv)), p.trace...)
				break
			}
		}
	}
	// a gap writes the character without what leads to the writing at a pause
	for _, taken := range d.gapBr {
		for k := range d.pauseBr {
			if o := strings.TrimSuffix(k, ":true") + ":false"; k != o && taken[o] {
				d.charGap = true
			}
			if o := strings.TrimSuffix(k, ":false") + ":true"; k != o && taken[o] {
				d.charGap = true
			}
		}
	}
	if !d.charGap && len(d.pauseBr) > 0 {
		d.add("gap-ignored", name, at, name+": no gap after a character writes the pending character")
	}
	if !d.wordGap {
		d.add("gap-ignored", name+"-word", at, name+": no gap after a word writes the pending character and a gap")
	}
	if !d.pause {
		d.add("pause-ignored", name, at, name+": no pause of the signal writes the pending character")
	}
}

func usedResult(in ssa.Instruction) (ssa.Value, bool) {
	v, ok := in.(ssa.Value)
	if !ok {
		return nil, false
	}
	refs := v.Referrers()
	return v, refs != nil && len(*refs) > 0
}

// termInt: the value of an integer constant.
func termInt(t *Term) (int64, bool) {
	if t == nil || t.cval == nil || t.cval.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cval)
}
