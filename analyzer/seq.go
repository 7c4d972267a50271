package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- callers ----------

type callerIndex struct {
	sync  map[*ssa.Function][]*ssa.Function
	spawn map[*ssa.Function]bool // started by a go statement somewhere
}

var callerCache = map[*World]*callerIndex{}

func (w *World) callers() *callerIndex {
	if c, ok := callerCache[w]; ok {
		return c
	}
	ci := &callerIndex{sync: map[*ssa.Function][]*ssa.Function{}, spawn: map[*ssa.Function]bool{}}
	for _, f := range w.funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, isGo := in.(*ssa.Go)
				for _, g := range w.pts.Callees(c) {
					if isGo {
						ci.spawn[g] = true
					} else if !seen[g] {
						seen[g] = true
						ci.sync[g] = append(ci.sync[g], f)
					}
				}
			}
		}
	}
	callerCache[w] = ci
	return ci
}

// isEntry: the function has no callers in the repository (an API function, a goroutine, a callback).
func (w *World) isEntry(f *ssa.Function) bool {
	ci := w.callers()
	return len(ci.sync[f]) == 0 || ci.spawn[f]
}

// climb explores fn; when that reports something, the contexts fn is called from are explored instead (a guard may
// be in a caller). A finding stays when an entry function is reached, or the context limit is hit.
func (w *World) climb(fn *ssa.Function, explore func(root *ssa.Function) []*Finding) []*Finding {
	type key struct{ f *ssa.Function }
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, depth int) []*Finding
	up = func(f *ssa.Function, depth int) []*Finding {
		if seen[f] {
			return nil
		}
		seen[f] = true
		fs := explore(f)
		if len(fs) == 0 {
			return nil
		}
		if w.isEntry(f) || depth >= 5 {
			return fs
		}
		var res []*Finding
		for _, c := range w.callers().sync[f] {
			res = append(res, up(c, depth+1)...)
		}
		return res
	}
	return up(fn, 0)
}

// ---------- loops ----------

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function][]*Loop{}

func loopsOf(f *ssa.Function) []*Loop {
	if l, ok := loopCache[f]; ok {
		return l
	}
	var res []*Loop
	byH := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byH[s]
			if l == nil {
				l = &Loop{fn: f, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byH[s] = l
				res = append(res, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopCache[f] = res
	return res
}

func loopWithHeader(b *ssa.BasicBlock) *Loop {
	for _, l := range loopsOf(b.Parent()) {
		if l.header == b {
			return l
		}
	}
	return nil
}

// headerIf returns the condition at the end of the loop header if it decides about another iteration.
func (l *Loop) headerIf() (*ssa.If, int) {
	in, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, 0
	}
	a, b := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
	switch {
	case a && !b:
		return in, 0
	case b && !a:
		return in, 1
	}
	return nil, 0
}

type walkKind int

const (
	walkUnknown walkKind = iota
	walkFull
	walkPartial
)

// walk tells whether the loop visits every index of a slice; coll is that slice (the value whose length bounds it).
func (l *Loop) walk() (coll ssa.Value, idx ssa.Value, kind walkKind, why string) {
	hi, body := l.headerIf()
	if hi == nil {
		return nil, nil, walkUnknown, ""
	}
	// range over a map, string or iterator
	if ex, ok := hi.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if n, ok := ex.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return r.X, nil, walkFull, ""
			}
		}
	}
	c, ok := hi.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, walkUnknown, ""
	}
	op, x, y := c.Op, c.X, c.Y
	if body == 1 { // the loop goes on when the condition is false
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.GTR:
		op, x, y = token.LSS, y, x
	case token.GEQ:
		op, x, y = token.LEQ, y, x
	}
	// ascending: idx < len(coll), idx <= len(coll)-1, idx != len(coll)
	if op == token.LSS || op == token.NEQ || op == token.LEQ {
		base, off, lc := lenPlus(y)
		if lc != nil {
			want := int64(0)
			if op == token.LEQ {
				want = -1
			}
			start, step, iv := induction(l, x)
			if iv {
				if step == 1 {
					if start == 0 && off == want {
						return lc, x, walkFull, ""
					}
					if start > 0 {
						return lc, x, walkPartial, fmt.Sprintf("it starts at index %d", start)
					}
					if off < want {
						return lc, x, walkPartial, "it ends before the last element"
					}
				} else if step > 1 {
					return lc, x, walkPartial, "it leaves elements out"
				}
			}
			_ = base
		}
	}
	// descending: 0 <= idx, -1 < idx
	if op == token.LEQ || op == token.LSS {
		if k, ok := constInt(x); ok {
			low := k
			if op == token.LSS {
				low = k + 1
			}
			// the phi starts at len-1
			if phi, ok := y.(*ssa.Phi); ok && phi.Block() == l.header {
				for i, e := range phi.Edges {
					if l.blocks[phi.Block().Preds[i]] {
						continue
					}
					if _, off, lc := lenPlus(e); lc != nil {
						if low == 0 && off == -1 {
							return lc, y, walkFull, ""
						}
						if low > 0 || off < -1 {
							return lc, y, walkPartial, "it leaves out elements at an end"
						}
					}
				}
			}
		}
	}
	return nil, nil, walkUnknown, ""
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// lenPlus matches len(c)+k.
func lenPlus(v ssa.Value) (ssa.Value, int64, ssa.Value) {
	off := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.BinOp:
			if k, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if x.Op == token.SUB {
					k = -k
				}
				off += k
				v = x.X
				continue
			}
			return nil, 0, nil
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return v, off, x.Call.Args[0]
			}
			return nil, 0, nil
		default:
			return nil, 0, nil
		}
	}
}

// induction: v is an induction variable of the loop as seen at the header condition: first value and step.
func induction(l *Loop, v ssa.Value) (start, step int64, ok bool) {
	add := int64(0)
	for {
		if b, isB := v.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) {
			k, isC := constInt(b.Y)
			if !isC {
				return 0, 0, false
			}
			if b.Op == token.SUB {
				k = -k
			}
			add += k
			v = b.X
			continue
		}
		break
	}
	phi, isPhi := v.(*ssa.Phi)
	if !isPhi || phi.Block() != l.header {
		return 0, 0, false
	}
	first, stepv := int64(0), int64(0)
	haveF, haveS := false, false
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			d := int64(0)
			x := e
			for {
				if b, isB := x.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) {
					k, isC := constInt(b.Y)
					if !isC {
						return 0, 0, false
					}
					if b.Op == token.SUB {
						k = -k
					}
					d += k
					x = b.X
					continue
				}
				break
			}
			if x != phi || haveS && d != stepv {
				return 0, 0, false
			}
			stepv, haveS = d, true
		} else {
			k, isC := constInt(e)
			if !isC || haveF && k != first {
				return 0, 0, false
			}
			first, haveF = k, true
		}
	}
	if !haveF || !haveS {
		return 0, 0, false
	}
	return first + add, stepv, true
}

// srcFields: the fields a value (a slice, an element address) is taken from, following copies.
func (w *World) srcFields(v ssa.Value) map[*types.Var]bool {
	res := map[*types.Var]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 20 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			walk(v.X, d+1)
		case *ssa.FieldAddr:
			res[fieldVar(v.X.Type(), v.Field)] = true
		case *ssa.Field:
			res[fieldVar(v.X.Type(), v.Field)] = true
		case *ssa.IndexAddr:
			walk(v.X, d+1)
		case *ssa.Slice:
			walk(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, d+1)
			}
		case *ssa.ChangeType:
			walk(v.X, d+1)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					walk(s.Val, d+1)
				}
			}
		case *ssa.FreeVar:
			fn := v.Parent()
			for i, fv := range fn.FreeVars {
				if fv != v {
					continue
				}
				for _, mc := range closuresOf(w, fn) {
					walk(mc.Bindings[i], d+1)
				}
			}
		case *ssa.Parameter:
			fn := v.Parent()
			for i, p := range fn.Params {
				if p != v {
					continue
				}
				for _, c := range w.callSitesOf(fn) {
					args := c.Common().Args
					if c.Common().IsInvoke() {
						if i == 0 {
							continue
						}
						walk(args[i-1], d+1)
					} else if i < len(args) {
						walk(args[i], d+1)
					}
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range v.Call.Args {
					walk(a, d+1)
				}
				return
			}
			if f := v.Call.StaticCallee(); f != nil {
				if w.inRepo(f) && f.Blocks != nil {
					for _, b := range f.Blocks {
						if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, x := range rt.Results {
								walk(x, d+1)
							}
						}
					}
				} else {
					for _, a := range v.Call.Args {
						walk(a, d+1)
					}
				}
			}
		}
	}
	walk(v, 0)
	return res
}

func closuresOf(w *World, fn *ssa.Function) []*ssa.MakeClosure {
	var res []*ssa.MakeClosure
	p := fn.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				res = append(res, mc)
			}
		}
	}
	return res
}

var callSiteCache = map[*World]map[*ssa.Function][]ssa.CallInstruction{}

func (w *World) callSitesOf(fn *ssa.Function) []ssa.CallInstruction {
	m := callSiteCache[w]
	if m == nil {
		m = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range w.pts.Callees(c) {
							m[g] = append(m[g], c)
						}
					}
				}
			}
		}
		callSiteCache[w] = m
	}
	return m[fn]
}

// ---------- walks: per-iteration action counts ----------

type walkInfo struct {
	loop   *Loop
	acted  map[string]bool
	skips  map[string]string // action kind -> trace
	dups   map[string]string
	breaks map[string]string
}

// walks counts, for every loop on the stack, the actions of each iteration.
type walks struct {
	w     *World
	infos map[*Loop]*walkInfo
	kinds []string
}

func newWalks(w *World, kinds ...string) *walks {
	return &walks{w: w, infos: map[*Loop]*walkInfo{}, kinds: kinds}
}

func (t *walks) info(l *Loop) *walkInfo {
	i := t.infos[l]
	if i == nil {
		i = &walkInfo{loop: l, acted: map[string]bool{}, skips: map[string]string{}, dups: map[string]string{}, breaks: map[string]string{}}
		t.infos[l] = i
	}
	return i
}

func loopKey(fr *Frame, l *Loop) string { return fmt.Sprintf("W%d:%d", fr.id, l.header.Index) }

func (t *walks) end(st *State, fr *Frame, l *Loop, k string, broke bool) {
	for _, kind := range t.kinds {
		inf := t.info(l)
		n := st.rs[k+kind]
		_, open := st.rs[k]
		if open && !broke && !st.has(k+kind) {
			if _, ok := inf.skips[kind]; !ok {
				inf.skips[kind] = strings.Join(st.traceText(6), "; ")
			}
		}
		if broke {
			if _, ok := inf.breaks[kind]; !ok {
				inf.breaks[kind] = strings.Join(st.traceText(6), "; ")
			}
		}
		_ = n
		st.unset(k + kind)
	}
	st.unset(k)
}

func (t *walks) onBranch(ex *Explorer, st *State, in *ssa.If, taken bool) {
	b := in.Block()
	l := loopWithHeader(b)
	if l == nil {
		return
	}
	hi, body := l.headerIf()
	if hi != in {
		return
	}
	fr := st.top().fr
	k := loopKey(fr, l)
	if st.has(k) {
		t.end(st, fr, l, k, false)
	}
	s := 1
	if taken {
		s = 0
	}
	if s == body {
		st.set(k)
	}
}

func (t *walks) onBlock(ex *Explorer, st *State, b *ssa.BasicBlock) {
	fr := st.top().fr
	for _, l := range loopsOf(b.Parent()) {
		k := loopKey(fr, l)
		if st.has(k) && !l.blocks[b] {
			t.end(st, fr, l, k, true)
		}
	}
}

// onReturn: a return inside a loop body is outside of the loop's blocks, so it is covered by onBlock; this only cleans up.
func (t *walks) onReturn(st *State, fr *Frame) {
	p := fmt.Sprintf("W%d:", fr.id)
	for k := range st.rs {
		if strings.HasPrefix(k, p) {
			delete(st.rs, k)
		}
	}
}

// act records an action of the given kind in all open loops.
func (t *walks) act(st *State, kind string) {
	for k := range st.rs {
		if strings.HasPrefix(k, "W") && !strings.HasSuffix(k, kind) {
			// a loop key has the form W<frame>:<header>
			if i := strings.IndexByte(k, ':'); i > 0 && isDigits(k[i+1:]) {
				l := t.loopOfKey(st, k)
				if l == nil {
					continue
				}
				inf := t.info(l)
				inf.acted[kind] = true
				if st.has(k + kind) {
					if _, ok := inf.dups[kind]; !ok {
						inf.dups[kind] = strings.Join(st.traceText(6), "; ")
					}
				}
				st.set(k + kind)
			}
		}
	}
}

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func (t *walks) loopOfKey(st *State, k string) *Loop {
	var fid, h int
	fmt.Sscanf(k, "W%d:%d", &fid, &h)
	for _, f := range st.frames {
		if f.fr.id == fid {
			for _, l := range loopsOf(f.fr.fn) {
				if l.header.Index == h {
					return l
				}
			}
		}
	}
	return nil
}

// inLoop reports whether a loop is open on the current path.
func (t *walks) inLoop(st *State) bool {
	for k := range st.rs {
		if strings.HasPrefix(k, "W") {
			if i := strings.IndexByte(k, ':'); i > 0 && isDigits(k[i+1:]) {
				return true
			}
		}
	}
	return false
}

// problems lists what is wrong with the loops that performed the action: once per element, for every element.
func (t *walks) problems(kind string, f func(l *Loop, what, detail string)) {
	var ls []*Loop
	for l := range t.infos {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].header.Instrs[0].Pos() < ls[j].header.Instrs[0].Pos() })
	for _, l := range ls {
		inf := t.infos[l]
		if !inf.acted[kind] {
			continue
		}
		if d, ok := inf.skips[kind]; ok {
			f(l, "skip", d)
		}
		if d, ok := inf.dups[kind]; ok {
			f(l, "twice", d)
		}
		if d, ok := inf.breaks[kind]; ok {
			f(l, "stop", d)
		}
		if c, _, wk, why := l.walk(); wk == walkPartial {
			f(l, "partial", why)
		} else if sl, ok := c.(*ssa.Slice); ok && wk == walkFull {
			if k, isC := int64(0), true; sl.Low != nil {
				if k, isC = constInt(sl.Low); !isC || k > 0 {
					f(l, "partial", "it leaves out elements at the start")
				}
			}
			if sl.High != nil {
				if _, off, lc := lenPlus(sl.High); lc == nil || off < 0 {
					f(l, "partial", "it leaves out elements at the end")
				}
			}
		}
	}
}

func (w *World) loopPos(l *Loop) string {
	for _, in := range l.header.Instrs {
		if in.Pos() != token.NoPos {
			return w.ipos(in)
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return w.ipos(in)
			}
		}
	}
	return w.ipos(l.header.Instrs[0])
}

// ---------- small helpers for rules ----------

// srcField: the field a term was loaded from.
func srcField(t *Term) string {
	if t == nil {
		return ""
	}
	if t.op == "sym" && t.src != nil && t.src.op == "&" {
		return fieldKey(t.src.payload.(*types.Var))
	}
	if t.op == "*" && t.args[0].op == "&" {
		return fieldKey(t.args[0].payload.(*types.Var))
	}
	if t.op == "field" {
		return fieldKey(t.payload.(*types.Var))
	}
	return ""
}

// fnsWhere returns the repository functions that contain a matching instruction.
func (w *World) fnsWhere(p func(f *ssa.Function, in ssa.Instruction) bool) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range w.funcs {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if p(f, in) {
					hit = true
				}
			}
		}
		if hit {
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i])+res[i].String() < fnKey(res[j])+res[j].String() })
	return res
}

// uniqFns keeps one function per key (one of the instances of a generic function).
func uniqFns(fs []*ssa.Function) []*ssa.Function {
	seen := map[string]bool{}
	var res []*ssa.Function
	for _, f := range fs {
		if k := fnKey(f); !seen[k] {
			seen[k] = true
			res = append(res, f)
		}
	}
	return res
}

// storesTo: the instruction stores to one of the given fields.
func storeField(in ssa.Instruction) *types.Var {
	s, ok := in.(*ssa.Store)
	if !ok {
		return nil
	}
	if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
		return fieldVar(fa.X.Type(), fa.Field)
	}
	return nil
}

// callsMethod: the instruction is a call (direct or through an interface) of a method with one of the names on a
// receiver type of the repository.
func callName(in ssa.Instruction) (recv, name string) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", ""
	}
	com := c.Common()
	if com.IsInvoke() {
		return shortType(typeKey(com.Value.Type())), com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		k := fnKey(f)
		return "", k
	}
	return "", ""
}

func isInvoke(in ssa.Instruction, names ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || !c.Common().IsInvoke() {
		return false
	}
	for _, n := range names {
		if c.Common().Method.Name() == n {
			return true
		}
	}
	return false
}

// factsAbout iterates the facts of the state.
func (st *State) holds(match func(c *Term, v bool) bool) bool {
	for c, v := range st.facts {
		if match(c, v) {
			return true
		}
	}
	return false
}

func other(eq, t *Term) *Term {
	if eq.args[0] == t {
		return eq.args[1]
	}
	if eq.args[1] == t {
		return eq.args[0]
	}
	return nil
}

type findings struct {
	list []*Finding
	seen map[string]bool
}

func (f *findings) add(rule, key, pos, msg string, detail ...string) {
	if f.seen == nil {
		f.seen = map[string]bool{}
	}
	if f.seen[rule+key] {
		return
	}
	f.seen[rule+key] = true
	f.list = append(f.list, &Finding{rule, key, pos, msg, detail})
}

func (r *Result) addAll(fs []*Finding) {
	for _, f := range fs {
		r.report(f.Rule, f.Key, f.Pos, f.Msg, f.Detail...)
	}
}

func fmtInt(i int) string { return fmt.Sprint(i) }

func parse2(s, format string, a, b *int) { fmt.Sscanf(s, format, a, b) }
