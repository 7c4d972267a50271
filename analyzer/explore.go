package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The explorer walks the control flow of a root function with all relevant callees spliced in at their call sites
// (a path-sensitive, bounded-inlining dataflow analysis). It keeps a store of symbolic terms so that correlated
// branches, guards in helpers, values returned through several functions and captured variables are understood.
// Rules are automata that observe the events of a walk.

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	key    string
	depth  int
}

type deferEntry struct {
	instr  *ssa.Defer
	callee []calleeT
	args   []*Term
}

type calleeT struct {
	fn       *ssa.Function
	bindings []*Term // for closures; nil = unknown
	recv     *Term   // receiver for interface calls
	name     string  // external name
	onceOf   *Term
}

type FState struct {
	fr     *Frame
	regs   map[ssa.Value]*Term
	block  *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	defers []deferEntry
	// deferring: a RunDefers instruction is in progress
	onRet   func(ex *Explorer, st *State, res []*Term)
	isDefer bool
	ownRegs bool
}

type Trace struct {
	prev *Trace
	text string
	n    int
}

type State struct {
	frames []*FState
	mem    map[*Term]*Term
	facts  map[*Term]bool
	rs     map[string]*Term
	trace  *Trace
	dead   bool
}

type Rule struct {
	Interesting func(in ssa.Instruction) bool
	// OnInstr is called before an instruction is executed. It may change st.rs, set st.dead, or report.
	OnInstr func(ex *Explorer, st *State, in ssa.Instruction)
	// OnCall is called for each resolved callee of a call (also for deferred calls when they run, and for external callees with fn == nil or without body).
	OnCall func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool)
	// OnSelect is called when a case of a select is taken (idx -1 = default).
	OnSelect func(ex *Explorer, st *State, sel *ssa.Select, idx int)
	OnBranch func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool)
	// OnReturn is called when a frame is left regularly (res = results).
	OnReturn func(ex *Explorer, st *State, fr *Frame, res []*Term)
	// OnResult is called after call results are known.
	OnResult func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term)
	// OnExit is called when the root frame is left regularly.
	OnExit func(ex *Explorer, st *State, res []*Term)
	// OnPanic is called when a path ends in a panic or a process exit.
	OnPanic func(ex *Explorer, st *State, in ssa.Instruction, what string)
	// OnBlock is called on entry of a block.
	OnBlock func(ex *Explorer, st *State, b *ssa.BasicBlock)
	// OnEdge is called when a block is entered from its predecessor pi, before its phis change.
	OnEdge func(ex *Explorer, st *State, b *ssa.BasicBlock, pi int)
	// Forks lets a rule fork on an instruction: returns variants of rule state
	NoInline func(f *ssa.Function) bool
	Inline   func(f *ssa.Function) bool
	OnAlloc  func(ex *Explorer, st *State, in *ssa.Alloc, t *Term)
	// Fresh: the object is not yet shared (its fields are kept apart from those of the shared object).
	Fresh func(st *State, base *Term) bool
	// Canon decides whether all objects of the owner type are one object.
	Canon func(owner string) bool
	// OnLoad is called after a load.
	OnLoad func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term)
	// StoreVal may replace a stored value by an abstraction of it.
	StoreVal func(ex *Explorer, st *State, in *ssa.Store, addr, val *Term) *Term
	// Volatile fields are never remembered (they may be changed by other goroutines at any time).
	Volatile func(v *types.Var) bool
	// Abstract: numbers and strings are not tracked (conditions over them are undetermined).
	Abstract bool
	// SendRuns: a function that is sent over a channel is executed (by the receiver of the channel).
	SendRuns bool
	// NoNumbers: like Abstract for numbers and strings, but objects are tracked as usual.
	NoNumbers bool
	// Weak rule-state keys: their term does not keep the symbol alive; the entry is dropped with the symbol.
	Weak func(key string) bool
}

type Explorer struct {
	fp      map[*Term]bool // terms a rule recognises
	w       *World
	ts      *Terms
	rule    *Rule
	frames  map[string]*Frame
	visited map[string]bool
	reachM  map[*ssa.Function]bool
	smallM  map[*ssa.Function]int
	modM    map[*ssa.Function]*modSet
	live    map[*ssa.Function]*liveInfo
	work    []*State
	steps   int
	budget  int
	states  int
	over    bool
	inlined map[*ssa.Function]bool
	events  int
	initial map[string]*Term
}

// deadline: the exploration gives up (and says so) rather than giving no answer.
var deadline = time.Now().Add(10 * time.Minute)

func newExplorer(w *World, r *Rule) *Explorer {
	return &Explorer{w: w, ts: newTerms(), rule: r, frames: map[string]*Frame{}, visited: map[string]bool{}, reachM: map[*ssa.Function]bool{}, smallM: map[*ssa.Function]int{},
		modM: map[*ssa.Function]*modSet{}, live: map[*ssa.Function]*liveInfo{}, budget: 4_000_000, inlined: map[*ssa.Function]bool{}}
}

var singletonTypes = map[string]bool{
	"rx.Receiver": true, "rx.PeaksTable": true, "rx.ListenerPool": true, "rx.ChannelWriter": true,
	"scope.ScopeServer": true, "scope.grpcServer": true, "scope.Client": true, "telnet.Server": true,
	"tci.Process": true, "tci.tciListener": true, "kiwi.Process": true, "kiwi.Client": true, "cw.AudioDemodulator": true,
}

func (ex *Explorer) canon(owner string) bool {
	if ex.rule.Canon != nil {
		return ex.rule.Canon(owner)
	}
	return singletonTypes[owner]
}

func (ex *Explorer) frame(fn *ssa.Function, parent *Frame, site ssa.Instruction) *Frame {
	key := ""
	if parent != nil {
		key = fmt.Sprintf("%d/%p/%p", parent.id, site, fn)
	} else {
		key = fmt.Sprintf("root/%p", fn)
	}
	if f, ok := ex.frames[key]; ok {
		return f
	}
	f := &Frame{id: len(ex.frames), fn: fn, parent: parent, site: site, key: key}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	ex.frames[key] = f
	return f
}

// ---------- static helper analyses ----------

type liveInfo struct {
	in    []map[ssa.Value]bool // per block
	after map[ssa.Instruction]map[ssa.Value]bool
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

func (ex *Explorer) liveness(f *ssa.Function) *liveInfo {
	if l, ok := ex.live[f]; ok {
		return l
	}
	n := len(f.Blocks)
	l := &liveInfo{in: make([]map[ssa.Value]bool, n), after: map[ssa.Instruction]map[ssa.Value]bool{}}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	ex.live[f] = l
	transfer := func(b *ssa.BasicBlock, out map[ssa.Value]bool, rec bool) map[ssa.Value]bool {
		cur := out
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if rec {
				if _, ok := in.(ssa.CallInstruction); ok {
					c := map[ssa.Value]bool{}
					for v := range cur {
						c[v] = true
					}
					l.after[in] = c
				}
				if _, ok := in.(*ssa.RunDefers); ok {
					c := map[ssa.Value]bool{}
					for v := range cur {
						c[v] = true
					}
					l.after[in] = c
				}
			}
			if v, ok := in.(ssa.Value); ok {
				delete(cur, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && isReg(*op) {
					cur[*op] = true
				}
			}
		}
		return cur
	}
	out := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		o := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range l.in[s.Index] {
				o[v] = true
			}
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if pi >= 0 && isReg(phi.Edges[pi]) {
					o[phi.Edges[pi]] = true
				}
			}
		}
		return o
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := transfer(b, out(b), false)
			if len(cur) != len(l.in[i]) {
				l.in[i] = cur
				changed = true
			}
		}
	}
	for _, b := range f.Blocks {
		transfer(b, out(b), true)
	}
	return l
}

// reach: can executing f reach an interesting instruction?
func (ex *Explorer) reach(f *ssa.Function) bool {
	if r, ok := ex.reachM[f]; ok {
		return r
	}
	// compute SCC-free closure by DFS collecting
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, c := range ex.callees(f) {
			dfs(c)
		}
		order = append(order, f)
	}
	dfs(f)
	res := map[*ssa.Function]bool{}
	for g := range seen {
		if ex.rule.Interesting == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ex.rule.Interesting(in) {
					res[g] = true
				}
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for _, g := range order {
			if res[g] {
				continue
			}
			for _, c := range ex.callees(g) {
				if res[c] {
					res[g] = true
					changed = true
					break
				}
			}
		}
	}
	for g := range seen {
		ex.reachM[g] = res[g]
	}
	return res[f]
}

var calleeCache = map[*ssa.Function][]*ssa.Function{}

// callees of f executed on the same goroutine (static, dynamic, deferred, callbacks).
func (ex *Explorer) callees(f *ssa.Function) []*ssa.Function { return ex.w.calleesOf(f) }

func (w *World) calleesOf(f *ssa.Function) []*ssa.Function {
	if r, ok := calleeCache[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			for _, g := range w.pts.Callees(c) {
				if !seen[g] {
					seen[g] = true
					res = append(res, g)
				}
			}
		}
	}
	calleeCache[f] = res
	return res
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func numInstrs(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (ex *Explorer) small(f *ssa.Function) bool {
	switch ex.smallM[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	ex.smallM[f] = 3
	limit := 40
	if rs := f.Signature.Results(); rs.Len() > 0 && f.Signature.Results().At(rs.Len()-1).Type().Underlying() == types.Typ[types.Bool] {
		// what it says matters to its caller
		limit = 120
	}
	ok := numInstrs(f) <= limit && !hasLoop(f)
	if ok {
		for _, c := range ex.callees(f) {
			if !ex.small(c) {
				ok = false
				break
			}
		}
	}
	if ok {
		ex.smallM[f] = 1
	} else {
		ex.smallM[f] = 2
	}
	return ok
}

func (ex *Explorer) shouldInline(f *ssa.Function) bool {
	if f.Blocks == nil || !ex.w.inRepo(f) {
		return false
	}
	if ex.rule.NoInline != nil && ex.rule.NoInline(f) {
		return false
	}
	if ex.rule.Inline != nil && ex.rule.Inline(f) {
		return true
	}
	return ex.reach(f) || ex.small(f)
}

type modSet struct {
	fields map[*types.Var]bool
	elems  map[string]bool
	cells  bool
}

func (w *World) directMods(f *ssa.Function, m *modSet) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					m.fields[fieldVar(a.X.Type(), a.Field)] = true
				case *ssa.IndexAddr:
					m.elems[elemTypeKey(a.X.Type())] = true
				case *ssa.Alloc:
				default:
					m.cells = true
					// through a pointer: may be the address of a field
					for _, o := range w.pts.Objs(in.Addr) {
						if o.kind == oField {
							m.fields[o.field] = true
						}
					}
				}
			case *ssa.MapUpdate:
				m.elems[elemTypeKey(in.Map.Type())] = true
			case ssa.CallInstruction:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy", "append":
						if len(in.Common().Args) > 0 {
							m.elems[elemTypeKey(in.Common().Args[0].Type())] = true
						}
					}
				}
			}
		}
	}
}

func elemTypeKey(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeStr(u.Elem())
	case *types.Array:
		return typeStr(u.Elem())
	case *types.Map:
		return typeStr(u)
	}
	return typeStr(t)
}

func (ex *Explorer) mods(f *ssa.Function) *modSet {
	if m, ok := ex.modM[f]; ok {
		return m
	}
	m := ex.w.modsOf(f)
	ex.modM[f] = m
	return m
}

func (w *World) modsOf(f *ssa.Function) *modSet {
	m := &modSet{fields: map[*types.Var]bool{}, elems: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		w.directMods(f, m)
		for _, c := range w.calleesOf(f) {
			dfs(c)
		}
	}
	dfs(f)
	return m
}

// ---------- states ----------

func (st *State) top() *FState { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{trace: st.trace, dead: st.dead}
	n.frames = make([]*FState, len(st.frames))
	for i, f := range st.frames {
		c := *f
		c.regs = make(map[ssa.Value]*Term, len(f.regs))
		for k, v := range f.regs {
			c.regs[k] = v
		}
		c.defers = append([]deferEntry(nil), f.defers...)
		n.frames[i] = &c
	}
	n.mem = make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.rs = make(map[string]*Term, len(st.rs))
	for k, v := range st.rs {
		n.rs[k] = v
	}
	return n
}

func (st *State) note(format string, args ...any) {
	n := 0
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &Trace{prev: st.trace, text: fmt.Sprintf(format, args...), n: n}
}

func (st *State) traceText(max int) []string {
	var res []string
	for t := st.trace; t != nil && len(res) < max; t = t.prev {
		res = append(res, t.text)
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	return res
}

func (st *State) stack(w *World) []string {
	var res []string
	for _, f := range st.frames {
		p := "start"
		if f.fr.site != nil {
			p = w.ipos(f.fr.site)
		}
		res = append(res, fnKey(f.fr.fn)+" called at "+p)
	}
	return res
}

func (st *State) set(k string)           { st.rs[k] = nil }
func (st *State) has(k string) bool      { _, ok := st.rs[k]; return ok }
func (st *State) unset(k string)         { delete(st.rs, k) }
func (st *State) setT(k string, t *Term) { st.rs[k] = t }

// gc drops dead registers, memory and facts.
func (ex *Explorer) gc(st *State) {
	alive := map[*Term]bool{}
	mark := func(t *Term) bool {
		ch := false
		if t == nil {
			return false
		}
		for _, s := range t.syms {
			if !alive[s] {
				alive[s] = true
				ch = true
			}
		}
		return ch
	}
	for i, f := range st.frames {
		l := ex.liveness(f.fr.fn)
		var keep map[ssa.Value]bool
		if i == len(st.frames)-1 {
			keep = l.in[f.block.Index]
			if f.idx != 0 {
				keep = nil
			}
		} else if f.idx > 0 {
			keep = l.after[f.block.Instrs[f.idx-1]]
		}
		for v, t := range f.regs {
			if keep != nil && !keep[v] {
				delete(f.regs, v)
				continue
			}
			mark(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mark(a)
			}
			for _, c := range d.callee {
				mark(c.recv)
				for _, b := range c.bindings {
					mark(b)
				}
			}
		}
	}
	for k, t := range st.rs {
		if ex.rule.Weak != nil && ex.rule.Weak(k) {
			continue
		}
		mark(t)
	}
	// memory: an entry stays while its address can still be formed
	changed := true
	for changed {
		changed = false
		for a, v := range st.mem {
			ok := true
			for _, s := range a.syms {
				if !alive[s] {
					ok = false
					break
				}
			}
			if ok && mark(v) {
				changed = true
			}
		}
	}
	if ex.rule.Weak != nil {
		for k, t := range st.rs {
			if t == nil || !ex.rule.Weak(k) {
				continue
			}
			for _, s := range t.syms {
				if !alive[s] {
					delete(st.rs, k)
					break
				}
			}
		}
	}
	for a := range st.mem {
		for _, s := range a.syms {
			if !alive[s] {
				delete(st.mem, a)
				break
			}
		}
	}
	for f := range st.facts {
		for _, s := range f.syms {
			if !alive[s] {
				delete(st.facts, f)
				break
			}
		}
	}
	if ex.rule.Abstract && len(st.facts) > 0 {
		// facts about loaded values are kept while the value is in a register
		held := map[*Term]bool{}
		var add func(t *Term)
		add = func(t *Term) {
			if t == nil || held[t] {
				return
			}
			held[t] = true
			for _, a := range t.args {
				add(a)
			}
		}
		for _, f := range st.frames {
			for _, t := range f.regs {
				add(t)
			}
			for _, d := range f.defers {
				for _, a := range d.args {
					add(a)
				}
			}
		}
		for f := range st.facts {
			for _, a := range f.args {
				if a.op == "*" && !held[a] {
					delete(st.facts, f)
					break
				}
			}
		}
	}
}

func (ex *Explorer) key(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "F%d:%d:%d", f.fr.id, f.block.Index, f.idx)
		if f.isDefer {
			b.WriteString("d")
		}
		ks := make([]string, 0, len(f.regs))
		for v, t := range f.regs {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&b, ";D%d", ex.w.instrIndex[d.instr])
		}
		b.WriteString("|")
	}
	pairs := make([]string, 0, len(st.mem)+len(st.facts)+len(st.rs))
	for a, v := range st.mem {
		pairs = append(pairs, fmt.Sprintf("m%d=%d", a.id, v.id))
	}
	for a, v := range st.facts {
		pairs = append(pairs, fmt.Sprintf("f%d=%t", a.id, v))
	}
	for a, v := range st.rs {
		id := -1
		if v != nil {
			id = v.id
		}
		pairs = append(pairs, fmt.Sprintf("r%s=%d", a, id))
	}
	sort.Strings(pairs)
	b.WriteString(strings.Join(pairs, ","))
	return b.String()
}

// ---------- terms of values ----------

func (ex *Explorer) val(st *State, v ssa.Value) *Term { return ex.valIn(st, st.top(), v) }

func (ex *Explorer) valIn(st *State, f *FState, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isNilable(v.Type()) {
				return ex.ts.Nil
			}
			return ex.ts.App("zero", v.Type(), v.Type())
		}
		return ex.ts.Const(v.Value, v.Type())
	case *ssa.Function:
		return ex.ts.App("func", v, v.Type())
	case *ssa.Global:
		return ex.ts.App("global", v.String(), v.Type())
	case *ssa.Builtin:
		return ex.ts.App("builtin", v.Name(), v.Type())
	}
	if t, ok := f.regs[v]; ok {
		return t
	}
	if ex.abstract(v.Type()) {
		return ex.any()
	}
	t := ex.fresh(st, f, v, nil)
	f.regs[v] = t
	return t
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil) {
		return true
	}
	return false
}

func (ex *Explorer) symName(f *FState, v ssa.Value) string {
	return fmt.Sprintf("%d:%s", f.fr.id, v.Name())
}

// fresh creates the symbol of v in its frame; an older symbol of the same place is renamed.
func (ex *Explorer) fresh(st *State, f *FState, v ssa.Value, src *Term) *Term {
	return ex.freshNamed(st, ex.symName(f, v), src, v.Type(), v)
}

func (ex *Explorer) freshNamed(st *State, name string, src *Term, typ types.Type, payload any) *Term {
	t := ex.ts.Sym(name, 0, src, typ, payload)
	if ex.mentions(st, name) {
		ex.shift(st, name)
	}
	return t
}

func (ex *Explorer) mentions(st *State, name string) bool {
	in := func(t *Term) bool {
		if t == nil {
			return false
		}
		for _, s := range t.syms {
			if s.name == name {
				return true
			}
		}
		return false
	}
	for _, f := range st.frames {
		for _, t := range f.regs {
			if in(t) {
				return true
			}
		}
	}
	for a, v := range st.mem {
		if in(a) || in(v) {
			return true
		}
	}
	for a := range st.facts {
		if in(a) {
			return true
		}
	}
	for _, v := range st.rs {
		if in(v) {
			return true
		}
	}
	return false
}

// shift renames all symbols with the given name to an older generation.
func (ex *Explorer) shift(st *State, name string) {
	m := map[*Term]*Term{}
	collect := func(t *Term) {
		if t == nil {
			return
		}
		for _, s := range t.syms {
			if s.name == name && m[s] == nil {
				g := s.gen + 1
				if g > 1 {
					g = 1
				}
				if s.gen < 1 {
					m[s] = ex.ts.Sym(s.name, g, s.src, s.typ, s.payload)
				}
			}
		}
	}
	for _, f := range st.frames {
		for _, t := range f.regs {
			collect(t)
		}
	}
	for a, v := range st.mem {
		collect(a)
		collect(v)
	}
	for a := range st.facts {
		collect(a)
	}
	for _, v := range st.rs {
		collect(v)
	}
	memo := map[*Term]*Term{}
	// facts about an existing older generation are no longer reliable
	for a := range st.facts {
		for _, s := range a.syms {
			if s.name == name && s.gen >= 1 {
				delete(st.facts, a)
				break
			}
		}
	}
	for _, f := range st.frames {
		for k, t := range f.regs {
			f.regs[k] = ex.ts.rename(t, m, memo)
		}
		for i := range f.defers {
			d := &f.defers[i]
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = ex.ts.rename(a, m, memo)
			}
			d.args = na
		}
	}
	nm := make(map[*Term]*Term, len(st.mem))
	for a, v := range st.mem {
		nm[ex.ts.rename(a, m, memo)] = ex.ts.rename(v, m, memo)
	}
	st.mem = nm
	nf := make(map[*Term]bool, len(st.facts))
	for a, v := range st.facts {
		nf[ex.ts.rename(a, m, memo)] = v
	}
	st.facts = nf
	for k, v := range st.rs {
		st.rs[k] = ex.ts.rename(v, m, memo)
	}
}

func (ex *Explorer) fieldAddr(st *State, base *Term, t types.Type, fv *types.Var, typ types.Type) *Term {
	owner := fieldOwner[fv]
	if owner != "" && ex.canon(owner) && !(base.op == "alloc" && ex.rule.Fresh != nil && ex.rule.Fresh(st, base)) {
		base = ex.ts.App("the", owner, nil)
	}
	return ex.ts.App("&", fv, typ, base)
}

func (ex *Explorer) isVolatile(a *Term) bool {
	if ex.rule.Volatile == nil {
		return false
	}
	if v, ok := a.payload.(*types.Var); ok && a.op == "&" {
		return ex.rule.Volatile(v)
	}
	return false
}

func (ex *Explorer) load(st *State, f *FState, v ssa.Value, addr *Term) *Term {
	if ex.abstract(v.Type()) {
		return ex.any()
	}
	if ex.rule.Abstract {
		if t, ok := st.mem[addr]; ok {
			return t
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 || addr.op == "any" || addr.depth > 14 {
			return ex.any()
		}
		if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr && addr.op == "&[]" {
			return ex.fresh(st, f, v, addr)
		}
		return ex.ts.App("*", nil, v.Type(), addr)
	}
	if t, ok := st.mem[addr]; ok && !ex.isVolatile(addr) {
		return t
	}
	// struct values are described by their address
	if _, ok := v.Type().Underlying().(*types.Struct); ok {
		return ex.ts.App("*", nil, v.Type(), addr)
	}
	if addr.op == "global" && isErrorType(v.Type()) && ex.w.errorConst(addr) {
		return ex.ts.App("*", nil, v.Type(), addr)
	}
	t := ex.fresh(st, f, v, addr)
	if addr.op != "sym" || true {
		if !ex.isVolatile(addr) {
			st.mem[addr] = t
		}
	}
	return t
}

// abstract: values of this type are not tracked.
func (ex *Explorer) abstract(t types.Type) bool {
	if !ex.rule.Abstract && !ex.rule.NoNumbers || t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsNumeric|types.IsString) != 0
	}
	return false
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (ex *Explorer) any() *Term { return ex.ts.App("any", nil, nil) }

// mayAlias: different address terms that could denote the same location.
func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "&" && b.op == "&" {
		if a.payload != b.payload {
			return false
		}
		x, y := a.args[0], b.args[0]
		if x.op == "the" && y.op == "the" {
			return x == y
		}
		if x.op == "alloc" && y.op == "alloc" {
			return x == y
		}
		return true
	}
	if a.op == "&[]" && b.op == "&[]" {
		if elemTypeKey2(a) != elemTypeKey2(b) {
			return false
		}
		if a.args[0] == b.args[0] && a.args[1].isConst() && b.args[1].isConst() {
			return a.args[1] == b.args[1]
		}
		return true
	}
	if a.op == "alloc" || b.op == "alloc" {
		return a == b
	}
	if a.op == "global" || b.op == "global" {
		return a == b
	}
	if a.op != b.op && (a.op == "&" || a.op == "&[]") && (b.op == "&" || b.op == "&[]") {
		return false
	}
	return a.op == "sym" || b.op == "sym"
}

func elemTypeKey2(a *Term) string {
	if a.typ == nil {
		return "?"
	}
	return typeStr(a.typ)
}

func (ex *Explorer) store(st *State, addr, val *Term) {
	if ex.rule.Abstract {
		for a := range st.mem {
			if a != addr && mayAlias(a, addr) {
				delete(st.mem, a)
			}
		}
		if addr.op == "&" || addr.op == "alloc" {
			at := ex.ts.App("*", nil, val.typ, addr)
			for f := range st.facts {
				if f.contains(at) {
					delete(st.facts, f)
				}
			}
		}
		delete(st.mem, addr)
		track := addr.op == "alloc"
		if val != nil && (val.op == "any" || val.op == "*" && val.typ != nil && isStruct(val.typ) || val.op == "zero") {
			track = false
			if addr.op == "alloc" {
				for a := range st.mem {
					if a.op == "&" && a.args[0] == addr {
						delete(st.mem, a)
					}
				}
			}
		}
		if track && val != nil {
			st.mem[addr] = val
		}
		return
	}
	for a := range st.mem {
		if a != addr && mayAlias(a, addr) {
			delete(st.mem, a)
		}
	}
	// sub-objects of a struct that is overwritten
	if val != nil {
		if _, isStruct := typUnder(val).(*types.Struct); isStruct {
			for a := range st.mem {
				if a.op == "&" && a.args[0] == addr {
					delete(st.mem, a)
				}
			}
			// field-wise copy
			if val.op == "*" {
				for a, v := range st.mem {
					if a.op == "&" && a.args[0] == val.args[0] {
						st.mem[ex.ts.App("&", a.payload, a.typ, addr)] = v
					}
				}
				return
			}
		}
	}
	if val != nil && (val.op == "any" || (ex.rule.Abstract || ex.rule.NoNumbers) && val.typ != nil && ex.abstract(val.typ)) {
		delete(st.mem, addr)
		return
	}
	if !ex.isVolatile(addr) {
		st.mem[addr] = val
	}
}

func typUnder(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

func (ex *Explorer) havoc(st *State, m *modSet) {
	for a := range st.mem {
		switch a.op {
		case "&":
			if m.fields[a.payload.(*types.Var)] {
				delete(st.mem, a)
			}
		case "&[]":
			for e := range m.elems {
				_ = e
				delete(st.mem, a)
				break
			}
		case "alloc":
			if m.cells {
				if al, ok := a.payload.(*ssa.Alloc); ok && !al.Heap {
					continue
				}
				delete(st.mem, a)
			}
		default:
			if m.cells {
				delete(st.mem, a)
			}
		}
	}
}

// ---------- conditions ----------

func (ex *Explorer) not(t *Term) *Term {
	if t == ex.ts.True {
		return ex.ts.False
	}
	if t == ex.ts.False {
		return ex.ts.True
	}
	if t.op == "not" {
		return t.args[0]
	}
	if t.op == "any" {
		return t
	}
	return ex.ts.App("not", nil, types.Typ[types.Bool], t)
}

func (ex *Explorer) binop(op token.Token, x, y *Term, typ types.Type, xt types.Type) *Term {
	if ex.rule.Abstract || ex.rule.NoNumbers {
		if x.op == "any" || y.op == "any" {
			return ex.any()
		}
		switch xt.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Struct, *types.Signature, *types.Array:
			if !(x.isConst() && y.isConst() || x.isConst() && ex.nonNil(y) || y.isConst() && ex.nonNil(x)) {
				return ex.any()
			}
		case *types.Interface:
			// errors returned by calls are tracked, references in fields are not
			if x.op != "sym" && y.op != "sym" && !(x.isConst() && ex.nonNil(y) || y.isConst() && ex.nonNil(x)) && x != y {
				return ex.any()
			}
		}
	}
	if x.op == "const" && y.op == "const" {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.cval.Kind() == y.cval.Kind() || (x.cval.Kind() != constant.String && y.cval.Kind() != constant.String && x.cval.Kind() != constant.Bool && y.cval.Kind() != constant.Bool) {
				return ex.ts.Bool(constant.Compare(x.cval, op, y.cval))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			if x.cval.Kind() == constant.Int && y.cval.Kind() == constant.Int || op == token.ADD && x.cval.Kind() == y.cval.Kind() {
				return ex.ts.Const(constant.BinaryOp(x.cval, op, y.cval), typ)
			}
		case token.QUO:
			if x.cval.Kind() == constant.Int && y.cval.Kind() == constant.Int && constant.Sign(y.cval) != 0 {
				if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return ex.ts.Const(constant.BinaryOp(x.cval, token.QUO_ASSIGN, y.cval), typ)
				}
			}
		}
	}
	B := types.Typ[types.Bool]
	switch op {
	case token.EQL:
		return ex.eq(x, y)
	case token.NEQ:
		return ex.not(ex.eq(x, y))
	case token.LSS:
		return ex.ts.App("lt", nil, B, x, y)
	case token.GTR:
		return ex.ts.App("lt", nil, B, y, x)
	case token.LEQ, token.GEQ:
		// only for totally ordered types
		fl := false
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			fl = true
		}
		if op == token.GEQ {
			x, y = y, x
		}
		if fl {
			return ex.ts.App("le", nil, B, x, y)
		}
		return ex.not(ex.ts.App("lt", nil, B, y, x))
	}
	if op == token.ADD || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && x.id > y.id {
			x, y = y, x
		}
	}
	return ex.ts.App(op.String(), nil, typ, x, y)
}

func (ex *Explorer) eq(x, y *Term) *Term {
	if x == y {
		return ex.ts.True
	}
	if x.isConst() && y.isConst() {
		return ex.ts.False
	}
	if ex.nonNil(x) && y.op == "nil" || ex.nonNil(y) && x.op == "nil" {
		return ex.ts.False
	}
	if x.op == "*" && y.op == "*" && x.args[0].op == "global" && y.args[0].op == "global" && ex.nonNil(x) && ex.nonNil(y) {
		return ex.ts.False // two different errors
	}
	if x.id > y.id {
		x, y = y, x
	}
	// boolean comparison with a constant
	if y == ex.ts.True || x == ex.ts.True {
		if y == ex.ts.True {
			return x
		}
		return y
	}
	if y == ex.ts.False || x == ex.ts.False {
		if y == ex.ts.False {
			return ex.not(x)
		}
		return ex.not(y)
	}
	return ex.ts.App("eq", nil, types.Typ[types.Bool], x, y)
}

func (ex *Explorer) nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "&", "&[]", "closure", "func", "iface", "make", "global", "err":
		return true
	case "sym", "*":
		if a := srcAddr(t); a != nil && a.op == "global" {
			return ex.w.errorConst(a)
		}
	}
	return false
}

// errorConst: the global variable holds an error that is set once when the package is initialised (io.EOF, ErrClosed).
func (w *World) errorConst(a *Term) bool {
	if w.errGlobals == nil {
		w.errGlobals = map[string]bool{}
		set := map[*ssa.Global]bool{}
		for _, p := range w.prog.AllPackages() {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
					set[g] = !isRepoPath(p.Pkg.Path())
				}
			}
		}
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					if _, ok := set[g]; !ok {
						continue
					}
					if c, ok := s.Val.(*ssa.Call); ok && f.Synthetic != "" {
						if cf := c.Call.StaticCallee(); cf != nil && (cf.Name() == "New" || cf.Name() == "Errorf") {
							set[g] = true
							continue
						}
					}
					delete(set, g)
				}
			}
		}
		for g, ok := range set {
			w.errGlobals[g.String()] = ok
		}
	}
	name, _ := a.payload.(string)
	return w.errGlobals[name]
}

// decide evaluates a condition under the facts: 1 true, 0 false, -1 unknown.
func (ex *Explorer) decide(st *State, c *Term) int {
	if c == ex.ts.True {
		return 1
	}
	if c == ex.ts.False {
		return 0
	}
	if c.op == "any" {
		return -1
	}
	if c.op == "not" {
		r := ex.decide(st, c.args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if c.op == "lt" && c.args[1].op == "len" && isIntConst(c.args[0], 0) { // a length is never negative
		if v, ok := st.facts[ex.eq(c.args[0], c.args[1])]; ok {
			if v {
				return 0
			}
			return 1
		}
	}
	if c.op == "eq" {
		x, y := c.args[0], c.args[1]
		for f, v := range st.facts {
			if f.op == "eq" && v {
				a, b := f.args[0], f.args[1]
				// x == a const, y is another const
				for _, p := range [][2]*Term{{x, y}, {y, x}} {
					for _, q := range [][2]*Term{{a, b}, {b, a}} {
						if p[0] == q[0] && q[1].isConst() && p[1].isConst() && q[1] != p[1] {
							return 0
						}
						if p[0] == q[0] {
							// transitivity one step: x == q1, so ask for eq(q1, p1)
							e := ex.eq(q[1], p[1])
							if e == ex.ts.True {
								return 1
							}
							if e == ex.ts.False {
								return 0
							}
							if v2, ok := st.facts[e]; ok {
								if v2 {
									return 1
								}
								return 0
							}
						}
					}
				}
			}
		}
		if v, ok := st.facts[ex.ts.App("lt", nil, types.Typ[types.Bool], x, y)]; ok && v {
			return 0
		}
		if v, ok := st.facts[ex.ts.App("lt", nil, types.Typ[types.Bool], y, x)]; ok && v {
			return 0
		}
	}
	if c.op == "lt" {
		x, y := c.args[0], c.args[1]
		if x == y {
			return 0
		}
		if v, ok := st.facts[ex.ts.App("lt", nil, types.Typ[types.Bool], y, x)]; ok && v {
			return 0
		}
		if v, ok := st.facts[ex.eq(x, y)]; ok && v {
			return 0
		}
		// known equal to constants
		cx, cy := ex.constOf(st, x), ex.constOf(st, y)
		if cx != nil && cy != nil && (cx != x || cy != y) {
			return ex.decide(st, ex.binop(token.LSS, cx, cy, types.Typ[types.Bool], types.Typ[types.Int]))
		}
		// lengths are never negative
		if y.op == "const" && x.op == "len" && constant.Sign(y.cval) <= 0 {
			return 0
		}
	}
	return -1
}

func (ex *Explorer) constOf(st *State, t *Term) *Term {
	if t.op == "const" {
		return t
	}
	for f, v := range st.facts {
		if f.op == "eq" && v {
			if f.args[0] == t && f.args[1].op == "const" {
				return f.args[1]
			}
			if f.args[1] == t && f.args[0].op == "const" {
				return f.args[0]
			}
		}
	}
	return nil
}

// assume records a condition; returns false if it contradicts the facts.
func (ex *Explorer) assume(st *State, c *Term, v bool) bool {
	if c.op == "not" {
		return ex.assume(st, c.args[0], !v)
	}
	if c.op == "any" {
		return true
	}
	d := ex.decide(st, c)
	if d >= 0 {
		return (d == 1) == v
	}
	st.facts[c] = v
	return true
}

// ---------- exploration ----------

func (ex *Explorer) Run(root *ssa.Function, init func(st *State, f *FState)) {
	fr := ex.frame(root, nil, nil)
	st := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, rs: map[string]*Term{}}
	fs := &FState{fr: fr, regs: map[ssa.Value]*Term{}, block: root.Blocks[0]}
	st.frames = []*FState{fs}
	for _, p := range root.Params {
		fs.regs[p] = ex.fresh(st, fs, p, nil)
	}
	for _, p := range root.FreeVars {
		fs.regs[p] = ex.fresh(st, fs, p, nil)
	}
	if init != nil {
		init(st, fs)
	}
	ex.inlined[root] = true
	ex.work = append(ex.work, st)
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.run(s)
		if ex.steps > ex.budget {
			ex.over = true
			return
		}
	}
}

func (ex *Explorer) run(st *State) {
	for !st.dead {
		ex.steps++
		if ex.steps > ex.budget {
			return
		}
		if ex.steps&0xfff == 0 && time.Now().After(deadline) {
			ex.steps = ex.budget + 1
			return
		}
		f := st.top()
		if f.idx == 0 {
			if !ex.enterBlock(st, f) {
				return
			}
		}
		in := f.block.Instrs[f.idx]
		if !ex.step(st, f, in) {
			return
		}
	}
}

// enterBlock evaluates phis and checks the visited set.
func (ex *Explorer) enterBlock(st *State, f *FState) bool {
	b := f.block
	if f.prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == f.prev {
				pi = i
			}
		}
		if ex.rule.OnEdge != nil {
			ex.rule.OnEdge(ex, st, b, pi)
		}
		header := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				header = true
			}
		}
		type upd struct {
			phi *ssa.Phi
			t   *Term
		}
		var ups []upd
		n := 0
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			e := phi.Edges[pi]
			t := ex.val(st, e)
			if ex.abstract(phi.Type()) {
				t = ex.any()
			} else if header {
				if ex.rule.Abstract && t.depth > 14 {
					t = ex.any()
				} else if isNumeric(phi.Type()) || t.depth > 6 && !ex.rule.Abstract {
					t = nil
				}
			}
			ups = append(ups, upd{phi, t})
		}
		for i := range ups {
			if ups[i].t == nil {
				// widen
				delete(f.regs, ups[i].phi)
				t := ex.fresh(st, f, ups[i].phi, nil)
				// refresh other pending terms (renamed)
				for j := range ups {
					if ups[j].t != nil {
						ups[j].t = ex.reshift(ups[j].t, ex.symName(f, ups[i].phi), t)
					}
				}
				f.regs[ups[i].phi] = t
				ups[i].t = t
			}
		}
		for _, u := range ups {
			f.regs[u.phi] = u.t
		}
		f.prev = nil
		f.idx = 0
		if len(b.Preds) > 1 || ex.rule.OnBlock != nil {
			// after phis
			ex.gcAt(st, n)
			k := ex.key(st)
			if ex.visited[k] {
				return false
			}
			ex.visited[k] = true
			ex.states++
		}
		f.idx = n
		if ex.rule.OnBlock != nil {
			ex.rule.OnBlock(ex, st, b)
		}
	} else {
		ex.gcAt(st, 0)
		k := ex.key(st)
		if ex.visited[k] {
			return false
		}
		ex.visited[k] = true
		ex.states++
		if ex.rule.OnBlock != nil {
			ex.rule.OnBlock(ex, st, b)
		}
	}
	return !st.dead
}

// gcAt is gc with the phi definitions of the current block counted as live.
func (ex *Explorer) gcAt(st *State, nphi int) {
	f := st.top()
	l := ex.liveness(f.fr.fn)
	live := l.in[f.block.Index]
	var extra []ssa.Value
	for i := 0; i < nphi; i++ {
		phi := f.block.Instrs[i].(*ssa.Phi)
		if !live[phi] {
			extra = append(extra, phi)
		}
	}
	// phis are not in live-in: keep them if used at all
	keep := map[ssa.Value]*Term{}
	for _, v := range extra {
		if v.Referrers() != nil && len(*v.Referrers()) > 0 {
			keep[v] = f.regs[v]
		}
	}
	for _, t := range keep {
		if t != nil {
			st.rs["\x00keep"+fmt.Sprint(t.id)] = t
		}
	}
	ex.gc(st)
	for v, t := range keep {
		if t != nil {
			f.regs[v] = t
			delete(st.rs, "\x00keep"+fmt.Sprint(t.id))
		}
	}
}

func (ex *Explorer) reshift(t *Term, name string, fresh *Term) *Term {
	m := map[*Term]*Term{}
	for _, s := range t.syms {
		if s.name == name && s.gen < 1 {
			m[s] = ex.ts.Sym(s.name, s.gen+1, s.src, s.typ, s.payload)
		}
	}
	if len(m) == 0 {
		return t
	}
	return ex.ts.rename(t, m, map[*Term]*Term{})
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (ex *Explorer) jump(st *State, f *FState, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.idx = 0
}

func (ex *Explorer) def(st *State, f *FState, v ssa.Value, t *Term) {
	if ex.abstract(v.Type()) && t.op != "const" {
		f.regs[v] = ex.any()
		return
	}
	if t.depth > 8 && !ex.rule.Abstract || t.depth > 16 {
		if ex.rule.Abstract {
			f.regs[v] = ex.any()
			return
		}
		t = ex.fresh(st, f, v, nil)
	}
	f.regs[v] = t
}

func (ex *Explorer) step(st *State, f *FState, in ssa.Instruction) bool {
	if ex.rule.OnInstr != nil {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			ex.rule.OnInstr(ex, st, in)
			if st.dead {
				return false
			}
		}
	}
	f.idx++
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		name := ex.symName(f, in)
		// allocation sites in loops yield new objects: shift the old one
		s := ex.freshNamed(st, name, nil, in.Type(), in)
		t := ex.ts.App("alloc", in, in.Type(), s)
		// zero value
		for a := range st.mem {
			if a == t || (a.op == "&" && a.args[0] == t) {
				delete(st.mem, a)
			}
		}
		et := deref(in.Type())
		if isNilable(et) {
			st.mem[t] = ex.ts.Nil
		} else if b, ok := et.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				st.mem[t] = ex.ts.False
			case b.Info()&types.IsInteger != 0:
				st.mem[t] = ex.ts.Int(0)
			case b.Info()&types.IsString != 0:
				st.mem[t] = ex.ts.Const(constant.MakeString(""), et)
			}
		}
		ex.def(st, f, in, t)
		if ex.rule.OnAlloc != nil {
			ex.rule.OnAlloc(ex, st, in, t)
		}
	case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
		v := in.(ssa.Value)
		s := ex.fresh(st, f, v, nil)
		ex.def(st, f, v, ex.ts.App("make", v.Type(), v.Type(), s))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, b))
		}
		f.regs[in] = ex.ts.App("closure", in, in.Type(), bs...)
	case *ssa.MakeInterface:
		ex.def(st, f, in, ex.ts.App("iface", in.X.Type(), in.Type(), ex.val(st, in.X)))
	case *ssa.ChangeInterface:
		f.regs[in] = ex.val(st, in.X)
	case *ssa.ChangeType:
		f.regs[in] = ex.val(st, in.X)
	case *ssa.Convert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		x := ex.val(st, (*in.Operands(nil)[0]))
		if x.op == "const" && x.cval.Kind() == constant.Int && isInteger(v.Type()) {
			f.regs[v] = x
		} else {
			ex.def(st, f, v, ex.ts.App("conv", v.Type(), v.Type(), x))
		}
	case *ssa.BinOp:
		ex.def(st, f, in, ex.binop(in.Op, ex.val(st, in.X), ex.val(st, in.Y), in.Type(), in.X.Type()))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := ex.val(st, in.X)
			f.regs[in] = ex.load(st, f, in, a)
			if ex.rule.OnLoad != nil {
				ex.rule.OnLoad(ex, st, in, a, f.regs[in])
			}
		case token.NOT:
			f.regs[in] = ex.not(ex.val(st, in.X))
		case token.ARROW:
			delete(f.regs, in)
			t := ex.fresh(st, f, in, nil)
			if in.CommaOk {
				t = ex.tuple(st, f, in)
			}
			f.regs[in] = t
		default:
			ex.def(st, f, in, ex.ts.App("un"+in.Op.String(), nil, in.Type(), ex.val(st, in.X)))
		}
	case *ssa.FieldAddr:
		f.regs[in] = ex.fieldAddr(st, ex.val(st, in.X), in.X.Type(), fieldVar(in.X.Type(), in.Field), in.Type())
	case *ssa.Field:
		x := ex.val(st, in.X)
		fv := fieldVar(in.X.Type(), in.Field)
		if x.op == "*" {
			a := ex.fieldAddr(st, x.args[0], in.X.Type(), fv, types.NewPointer(in.Type()))
			f.regs[in] = ex.load(st, f, in, a)
		} else {
			ex.def(st, f, in, ex.ts.App("field", fv, in.Type(), x))
		}
	case *ssa.IndexAddr:
		ex.def(st, f, in, ex.ts.App("&[]", nil, in.Type(), ex.val(st, in.X), ex.val(st, in.Index)))
	case *ssa.Index:
		ex.def(st, f, in, ex.ts.App("idx", nil, in.Type(), ex.val(st, in.X), ex.val(st, in.Index)))
	case *ssa.Lookup:
		delete(f.regs, in)
		if in.CommaOk {
			f.regs[in] = ex.tuple(st, f, in)
		} else if _, isPtr := in.Type().Underlying().(*types.Pointer); ex.rule.Abstract && !isPtr {
			f.regs[in] = ex.ts.App("*", nil, in.Type(), ex.ts.App("&[]", nil, in.Type(), ex.val(st, in.X), ex.val(st, in.Index)))
		} else {
			f.regs[in] = ex.fresh(st, f, in, ex.ts.App("&[]", nil, in.Type(), ex.val(st, in.X), ex.val(st, in.Index)))
		}
	case *ssa.Slice:
		x := ex.val(st, in.X)
		if in.Low == nil && in.High == nil && in.Max == nil || ex.rule.Abstract {
			f.regs[in] = x
		} else {
			opt := func(v ssa.Value) *Term {
				if v == nil {
					return ex.ts.App("none", nil, nil)
				}
				return ex.val(st, v)
			}
			lo, hi := opt(in.Low), opt(in.High)
			zero := func(t *Term) bool { return t.op == "none" || isIntConst(t, 0) }
			if x.op == "slice" && zero(x.args[1]) && zero(lo) && hi.op != "none" {
				// x[:a][:b] has the elements of x[:b]
				x = x.args[0]
			}
			ex.def(st, f, in, ex.ts.App("slice", nil, in.Type(), x, lo, hi))
		}
	case *ssa.Range:
		delete(f.regs, in)
		ex.def(st, f, in, ex.ts.App("range", nil, nil, ex.val(st, in.X)))
	case *ssa.Next:
		for _, ok := range []bool{true, false} {
			s := st.clone()
			sf := s.top()
			delete(sf.regs, in)
			tp := ex.tuple(s, sf, in)
			args := append([]*Term(nil), tp.args...)
			args[0] = ex.ts.Bool(ok)
			sf.regs[in] = ex.ts.App("tuple", nil, nil, args...)
			ex.work = append(ex.work, s)
		}
		return false
	case *ssa.TypeAssert:
		x := ex.val(st, in.X)
		if in.CommaOk {
			delete(f.regs, in)
			if x.op == "iface" && !types.IsInterface(in.AssertedType) {
				ok := types.Identical(x.payload.(types.Type), in.AssertedType)
				v := ex.ts.App("zero", in.AssertedType, in.AssertedType)
				if ok {
					v = x.args[0]
				}
				f.regs[in] = ex.ts.App("tuple", nil, nil, v, ex.ts.Bool(ok))
			} else {
				f.regs[in] = ex.tuple(st, f, in)
			}
		} else if x.op == "iface" && !types.IsInterface(in.AssertedType) {
			f.regs[in] = x.args[0]
		} else {
			ex.def(st, f, in, ex.ts.App("assert", in.AssertedType, in.Type(), x))
		}
	case *ssa.Extract:
		t := ex.val(st, in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			f.regs[in] = t.args[in.Index]
		} else {
			ex.def(st, f, in, ex.ts.App(fmt.Sprintf("ext%d", in.Index), nil, in.Type(), t))
		}
	case *ssa.Store:
		a, v := ex.val(st, in.Addr), ex.val(st, in.Val)
		if ex.rule.StoreVal != nil {
			v = ex.rule.StoreVal(ex, st, in, a, v)
			a = ex.val(st, in.Addr)
		}
		ex.store(st, a, v)
	case *ssa.MapUpdate:
		for a := range st.mem {
			if a.op == "&[]" {
				delete(st.mem, a)
			}
		}
	case *ssa.Send:
		if ex.rule.SendRuns {
			for _, c := range ex.funcTerm(ex.val(st, in.X), func() []calleeT { return nil }) {
				if c.fn != nil && len(c.fn.Blocks) > 0 && !onStack(st, c.fn) {
					ex.push(st, f, in, c, nil, false, func(*Explorer, *State, []*Term) {})
				}
			}
		}
	case *ssa.Select:
		n := len(in.States)
		idxs := make([]int, 0, n+1)
		for i := 0; i < n; i++ {
			idxs = append(idxs, i)
		}
		if !in.Blocking {
			idxs = append(idxs, -1)
		}
		for _, i := range idxs {
			// a case on a nil channel is never taken
			if i >= 0 && ex.val(st, in.States[i].Chan).op == "nil" {
				continue
			}
			s := st.clone()
			sf := s.top()
			delete(sf.regs, in)
			tp := ex.tuple(s, sf, in)
			args := append([]*Term(nil), tp.args...)
			args[0] = ex.ts.Int(int64(i))
			sf.regs[in] = ex.ts.App("tuple", nil, nil, args...)
			if i >= 0 {
				dir := "receive"
				if in.States[i].Dir == types.SendOnly {
					dir = "send"
				}
				s.note("%s: select takes the %s case %d", ex.w.ipos(in), dir, i)
			} else {
				s.note("%s: select takes the default case", ex.w.ipos(in))
			}
			if ex.rule.OnSelect != nil {
				ex.rule.OnSelect(ex, s, in, i)
				if s.dead {
					continue
				}
			}
			if i >= 0 && in.States[i].Dir == types.SendOnly && ex.rule.SendRuns {
				for _, c := range ex.funcTerm(ex.val(st, in.States[i].Send), func() []calleeT { return nil }) {
					if c.fn != nil && len(c.fn.Blocks) > 0 && !onStack(s, c.fn) {
						ex.push(s, sf, in, c, nil, false, func(*Explorer, *State, []*Term) {})
					}
				}
			}
			ex.work = append(ex.work, s)
		}
		return false
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := ex.val(st, in.Cond)
		d := ex.decide(st, c)
		if d >= 0 {
			if ex.rule.OnBranch != nil {
				ex.rule.OnBranch(ex, st, in, c, d == 1)
				if st.dead {
					return false
				}
			}
			ex.jump(st, f, f.block.Succs[1-d])
			return true
		}
		for _, v := range []bool{false, true} {
			s := st.clone()
			if !ex.assume(s, c, v) {
				continue
			}
			s.note("%s: condition %s is %t", ex.w.ipos(in), trunc(c.s, 120), v)
			if ex.rule.OnBranch != nil {
				ex.rule.OnBranch(ex, s, in, c, v)
				if s.dead {
					continue
				}
			}
			sf := s.top()
			i := 1
			if v {
				i = 0
			}
			ex.jump(s, sf, f.block.Succs[i])
			ex.work = append(ex.work, s)
		}
		return false
	case *ssa.Panic:
		if ex.rule.OnPanic != nil {
			ex.rule.OnPanic(ex, st, in, "panic")
		}
		return false
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, ex.val(st, r))
		}
		return ex.doReturn(st, f, res)
	case *ssa.RunDefers:
		return ex.runDefers(st, f)
	case *ssa.Defer:
		cs := ex.resolve(st, f, in)
		var args []*Term
		for _, a := range in.Call.Args {
			args = append(args, ex.val(st, a))
		}
		same := 0
		for _, d := range f.defers {
			if d.instr == in {
				same++
			}
		}
		if same < 2 { // in a loop: two are as good as many
			f.defers = append(f.defers, deferEntry{in, cs, args})
		}
	case *ssa.Go:
	case *ssa.Call:
		return ex.call(st, f, in)
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(f.regs, v)
			f.regs[v] = ex.fresh(st, f, v, nil)
		}
	}
	if ex.rule.Abstract || ex.rule.NoNumbers {
		if v, ok := in.(ssa.Value); ok && ex.abstract(v.Type()) {
			if t := f.regs[v]; t != nil && t.op != "const" {
				f.regs[v] = ex.any()
			}
		}
	}
	return true
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// tuple creates fresh symbols for the components of a tuple value.
func (ex *Explorer) tuple(st *State, f *FState, v ssa.Value) *Term {
	tt, ok := v.Type().(*types.Tuple)
	if !ok {
		if ex.abstract(v.Type()) {
			return ex.any()
		}
		return ex.fresh(st, f, v, nil)
	}
	var args []*Term
	for i := 0; i < tt.Len(); i++ {
		if ex.abstract(tt.At(i).Type()) {
			args = append(args, ex.any())
			continue
		}
		args = append(args, ex.freshNamed(st, fmt.Sprintf("%s#%d", ex.symName(f, v), i), nil, tt.At(i).Type(), v))
	}
	return ex.ts.App("tuple", nil, nil, args...)
}

func (ex *Explorer) doReturn(st *State, f *FState, res []*Term) bool {
	if ex.rule.OnReturn != nil {
		ex.rule.OnReturn(ex, st, f.fr, res)
		if st.dead {
			return false
		}
	}
	if len(st.frames) == 1 {
		if ex.rule.OnExit != nil {
			ex.rule.OnExit(ex, st, res)
		}
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if f.isDefer {
		// continue running the defers of the parent
		return ex.runDefers(st, p)
	}
	if f.onRet != nil {
		f.onRet(ex, st, res)
		return !st.dead
	}
	if call, ok := f.fr.site.(*ssa.Call); ok {
		ex.setResult(st, p, call, res)
		if ex.rule.OnResult != nil {
			var args []*Term
			for _, prm := range f.fr.fn.Params {
				args = append(args, f.regs[prm])
			}
			ex.rule.OnResult(ex, st, call, calleeT{fn: f.fr.fn}, args, p.regs[call])
			if st.dead {
				return false
			}
		}
	}
	return true
}

func (ex *Explorer) setResult(st *State, p *FState, call *ssa.Call, res []*Term) {
	switch {
	case len(res) == 1:
		p.regs[call] = res[0]
	case len(res) > 1:
		p.regs[call] = ex.ts.App("tuple", nil, nil, res...)
	}
}

func (ex *Explorer) runDefers(st *State, f *FState) bool {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if b, ok := d.instr.Call.Value.(*ssa.Builtin); ok {
			if ex.rule.OnCall != nil {
				ex.rule.OnCall(ex, st, d.instr, calleeT{name: "builtin." + b.Name()}, d.args, false)
				if st.dead {
					return false
				}
			}
			continue
		}
		// fork over callees
		if len(d.callee) == 0 {
			if ex.rule.OnCall != nil {
				ex.rule.OnCall(ex, st, d.instr, calleeT{name: "?"}, d.args, false)
			}
			continue
		}
		pushed := false
		for _, c := range d.callee {
			s := st.clone()
			sf := s.top()
			args := d.args
			if c.recv != nil {
				args = append([]*Term{c.recv}, args...)
			}
			inl := c.fn != nil && ex.shouldInline(c.fn) && !onStack(s, c.fn)
			if ex.rule.OnCall != nil {
				ex.rule.OnCall(ex, s, d.instr, c, args, inl)
				if s.dead {
					continue
				}
			}
			if cb := syncCallback(c.name); !inl && cb != nil && cb.method == "" && cb.arg < len(args) {
				// the variant in which the callback runs
				once := c.name == "(*sync.Once).Do"
				for _, t := range ex.funcTerm(args[cb.arg], func() []calleeT {
					var r []calleeT
					for _, fn := range ex.w.pts.Callees(d.instr) {
						r = append(r, calleeT{fn: fn, name: fn.String()})
					}
					return r
				}) {
					if t.fn == nil || t.fn.Blocks == nil || !ex.w.inRepo(t.fn) {
						continue
					}
					s2 := s.clone()
					if once {
						t.onceOf = args[0]
						s2.note("%s: the function of the sync.Once is executed", ex.w.ipos(d.instr))
					}
					inl2 := ex.shouldInline(t.fn) && !onStack(s2, t.fn)
					if ex.rule.OnCall != nil {
						ex.rule.OnCall(ex, s2, d.instr, t, nil, inl2)
						if s2.dead {
							continue
						}
					}
					if inl2 {
						ex.push(s2, s2.top(), d.instr, t, nil, true, nil)
					} else {
						ex.havoc(s2, ex.mods(t.fn))
						if !ex.runDefersCont(s2, s2.top()) {
							continue
						}
					}
					ex.work = append(ex.work, s2)
				}
			}
			if inl {
				ex.push(s, sf, d.instr, c, args, true, nil)
			} else {
				if c.fn != nil && c.fn.Blocks != nil && ex.w.inRepo(c.fn) {
					ex.havoc(s, ex.mods(c.fn))
				}
				// continue with the remaining defers
				if !ex.runDefersCont(s, sf) {
					continue
				}
			}
			ex.work = append(ex.work, s)
			pushed = true
		}
		_ = pushed
		return false
	}
	return true
}

// runDefersCont continues the defers in a cloned state; it returns true when the state should be queued.
func (ex *Explorer) runDefersCont(st *State, f *FState) bool {
	n := len(ex.work)
	r := ex.runDefers(st, f)
	_ = n
	return r
}

func onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fr.fn == fn {
			return true
		}
	}
	return false
}

func (ex *Explorer) push(st *State, f *FState, site ssa.Instruction, c calleeT, args []*Term, isDefer bool, onRet func(*Explorer, *State, []*Term)) {
	fr := ex.frame(c.fn, f.fr, site)
	ex.inlined[c.fn] = true
	nf := &FState{fr: fr, regs: map[ssa.Value]*Term{}, block: c.fn.Blocks[0], isDefer: isDefer, onRet: onRet}
	// older symbols of this frame are shifted lazily when they are redefined
	for i, p := range c.fn.Params {
		if i < len(args) && args[i] != nil {
			nf.regs[p] = args[i]
		}
	}
	st.frames = append(st.frames, nf)
	for _, p := range c.fn.Params {
		if ex.abstract(p.Type()) {
			nf.regs[p] = ex.any()
		}
		if nf.regs[p] == nil {
			nf.regs[p] = ex.fresh(st, nf, p, nil)
		}
	}
	for i, v := range c.fn.FreeVars {
		if i < len(c.bindings) && c.bindings[i] != nil {
			nf.regs[v] = c.bindings[i]
		} else {
			nf.regs[v] = ex.fresh(st, nf, v, nil)
		}
	}
}

// resolve determines the callees of a call in the current state.
func (ex *Explorer) resolve(st *State, f *FState, ci ssa.CallInstruction) []calleeT {
	com := ci.Common()
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	if com.IsInvoke() {
		x := ex.valIn(st, f, com.Value)
		if x.op == "iface" {
			t := x.payload.(types.Type)
			if fn := ex.w.pts.methodOf(t, com.Method.Name(), com.Method.Pkg()); fn != nil {
				if ex.w.inRepo(fn) {
					return []calleeT{{fn: fn, recv: x.args[0], name: fn.String()}}
				}
				return []calleeT{{fn: fn, recv: x.args[0], name: fn.String()}}
			}
		}
		var res []calleeT
		for _, fn := range ex.w.pts.Callees(ci) {
			res = append(res, calleeT{fn: fn, recv: ex.ts.App("recv", fn, nil, x), name: fn.String()})
		}
		if len(res) == 0 {
			res = append(res, calleeT{name: "invoke " + typeKey(com.Value.Type()) + "." + com.Method.Name(), recv: x})
		}
		return res
	}
	if fn := com.StaticCallee(); fn != nil {
		c := calleeT{fn: fn, name: fn.String()}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			t := ex.valIn(st, f, mc)
			if t.op == "closure" {
				c.bindings = t.args
			}
		}
		return []calleeT{c}
	}
	x := ex.valIn(st, f, com.Value)
	return ex.funcTerm(x, func() []calleeT {
		var res []calleeT
		for _, fn := range ex.w.pts.Callees(ci) {
			res = append(res, calleeT{fn: fn, name: fn.String()})
		}
		if len(res) == 0 {
			res = append(res, calleeT{name: "func value"})
		}
		return res
	})
}

func (ex *Explorer) funcTerm(x *Term, other func() []calleeT) []calleeT {
	switch x.op {
	case "func":
		fn := x.payload.(*ssa.Function)
		return []calleeT{{fn: fn, name: fn.String()}}
	case "closure":
		mc := x.payload.(*ssa.MakeClosure)
		fn := mc.Fn.(*ssa.Function)
		return []calleeT{{fn: fn, bindings: x.args, name: fn.String()}}
	}
	return other()
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true}

// pureExternal: results are structural terms of their arguments.
func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "(time.Time).Sub", "(time.Time).Add", "(time.Duration).", "errors.Is", "net.JoinHostPort", "unicode.", "bytes."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (ex *Explorer) call(st *State, f *FState, in *ssa.Call) bool {
	com := in.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, f, in, b)
	}
	cs := ex.resolve(st, f, in)
	if len(cs) == 1 {
		return ex.callOne(st, f, in, cs[0])
	}
	for _, c := range cs {
		s := st.clone()
		s.note("%s: call of %s", ex.w.ipos(in), c.name)
		if ex.callOne(s, s.top(), in, c) {
			ex.work = append(ex.work, s)
		}
	}
	return false
}

func (ex *Explorer) callArgs(st *State, in ssa.CallInstruction, c calleeT) []*Term {
	var args []*Term
	if c.recv != nil {
		args = append(args, c.recv)
	}
	for _, a := range in.Common().Args {
		args = append(args, ex.val(st, a))
	}
	return args
}

// callOne executes a call of one callee in st. It returns true if st continues to run.
func (ex *Explorer) callOne(st *State, f *FState, in *ssa.Call, c calleeT) bool {
	args := ex.callArgs(st, in, c)
	ext := c.fn == nil || c.fn.Blocks == nil || !ex.w.inRepo(c.fn)
	inl := !ext && ex.shouldInline(c.fn) && !onStack(st, c.fn) && f.fr.depth < 24
	if ex.rule.OnCall != nil {
		ex.rule.OnCall(ex, st, in, c, args, inl)
		if st.dead {
			return false
		}
	}
	if ext {
		if noReturn[c.name] {
			if ex.rule.OnPanic != nil {
				ex.rule.OnPanic(ex, st, in, c.name)
			}
			return false
		}
		cb := syncCallback(c.name)
		if cb != nil {
			return ex.callback(st, f, in, c, args, cb)
		}
		ex.extResult(st, f, in, c, args)
		return !st.dead
	}
	if inl {
		ex.push(st, f, in, c, args, false, nil)
		return true
	}
	ex.havoc(st, ex.mods(c.fn))
	delete(f.regs, in)
	f.regs[in] = ex.tuple(st, f, in)
	if ex.rule.OnResult != nil {
		ex.rule.OnResult(ex, st, in, c, args, f.regs[in])
	}
	return !st.dead
}

func (ex *Explorer) extResult(st *State, f *FState, in *ssa.Call, c calleeT, args []*Term) {
	delete(f.regs, in)
	if c.name == "fmt.Errorf" || c.name == "errors.New" {
		// a new error is never nil
		f.regs[in] = ex.ts.App("err", fmt.Sprintf("%p", in), in.Type())
	} else if pureExternal(c.name) {
		if tt, ok := in.Type().(*types.Tuple); ok && tt.Len() != 1 {
			var rs []*Term
			for i := 0; i < tt.Len(); i++ {
				rs = append(rs, ex.ts.App(fmt.Sprintf("call#%d", i), c.fn, tt.At(i).Type(), args...))
			}
			f.regs[in] = ex.ts.App("tuple", nil, nil, rs...)
		} else {
			ex.def(st, f, in, ex.ts.App("call", c.fn, in.Type(), args...))
		}
	} else {
		// external code may write through pointers to locals and fields passed to it
		for _, a := range args {
			if a.op == "alloc" {
				delete(st.mem, a)
			}
			if a.op == "&" && !strings.HasPrefix(c.name, "(*sync.") {
				delete(st.mem, a)
			}
		}
		f.regs[in] = ex.tuple(st, f, in)
	}
	if c.name == "errors.Is" && len(args) == 2 {
		switch e := ex.eq(args[0], args[1]); e {
		case ex.ts.True, ex.ts.False:
			if args[0].op != "err" && args[0].op != "sym" || e == ex.ts.True {
				f.regs[in] = e
			}
		}
	}
	if ex.rule.OnResult != nil {
		ex.rule.OnResult(ex, st, in, c, args, f.regs[in])
	}
}

// callback runs the function an external function calls back.
func (ex *Explorer) callback(st *State, f *FState, in *ssa.Call, c calleeT, args []*Term, cb *callbackSpec) bool {
	var targets []calleeT
	if cb.arg < len(args) {
		x := args[cb.arg]
		if cb.method == "" {
			targets = ex.funcTerm(x, func() []calleeT {
				var r []calleeT
				for _, fn := range ex.w.pts.Callees(in) {
					r = append(r, calleeT{fn: fn, name: fn.String()})
				}
				return r
			})
		} else if x.op == "iface" {
			if fn := ex.w.pts.methodOf(x.payload.(types.Type), cb.method, nil); fn != nil && ex.w.inRepo(fn) {
				targets = append(targets, calleeT{fn: fn, recv: x.args[0], name: fn.String()})
			}
		} else {
			for _, fn := range ex.w.pts.Callees(in) {
				targets = append(targets, calleeT{fn: fn, recv: ex.ts.App("recv", fn, nil, x), name: fn.String()})
			}
		}
	}
	// the variant in which the callback is not run (the Once was done before; nothing to write)
	once := c.name == "(*sync.Once).Do"
	any := false
	for _, t := range targets {
		if t.fn == nil || t.fn.Blocks == nil || !ex.w.inRepo(t.fn) {
			continue
		}
		any = true
		s := st.clone()
		sf := s.top()
		var targs []*Term
		if t.recv != nil {
			targs = append(targs, t.recv)
		}
		if once {
			s.note("%s: the function of the sync.Once is executed", ex.w.ipos(in))
			t.onceOf = args[0]
		}
		inl := ex.shouldInline(t.fn) && !onStack(s, t.fn)
		if ex.rule.OnCall != nil {
			ex.rule.OnCall(ex, s, in, t, targs, inl)
			if s.dead {
				continue
			}
		}
		if inl {
			cc := c
			aa := args
			ex.push(s, sf, in, t, targs, false, func(ex *Explorer, s2 *State, res []*Term) {
				ex.extResult(s2, s2.top(), in, cc, aa)
			})
		} else {
			ex.havoc(s, ex.mods(t.fn))
			ex.extResult(s, sf, in, c, args)
		}
		ex.work = append(ex.work, s)
	}
	if !any || once || cb.method == "" {
		if once {
			st.note("%s: the function of the sync.Once was executed before", ex.w.ipos(in))
		}
		ex.extResult(st, f, in, c, args)
		return !st.dead
	}
	return false
}

func (ex *Explorer) builtin(st *State, f *FState, in *ssa.Call, b *ssa.Builtin) bool {
	var args []*Term
	for _, a := range in.Call.Args {
		args = append(args, ex.val(st, a))
	}
	if ex.rule.OnCall != nil {
		ex.rule.OnCall(ex, st, in, calleeT{name: "builtin." + b.Name()}, args, false)
		if st.dead {
			return false
		}
	}
	switch b.Name() {
	case "len", "cap":
		if args[0].op == "const" && args[0].cval.Kind() == constant.String && b.Name() == "len" {
			f.regs[in] = ex.ts.Int(int64(len(constant.StringVal(args[0].cval))))
		} else if args[0].op == "nil" {
			f.regs[in] = ex.ts.Int(0)
		} else {
			ex.def(st, f, in, ex.ts.App(b.Name(), nil, in.Type(), args[0]))
		}
	case "append":
		delete(f.regs, in)
		if ex.rule.Abstract {
			f.regs[in] = args[0]
			if args[0].op == "nil" || args[0].op == "sym" {
				f.regs[in] = ex.any()
			}
			break
		}
		f.regs[in] = ex.ts.App("append", nil, in.Type(), ex.fresh(st, f, in, nil))
	case "max", "min":
		ex.def(st, f, in, ex.ts.App(b.Name(), nil, in.Type(), args...))
	case "clear", "copy", "delete":
		for a := range st.mem {
			if a.op == "&[]" {
				delete(st.mem, a)
			}
		}
		if in.Type() != nil {
			delete(f.regs, in)
			f.regs[in] = ex.tuple(st, f, in)
		}
	case "panic":
		if ex.rule.OnPanic != nil {
			ex.rule.OnPanic(ex, st, in, "panic")
		}
		return false
	case "recover":
		f.regs[in] = ex.ts.Nil
	default:
		delete(f.regs, in)
		f.regs[in] = ex.tuple(st, f, in)
	}
	if ex.rule.OnResult != nil {
		ex.rule.OnResult(ex, st, in, calleeT{name: "builtin." + b.Name()}, args, f.regs[in])
	}
	return !st.dead
}
