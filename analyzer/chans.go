package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channel typestate. While the goroutine roots are explored, the monitor follows channels, sync.Once, stop signals,
// hand-offs and joins along every path and records every channel operation with what is known at that point.

type chanCase struct {
	send    bool
	ks      []*ssa.MakeChan
	field   *types.Var
	base    string
	nonNil  bool
	guards  []string
	private bool
	closed  bool // the channel was closed on this path
	elem    *types.Var
	pos     string
}

type chanOp struct {
	root    *Root
	in      ssa.Instruction
	cases   []chanCase
	dflt    bool
	ext     string // external blocking call
	lock    string // lock acquisition
	sg      map[int]bool
	sx      map[string]bool
	dl      bool
	ans     map[int]bool
	ansBuf  map[int]bool
	pending bool // a received function was not called yet
	after   bool // a stop case was taken before
	acc     *Access
	depth   int
	stack   []string
	trace   []string
	fn      *ssa.Function
	nSigs   int
	entry   string // the event this is part of: IQData, Show...
	again   bool   // a non-blocking hand-off is tried again after it failed
}

type closeOp struct {
	root   *Root
	in     ssa.Instruction
	ks     []*ssa.MakeChan
	field  *types.Var
	base   string
	once   string
	priv   bool
	shot   bool
	nonNil bool
	elem   *types.Var
	guards []string
	acc    *Access
	stack  []string
	trace  []string
}

type goOp struct {
	root  *Root
	in    ssa.Instruction
	w     *Root
	have  map[int]bool
	entry string
	stack []string
	trace []string
}

type stopPath struct {
	root  *Root
	sg    map[int]bool
	rc    map[int]bool // classes that were seen closed
	sx    map[string]bool
	any   bool
	early bool
	gone  map[string]bool
	err   bool
	trace []string
}

type chanMon struct {
	beforeOnce map[string]*Term // what was known before the function of the last sync.Once
	c          *Conc
	ops        []*chanOp
	closes     []*closeOp
	gos        []*goOp
	exits      map[*Root][]*stopPath
	bad        []*Finding
	badOpen    map[string]bool // guard>field
	badNN      map[string]bool
	seen       map[string]bool
	onceFns    map[*ssa.Function]string
	nilM       map[*types.Var]int
	capM       map[*ssa.Function]map[int]bool
	readErr    map[ssa.Instruction]bool
	flags      map[*types.Var]bool
	drops      []*dropOp
	ansIDs     map[int]bool
	handed     map[int]bool // classes over which functions that answer are handed
	ownM       map[*Root]map[int]bool
	endIDs     map[int]bool    // classes that announce the end of a worker
	onceIDs    map[int]bool    // classes closed inside a sync.Once
	withChan   map[string]bool // types with a channel field
}

var monCache *chanMon

// chanMonitor runs the channel analysis once per process.
func chanMonitor(w *World, r *Result) *chanMon {
	c := conc(w, r)
	if monCache != nil && monCache.c == c {
		m := monCache
		r.count("channel operations", len(m.ops))
		r.count("close operations", len(m.closes))
		return m
	}
	m := &chanMon{c: c, exits: map[*Root][]*stopPath{}, badOpen: map[string]bool{}, badNN: map[string]bool{}, seen: map[string]bool{},
		onceFns: map[*ssa.Function]string{}, nilM: map[*types.Var]int{}, capM: map[*ssa.Function]map[int]bool{}, readErr: map[ssa.Instruction]bool{}, ownM: map[*Root]map[int]bool{}, handed: map[int]bool{}}
	m.index()
	acc, bl, le, pr, sb, st, sp, ov := c.accesses, c.blocks, c.lockEvs, c.problems, c.seenBlock, c.states, c.steps, len(c.over)
	c.mon = m
	c.seenBlock = map[string]bool{}
	for _, q := range c.roots {
		if o := os.Getenv("SDCHECK_ROOT"); o != "" && o != q.name {
			continue
		}
		c.exploreRoot(q, map[*Root]map[string]bool{})
	}
	c.mon = nil
	if r != nil {
		for _, o := range c.over[ov:] {
			r.incomplete("the channel analysis exceeded its budget: " + o)
		}
		r.count("channel analysis states", c.states-st)
	}
	c.accesses, c.blocks, c.lockEvs, c.problems, c.seenBlock, c.states, c.steps = acc, bl, le, pr, sb, st, sp
	monCache = m
	if os.Getenv("SDCHECK_OPS") != "" {
		m.dump()
	}
	r.count("channel operations", len(m.ops))
	r.count("close operations", len(m.closes))
	return m
}

// index finds the functions of sync.Once values and the flags that may guard a close.
func (m *chanMon) index() {
	w := m.c.w
	m.flags = map[*types.Var]bool{}
	m.endIDs, m.onceIDs, m.withChan = map[int]bool{}, map[int]bool{}, map[string]bool{}
	for k := range m.c.exitOf {
		m.endIDs[m.c.classID(k)] = true
	}
	for fv, o := range fieldOwner {
		if isChanType(fv.Type()) {
			m.withChan[o] = true
		}
	}
	closing := map[*ssa.Function]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for p := f; p != nil; p = p.Parent() {
						closing[p] = true
					}
				}
				if s := com.StaticCallee(); s != nil && s.String() == "(*sync.Once).Do" {
					k := ""
					if fa, ok := com.Args[0].(*ssa.FieldAddr); ok {
						k = fieldKey(fieldVar(fa.X.Type(), fa.Field))
					} else {
						k = com.Args[0].String()
					}
					for _, g := range w.pts.FuncsOf(com.Args[1]) {
						m.onceFns[g] = k
					}
				}
			}
		}
	}
	for f := range m.onceBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						for _, k := range m.c.classes(ci.Common().Args[0]) {
							m.onceIDs[m.c.classID(k)] = true
						}
					}
				}
			}
		}
	}
	for f := range closing {
		fs := []*ssa.Function{f}
		for _, c := range w.callSitesOf(f) {
			fs = append(fs, c.Parent())
		}
		for _, g := range fs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if v := fieldVar(fa.X.Type(), fa.Field); isRepoField(v) && v.Type().Underlying() == types.Typ[types.Bool] {
								m.flags[v] = true
							}
						}
					}
				}
			}
		}
	}
}

func (m *chanMon) problem(rule, key, pos, msg string, detail []string) {
	m.bad = append(m.bad, &Finding{rule, key, pos, msg, detail})
}

// nilable: the channel field can be nil after construction.
func (m *chanMon) nilable(fv *types.Var) bool {
	if v, ok := m.nilM[fv]; ok {
		return v == 1
	}
	w := m.c.w
	res := 0
	owner := fieldOwner[fv]
	for _, f := range w.funcs {
		stored := false
		alloc := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if storeField(in) == fv {
						if k, ok := in.Val.(*ssa.Const); ok && k.Value == nil {
							res = 1
						} else {
							stored = true
						}
					}
				case *ssa.Alloc:
					if shortType(typeKey(in.Type())) == owner {
						alloc = true
					}
				}
			}
		}
		if alloc && !stored {
			res = 1
		}
	}
	m.nilM[fv] = res
	return res == 1
}

// reaches: the channel classes that a function (with everything it calls) closes or sends to and that were made by the
// function in which it is nested: the answers it gives.
func (m *chanMon) answers(fn *ssa.Function) map[int]bool {
	if r, ok := m.capM[fn]; ok {
		return r
	}
	r := map[int]bool{}
	m.capM[fn] = r
	anc := map[*ssa.Function]bool{}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		anc[p] = true
	}
	add := func(v ssa.Value) {
		for _, k := range m.c.classes(v) {
			r[m.c.classID(k)] = true
		}
	}
	for f := range m.c.w.reachableFrom([]*ssa.Function{fn}, false, nil) {
		if f != fn && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					add(in.Chan)
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly {
							add(s.Chan)
						}
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						add(in.Common().Args[0])
					}
				}
			}
		}
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m *chanMon) ids(st *State, prefix string) map[int]bool {
	r := map[int]bool{}
	for k := range st.rs {
		if strings.HasPrefix(k, prefix) {
			if i, err := strconv.Atoi(k[len(prefix):]); err == nil {
				r[i] = true
			}
		}
	}
	return r
}

// guards: what is known on the path about fields of the same object, and about the channel itself.
func (m *chanMon) guards(ex *Explorer, st *State, t *Term, fv *types.Var, base *Term) []string {
	g := map[string]bool{}
	for k, x := range st.rs {
		if strings.HasPrefix(k, "open:") && x == t {
			g["open"] = true
		}
		if strings.HasPrefix(k, "cas:") {
			g[k] = true
		}
	}
	if fv == nil {
		return sortedKeys(g)
	}
	for f, v := range st.facts {
		if f.op == "eq" && !v {
			for i, a := range f.args {
				if f.args[1-i] == ex.ts.Nil {
					if gv, b := fieldOfTerm(a); gv != nil && b == base {
						g["nn:"+fieldKey(gv)] = true
					}
				}
			}
			continue
		}
		if gv, b := fieldOfTerm(f); gv != nil && b == base && gv.Type().Underlying() == types.Typ[types.Bool] {
			g[fmt.Sprintf("bool:%s=%t", fieldKey(gv), v)] = true
		}
	}
	// values stored on this path
	for k := range st.rs {
		if strings.HasPrefix(k, "fs:"+fieldOwner[fv]+".") && strings.HasSuffix(k, "=made") {
			g["nn:"+k[3:strings.LastIndex(k, "=")]] = true
		}
	}
	return sortedKeys(g)
}

func (m *chanMon) access(st *State, r *Root, in ssa.Instruction, fv *types.Var, base *Term, write bool) *Access {
	return &Access{root: r, field: fv, write: write, in: in, locks: heldLocks(st), nr: m.c.nrFacts(st, base)}
}

func (m *chanMon) onceFrame(st *State) string {
	for _, f := range st.frames {
		if o, ok := m.onceFns[f.fr.fn]; ok {
			return o
		}
	}
	return ""
}

func (m *chanMon) isPrivate(st *State, t *Term) bool {
	if t.op != "make" {
		return false
	}
	for k, x := range st.rs {
		if strings.HasPrefix(k, "esc:") && x == t {
			return false
		}
	}
	return true
}

// escapes: channels that are part of a value which leaves the goroutine.
func (m *chanMon) escape(st *State, in ssa.Instruction, t *Term, depth int) {
	if t == nil || depth > 4 {
		return
	}
	if t.op == "make" {
		st.setT(fmt.Sprintf("esc:%p:%d", in, t.id), t)
		return
	}
	if t.op == "alloc" {
		if v, ok := st.mem[t]; ok {
			m.escape(st, in, v, depth+1)
		}
		return
	}
	if t.op == "closure" || t.op == "iface" || t.op == "conv" {
		for _, a := range t.args {
			m.escape(st, in, a, depth+1)
		}
	}
}

func (m *chanMon) closedOnPath(st *State, t *Term) bool {
	if t.op == "any" {
		return false
	}
	for k, x := range st.rs {
		if strings.HasPrefix(k, "cl:") && x == t {
			return true
		}
	}
	return false
}

// resolve follows parameters to the arguments of the calls on the stack.
func resolve(st *State, v ssa.Value) ssa.Value {
	for i := len(st.frames) - 1; i > 0; i-- {
		for {
			ct, ok := v.(*ssa.ChangeType)
			if !ok {
				break
			}
			v = ct.X
		}
		p, ok := v.(*ssa.Parameter)
		if !ok || p.Parent() != st.frames[i].fr.fn {
			break
		}
		ci, ok := st.frames[i].fr.site.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() != st.frames[i].fr.fn {
			break
		}
		for j, q := range p.Parent().Params {
			if q == p && j < len(ci.Common().Args) {
				v = ci.Common().Args[j]
			}
		}
		if v == p {
			break
		}
	}
	for {
		ct, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = ct.X
	}
}

// elemField: the list or map a channel was taken from.
func (m *chanMon) elemField(st *State, ch ssa.Value) *types.Var {
	v := resolve(st, ch)
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				return m.oneField(ia.X)
			}
			return nil
		case *ssa.Lookup:
			return m.oneField(x.X)
		case *ssa.Extract:
			if n, ok := x.Tuple.(*ssa.Next); ok {
				if rg, ok := n.Iter.(*ssa.Range); ok {
					return m.oneField(rg.X)
				}
			}
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				return m.oneField(l.X)
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func (m *chanMon) oneField(v ssa.Value) *types.Var {
	var r *types.Var
	for f := range m.c.w.srcFields(v) {
		if isRepoField(f) {
			switch f.Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Array:
				r = f
			}
		}
	}
	return r
}

func (m *chanMon) mkCase(ex *Explorer, st *State, r *Root, in ssa.Instruction, ch ssa.Value, send bool) chanCase {
	t := ex.val(st, ch)
	fv, base := fieldOfTerm(t)
	cc := chanCase{send: send, ks: m.c.classes(ch), field: fv}
	if base != nil {
		cc.base = base.s
	}
	if fv != nil && !isRepoField(fv) {
		fv, cc.field = nil, nil
	}
	cc.nonNil = t.op == "make" || fv != nil && !m.nilable(fv) || fv == nil || ex.decide(st, ex.eq(t, ex.ts.Nil)) == 0
	if t.op == "nil" {
		cc.nonNil = false
	}
	cc.guards = m.guards(ex, st, t, fv, base)
	cc.private = m.isPrivate(st, t)
	cc.closed = m.closedOnPath(st, t)
	cc.elem = m.elemField(st, ch)
	return cc
}

// entryOf: the event that is being delivered.
func entryOf(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		switch n := st.frames[i].fr.fn.Name(); n {
		case "IQData", "ShowTimeFrame", "ShowSpectralFrame":
			if st.frames[i].fr.fn.Signature.Recv() != nil {
				return n
			}
		}
	}
	return ""
}

func (m *chanMon) record(ex *Explorer, st *State, r *Root, in ssa.Instruction, op *chanOp) {
	op.root, op.in = r, in
	op.fn = in.Parent()
	op.sg = m.ids(st, "sg:")
	op.sx = m.strs(st, "sx:")
	op.dl = st.has("dl")
	op.ans = m.ids(st, "ans:")
	op.ansBuf = m.ids(st, "ansb:")
	op.depth = len(st.frames)
	op.entry = entryOf(st)
	op.again = st.has(fmt.Sprintf("dfl:%p:%d", in, len(st.frames)))
	for k, t := range st.rs {
		if strings.HasPrefix(k, "rf:") {
			_ = t
			op.pending = true
		}
		if strings.HasPrefix(k, "stop:") && k == fmt.Sprintf("stop:%p", in) && !nilCase(ex, st, in) {
			op.after = true
		}
	}
	key := fmt.Sprintf("%s|%p|%v|%v|%v|%t|%v|%v|%t|%t|%s|%v|%s|%t", r.name, in, op.sg, op.cases, op.sx, op.dl, op.ans, op.ansBuf, op.pending, op.after, op.lock, lockList(op.acc.locks), op.entry, op.again)
	if m.seen[key] {
		return
	}
	m.seen[key] = true
	op.stack, op.trace = st.stack(m.c.w), st.traceText(12)
	m.ops = append(m.ops, op)
}

func (m *chanMon) opOf(ex *Explorer, st *State, r *Root, in ssa.Instruction) *chanOp {
	op := &chanOp{}
	switch in := in.(type) {
	case *ssa.Send:
		op.cases = []chanCase{m.mkCase(ex, st, r, in, in.Chan, true)}
	case *ssa.UnOp:
		op.cases = []chanCase{m.mkCase(ex, st, r, in, in.X, false)}
	case *ssa.Select:
		op.dflt = !in.Blocking
		for _, s := range in.States {
			op.cases = append(op.cases, m.mkCase(ex, st, r, in, s.Chan, s.Dir == types.SendOnly))
		}
	}
	var fv *types.Var
	var base *Term
	for i := range op.cases {
		if op.cases[i].send && fv == nil {
			fv = op.cases[i].field
		}
	}
	op.acc = m.access(st, r, in, fv, base, false)
	return op
}

// handOff: a value is given to another goroutine (or a function is called directly).
func (m *chanMon) handOff(ex *Explorer, st *State, in ssa.Instruction, v ssa.Value, t *Term, ks []*ssa.MakeChan, direct bool) {
	m.escape(st, in, t, 0)
	var fns []*ssa.Function
	if t.op == "closure" {
		fns = []*ssa.Function{t.payload.(*ssa.MakeClosure).Fn.(*ssa.Function)}
	} else if v != nil {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			fns = m.c.w.pts.FuncsOf(v)
		}
	}
	buf := false
	for _, k := range ks {
		if c, ok := k.Size.(*ssa.Const); !ok || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(0)) {
			buf = true
		}
	}
	for _, f := range fns {
		for id := range m.answers(f) {
			for _, k := range ks {
				m.handed[m.c.classID(k)] = true
			}
			st.set(fmt.Sprintf("ans:%d", id))
			if buf {
				st.set(fmt.Sprintf("ansb:%d", id))
			}
		}
		if t.op == "closure" && len(m.answers(f)) > 0 {
			k := fmt.Sprintf("shot:%s", fnKey(f))
			if o, ok := st.rs[k]; ok && o == t {
				m.problem("answered-twice", fnKey(f), m.c.w.ipos(in), "a function that answers once is handed over twice on one path: it closes its channel twice", st.traceText(12))
			}
			st.setT(k, t)
		}
	}
}

// signal: somebody told the workers that wait for this class to end. The end of a worker is no signal.
func (m *chanMon) signal(st *State, id int) {
	if !m.endIDs[id] {
		st.set(fmt.Sprintf("sg:%d", id))
	}
}

func (m *chanMon) publish(ex *Explorer, st *State, final bool) {
	owners := map[string]map[string]string{}
	cf := map[string]bool{}
	get := func(fk string) map[string]string {
		o := fk[:strings.LastIndex(fk, ".")]
		if owners[o] == nil {
			owners[o] = map[string]string{}
		}
		return owners[o]
	}
	for k := range st.rs {
		if strings.HasPrefix(k, "fs:") {
			i := strings.LastIndex(k, "=")
			get(k[3:i])[k[3:i]] = k[i+1:]
		}
		if strings.HasPrefix(k, "cf:") {
			cf[k[3:]] = true
			get(k[3:])
		}
	}
	if len(owners) == 0 {
		return
	}
	for o, fs := range owners {
		var cands []*types.Var
		for v, ow := range fieldOwner {
			if ow == o {
				cands = append(cands, v)
			}
		}
		for _, f := range cands {
			fk := fieldKey(f)
			if !isChanType(f.Type()) {
				continue
			}
			for _, g := range cands {
				gk := fieldKey(g)
				if g.Type().Underlying() == types.Typ[types.Bool] {
					for _, v := range []string{"true", "false"} {
						guard := "bool:" + gk + "=" + v
						if cf[fk] && fs[fk] != "made" && (fs[gk] == "" || fs[gk] == v || fs[gk] == "val") {
							m.badOpen[guard+">"+fk] = true
						}
						if (fs[gk] == v || fs[gk] == "val") && fs[fk] != "made" {
							m.badOpen[guard+">"+fk] = true
							m.badNN[guard+">"+fk] = true
						}
						if fs[fk] == "nil" && (fs[gk] == "" || fs[gk] == v || fs[gk] == "val") {
							m.badNN[guard+">"+fk] = true
						}
					}
					continue
				}
				guard := "nn:" + gk
				if cf[fk] && fs[fk] != "made" && fs[gk] != "nil" {
					m.badOpen[guard+">"+fk] = true
				}
				if g != f && (fs[gk] == "made" || fs[gk] == "val") && fs[fk] != "made" && fs[fk] != "val" {
					m.badOpen[guard+">"+fk] = true
					m.badNN[guard+">"+fk] = true
				}
				if g == f && fs[fk] == "val" {
					m.badOpen[guard+">"+fk] = true
				}
				if fs[fk] == "nil" && fs[gk] != "nil" {
					m.badNN[guard+">"+fk] = true
				}
			}
		}
	}
	for k := range st.rs {
		if strings.HasPrefix(k, "fs:") || strings.HasPrefix(k, "cf:") {
			delete(st.rs, k)
		}
	}
}

func (m *chanMon) close(ex *Explorer, st *State, r *Root, in ssa.Instruction, t *Term) {
	ch := in.(ssa.CallInstruction).Common().Args[0]
	ks := m.c.classes(ch)
	fv, base := fieldOfTerm(t)
	if fv != nil && !isRepoField(fv) {
		fv = nil
	}
	w := m.c.w
	name := chanName(m.c, fv, ks)
	if t.op == "nil" {
		m.problem("close-nil", name+" "+r.name, w.ipos(in), name+" is closed while it is nil", st.traceText(14))
		st.dead = true
		return
	}
	if m.elemField(st, ch) == nil && m.closedOnPath(st, t) {
		m.problem("close-twice", name+" "+fnKey(in.Parent()), w.ipos(in), name+" is closed although it was already closed on this path", append(st.stack(w), st.traceText(14)...))
		st.dead = true
		return
	}
	op := &closeOp{root: r, in: in, ks: ks, field: fv}
	if base != nil {
		op.base = base.s
	}
	op.once = m.onceFrame(st)
	op.priv = m.isPrivate(st, t)
	// a channel of the function in which this function is nested
	for p := in.Parent().Parent(); p != nil; p = p.Parent() {
		for _, k := range ks {
			if k.Parent() == p && len(ks) == 1 && fv == nil && t.op != "make" && r.fn != in.Parent() {
				op.shot = true
			}
		}
	}
	op.nonNil = t.op == "make" || fv == nil || !m.nilable(fv) || ex.decide(st, ex.eq(t, ex.ts.Nil)) == 0
	op.guards = m.guards(ex, st, t, fv, base)
	op.elem = m.elemField(st, ch)
	op.acc = m.access(st, r, in, fv, base, true)
	for k := range st.rs {
		if strings.HasPrefix(k, "openL:") && len(op.guards) > 0 && op.guards[len(op.guards)-1] == "open" {
			// locks released since the channel was found open do not protect the close
			delete(op.acc.locks, k[6:])
		}
	}
	key := fmt.Sprintf("close|%s|%p|%s|%t|%t|%t|%v|%s", r.name, in, op.once, op.priv, op.shot, op.nonNil, op.guards, lockList(op.acc.locks))
	if !m.seen[key] {
		m.seen[key] = true
		op.stack, op.trace = st.stack(w), st.traceText(14)
		m.closes = append(m.closes, op)
	}
	st.setT(fmt.Sprintf("cl:%p", in), t)
	for _, k := range ks {
		m.signal(st, m.c.classID(k))
	}
	if fv != nil && op.once == "" && !op.priv {
		st.set("cf:" + fieldKey(fv))
	}
	if op.elem != nil {
		e := resolve(st, ch)
		st.set(fmt.Sprintf("ce:%p", e))
		if k := "de:" + fieldKey(op.elem); st.has(k) {
			// it was taken out before
			st.unset(k)
		} else {
			st.set("cp:" + fieldKey(op.elem))
		}
		{
			if st.has(fmt.Sprintf("ap:%p", e)) {
				m.problem("closed-kept", name+" "+fnKey(in.Parent()), w.ipos(in), "a channel that stays in "+fieldKey(op.elem)+" is closed: it is used again with the next step", append(st.stack(w), st.traceText(14)...))
			}
		}
	}
}

func chanName(c *Conc, fv *types.Var, ks []*ssa.MakeChan) string {
	if fv != nil {
		return fieldKey(fv)
	}
	if len(ks) > 0 {
		return c.className(ks[0])
	}
	return "a channel"
}

func isRelease(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	switch name[i+1:] {
	case "Close", "Stop", "Shutdown", "GracefulStop", "CloseNow", "CloseRead":
		return !strings.Contains(name, "time.")
	}
	return false
}

func isNetRead(name string) bool {
	for _, s := range []string{".ReadMessage", ".Read", ".Recv", ".Accept", ".AcceptTCP", ".NextReader", ".ReadString", ".ReadBytes", ".ReadByte", ".ReadRune", ".Scan", ".ReadFull"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// pendingElems: closed elements must have been taken out of their container when the step ends.
func (m *chanMon) pendingElems(st *State, r *Root, in ssa.Instruction, where string) {
	for k := range st.rs {
		if strings.HasPrefix(k, "de:") {
			delete(st.rs, k)
		}
		if strings.HasPrefix(k, "cp:") {
			pos := m.c.w.pos(r.fn.Pos())
			if in != nil {
				pos = m.c.w.ipos(in)
			}
			m.problem("closed-kept", k[3:]+" "+r.name, pos, "a channel of "+k[3:]+" was closed, but "+k[3:]+" is not replaced before "+where+": the closed channel is used again", st.traceText(14))
			delete(st.rs, k)
		}
	}
}

// interesting: the functions that deal with channels, locks, goroutines, connections and the fields that guard them.
func (m *chanMon) interesting(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		fv := fieldVar(in.X.Type(), in.Field)
		if !isRepoField(fv) {
			return false
		}
		if m.flags[fv] || isChanType(fv.Type()) {
			return true
		}
		switch t := fv.Type().Underlying().(type) {
		case *types.Slice:
			return isChanType(t.Elem())
		case *types.Map:
			return isChanType(t.Elem())
		}
		if n := namedOf(fv.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
			return true
		}
		return false
	case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MakeChan:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case ssa.CallInstruction:
		com := in.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			return b.Name() == "close"
		}
		name := ""
		if com.IsInvoke() {
			name = "invoke " + com.Value.Type().String() + "." + com.Method.Name()
		} else if s := com.StaticCallee(); s != nil {
			if m.c.w.inRepo(s) {
				return false
			}
			name = s.String()
		}
		return isRelease(name) || isNetRead(name) || isNetBlocking(name)
	}
	return false
}

// attach adds the monitor to the rule that explores root r.
func (m *chanMon) attach(r *Root, rule *Rule) {
	w := m.c.w
	vol := rule.Volatile
	rule.Volatile = func(v *types.Var) bool {
		if m.flags[v] {
			return false
		}
		return vol(v)
	}
	rule.Interesting = m.interesting
	onInstr, onCall, onSelect, onExit, onBranch, onResult := rule.OnInstr, rule.OnCall, rule.OnSelect, rule.OnExit, rule.OnBranch, rule.OnResult
	rule.OnInstr = func(ex *Explorer, st *State, in ssa.Instruction) {
		if !st.has("init") {
			st.set("init")
			if r.isGo {
				for k := range m.c.closers {
					st.set(fmt.Sprintf("mk:%d", m.c.classID(k)))
				}
			}
		}
		if v, ok := in.(ssa.Value); ok && isChanType(v.Type()) {
			st.unset(fmt.Sprintf("ce:%p", v))
			st.unset(fmt.Sprintf("ap:%p", v))
		}
		switch in := in.(type) {
		case *ssa.MakeChan:
			st.set(fmt.Sprintf("mk:%d", m.c.classID(in)))
			st.unset(fmt.Sprintf("ans:%d", m.c.classID(in)))
			st.unset(fmt.Sprintf("ansb:%d", m.c.classID(in)))
			st.unset(fmt.Sprintf("sg:%d", m.c.classID(in)))
			for k, t := range st.rs {
				if t != nil && t.op == "make" && t == ex.val(st, in) {
					delete(st.rs, k)
				}
			}
		case *ssa.Send:
			m.pendingElems(st, r, in, "the next wait")
			m.record(ex, st, r, in, m.opOf(ex, st, r, in))
			m.handOff(ex, st, in, in.X, ex.val(st, in.X), m.c.classes(in.Chan), false)
			m.step(ex, st, r, in)
		case *ssa.Select:
			if in.Blocking {
				m.pendingElems(st, r, in, "the next wait")
			}
			m.record(ex, st, r, in, m.opOf(ex, st, r, in))
			m.step(ex, st, r, in)
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				m.pendingElems(st, r, in, "the next wait")
				m.record(ex, st, r, in, m.opOf(ex, st, r, in))
				m.step(ex, st, r, in)
				m.received(st, in, in.X)
				// closing is the only way to get on when nothing is ever sent
				if m.c.neverSent(in.X) {
					t := ex.val(st, in.X)
					for _, k := range m.c.classes(in.X) {
						if m.c.closeRoots[k][r] {
							st.setT(fmt.Sprintf("cl:%p", in), t)
						}
						m.signal(st, m.c.classID(k))
					}
				}
			}
		case *ssa.Call:
			if !in.Call.IsInvoke() && in.Call.StaticCallee() == nil {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					for k := range st.rs {
						if strings.HasPrefix(k, "rf:") {
							delete(st.rs, k)
						}
					}
				}
			}
		case *ssa.Go:
			for _, t := range w.pts.Callees(in) {
				wr := m.c.byFn[t]
				if wr == nil {
					continue
				}
				g := &goOp{root: r, in: in, w: wr, have: m.ids(st, "mk:"), entry: entryOf(st)}
				key := fmt.Sprintf("go|%s|%p|%s|%v|%s", r.name, in, wr.name, g.have, g.entry)
				if !m.seen[key] {
					m.seen[key] = true
					g.stack, g.trace = st.stack(w), st.traceText(10)
					m.gos = append(m.gos, g)
				}
				if !r.isGo {
					st.set("gw:" + wr.name)
				}
				for id := range m.ownClosed(wr) {
					st.unset(fmt.Sprintf("mk:%d", id))
				}
			}
			for _, a := range in.Call.Args {
				m.escape(st, in, ex.val(st, a), 0)
			}
			m.escape(st, in, ex.val(st, in.Call.Value), 0)
		case *ssa.Store:
			val := ex.val(st, in.Val)
			addr := ex.val(st, in.Addr)
			if addr.op == "&" || addr.op == "&[]" || addr.op == "global" {
				m.escape(st, in, val, 0)
			}
			if addr.op == "&" {
				fv := addr.payload.(*types.Var)
				if isRepoField(fv) {
					fk := fieldKey(fv)
					if st.has("cp:" + fk) {
						st.unset("cp:" + fk)
					}
					kind := ""
					switch {
					case val.op == "nil":
						kind = "nil"
					case val.op == "make":
						kind = "made"
					case val == ex.ts.True:
						kind = "true"
					case val == ex.ts.False:
						kind = "false"
					default:
						kind = "val"
					}
					track := isChanType(fv.Type())
					if m.withChan[fieldOwner[fv]] {
						switch fv.Type().Underlying().(type) {
						case *types.Pointer, *types.Interface, *types.Signature:
							track = true
						case *types.Basic:
							track = m.flags[fv] && fv.Type().Underlying() == types.Typ[types.Bool]
						}
					}
					if isChanType(fv.Type()) {
						m.forget(st, fv)
					}
					if track {
						for k := range st.rs {
							if strings.HasPrefix(k, "fs:"+fk+"=") {
								delete(st.rs, k)
							}
						}
						st.set("fs:" + fk + "=" + kind)
						if kind == "made" {
							st.unset("cf:" + fk)
						}
					}
				}
			}
		}
		onInstr(ex, st, in)
	}
	rule.OnSelect = func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
		if idx < 0 && selSends(sel) && !r.isGo {
			st.set(fmt.Sprintf("dfl:%p:%d", sel, len(st.frames)))
		}
		if idx < 0 {
			for i, s := range sel.States {
				if s.Dir != types.SendOnly {
					st.setT(fmt.Sprintf("open:%p:%d", sel, i), ex.val(st, s.Chan))
				}
			}
			for k := range st.rs {
				if strings.HasPrefix(k, "openL:") {
					delete(st.rs, k)
				}
			}
		} else {
			s := sel.States[idx]
			t := ex.val(st, s.Chan)
			if s.Dir == types.SendOnly {
				m.handOff(ex, st, sel, s.Send, ex.val(st, s.Send), m.c.classes(s.Chan), false)
			} else {
				ks := m.c.classes(s.Chan)
				sig := len(ks) > 0 && m.c.neverSent(s.Chan)
				m.received(st, sel, s.Chan)
				if sig {
					for _, k := range ks {
						if m.c.closeRoots[k][r] {
							st.setT(fmt.Sprintf("cl:%p:%d", sel, idx), t)
						}
						m.signal(st, m.c.classID(k))
						if q := m.c.exitOf[k]; r.isGo && q != nil && q != r && sel.Blocking && !selSends(sel) && !m.c.starts(r)[q] {
							st.set(fmt.Sprintf("rc:%d", m.c.classID(k)))
						}
						if m.onceIDs[m.c.classID(k)] {
							st.set(fmt.Sprintf("kc:%d", m.c.classID(k)))
						}
						if r.isGo && m.stopClassOf(r, k) && m.ownStop(r, sel, s.Chan, k) {
							st.set(fmt.Sprintf("stop:%p", sel))
							st.set("stopped")
						}
					}
				}
				if sig && !sel.Blocking && !r.isGo {
					st.set("early")
				}
				if len(ks) == 0 && m.isCtxDone(s.Chan) && (r.isGo || streamRoot(r)) {
					st.set(fmt.Sprintf("stop:%p", sel))
				}
			}
		}
		if onSelect != nil {
			onSelect(ex, st, sel, idx)
		}
	}
	rule.OnCall = func(ex *Explorer, st *State, in ssa.Instruction, cal calleeT, args []*Term, inl bool) {
		switch {
		case cal.name == "builtin.close":
			m.close(ex, st, r, in, args[0])
			if st.dead {
				return
			}
		case cal.name == "builtin.append" && len(args) > 1:
			m.appendElem(ex, st, in, args)
		case cal.name == "builtin.delete" || cal.name == "builtin.clear":
			// the element is taken out of its container
			if fv := m.oneField(resolve(st, in.(ssa.CallInstruction).Common().Args[0])); fv != nil {
				if st.has("cp:" + fieldKey(fv)) {
					st.unset("cp:" + fieldKey(fv))
				} else if cal.name == "builtin.delete" {
					st.set("de:" + fieldKey(fv))
				}
			}
		case cal.name == "(*sync.Once).Do":
			k := lockName(args[0])
			if st.has("od:" + k) {
				st.set("odd:" + k)
			}
			st.set("od:" + k)
			// what it does is done afterwards, by whoever was first
			m.beforeOnce = map[string]*Term{}
			for k, v := range st.rs {
				m.beforeOnce[k] = v
			}
			if ci, ok := in.(ssa.CallInstruction); ok && len(ci.Common().Args) > 1 {
				for _, f := range w.pts.FuncsOf(ci.Common().Args[1]) {
					m.onceDone(st, f)
				}
			}
		case cal.onceOf != nil:
			k := lockName(cal.onceOf)
			if st.has("odd:" + k) {
				st.dead = true
				return
			}
			// it is about to be executed here: nothing of it is done yet
			for k := range st.rs {
				if _, ok := m.beforeOnce[k]; !ok {
					delete(st.rs, k)
				}
			}
			for k, v := range m.beforeOnce {
				st.rs[k] = v
			}
			if cal.fn != nil {
				// not executed when its channel is known to be closed
				for id := range m.answersAll(cal.fn) {
					if st.has(fmt.Sprintf("kc:%d", id)) {
						st.dead = true
						return
					}
				}
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
			if n := namedOf(ci.Common().Value.Type()); n != nil && n.Obj().Name() == "CancelFunc" {
				st.set("sx:context")
			}
		}
		if cal.fn == nil || cal.fn.Blocks == nil || !w.inRepo(cal.fn) {
			if isRelease(cal.name) {
				st.set("sx:" + netKind(cal.name))
			}
			if strings.HasSuffix(cal.name, "SetDeadline") || strings.HasSuffix(cal.name, "SetReadDeadline") {
				st.set("dl")
			}
			if isNetRead(cal.name) || isNetBlocking(cal.name) {
				op := &chanOp{ext: cal.name}
				op.acc = m.access(st, r, in, nil, nil, false)
				m.record(ex, st, r, in, op)
				if isNetRead(cal.name) {
					if k := fmt.Sprintf("failed:%p", in); st.has(k) && !op.dl && r.isGo {
						m.problem("failed-read-repeated", r.name, w.ipos(in), r.name+" reads again from a connection that failed: it keeps running after the connection broke", append(st.stack(w), st.traceText(14)...))
						st.dead = true
						return
					}
					m.step(ex, st, r, in)
				}
			}
		}
		if op := lockOps[cal.name]; (op == "lock" || op == "rlock") && len(args) > 0 {
			o := &chanOp{lock: lockName(args[0])}
			o.acc = m.access(st, r, in, nil, nil, false)
			m.record(ex, st, r, in, o)
		}
		// a direct call of a function that answers
		if cal.fn != nil && cal.fn.Parent() != nil {
			if _, isGo := in.(*ssa.Go); !isGo {
				for id := range m.answers(cal.fn) {
					st.set(fmt.Sprintf("ans:%d", id))
				}
			}
		}
		onCall(ex, st, in, cal, args, inl)
		if op := lockOps[cal.name]; op == "unlock" || op == "runlock" {
			l := lockName(args[0])
			st.set("openL:" + l)
			m.forget(st, nil)
			if len(heldLocks(st)) == 0 {
				m.publish(ex, st, false)
			}
		}
	}
	rule.OnBranch = func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
		c, v := cond, taken
		for c.op == "not" {
			c, v = c.args[0], !v
		}
		for k, t := range st.rs {
			if strings.HasPrefix(k, "casr:") && t == c {
				if v == strings.HasSuffix(k, "=true") {
					st.set("cas:" + k[5:strings.LastIndex(k, "=")])
				}
				delete(st.rs, k)
			}
		}
		// a closed channel
		if x, val := in.Cond, taken; r.isGo || streamRoot(r) {
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.NOT {
				x, val = u.X, !val
			}
			if e, ok := x.(*ssa.Extract); ok && e.Index == 1 && !val {
				switch tu := e.Tuple.(type) {
				case *ssa.Select:
					if tu.Blocking && !selSends(tu) {
						st.set(fmt.Sprintf("stop:%p", tu))
					}
				case *ssa.UnOp:
					if tu.Op == token.ARROW {
						st.set(fmt.Sprintf("stop:%p", tu))
					}
				}
			}
		}
		// the error of a read
		if v {
			for k, t := range st.rs {
				if strings.HasPrefix(k, "rdis:") && t == c {
					st.set("failed:" + k[5:])
				}
			}
		}
		if c.op == "eq" && !v {
			for i, a := range c.args {
				if c.args[1-i] == ex.ts.Nil {
					for k, t := range st.rs {
						if strings.HasPrefix(k, "rderr:") && t == a {
							st.set("failed:" + k[6:])
						}
					}
				}
			}
		}
		if onBranch != nil {
			onBranch(ex, st, in, cond, taken)
		}
	}
	rule.OnResult = func(ex *Explorer, st *State, in ssa.Instruction, cal calleeT, args []*Term, res *Term) {
		switch {
		case strings.HasSuffix(cal.name, "atomic.Bool).CompareAndSwap") && len(args) == 3 && args[1] == ex.ts.False && args[2] == ex.ts.True:
			st.setT("casr:"+lockName(args[0])+"=true", res)
		case strings.HasSuffix(cal.name, "atomic.Bool).Swap") && len(args) == 2 && args[1] == ex.ts.True:
			st.setT("casr:"+lockName(args[0])+"=false", res)
		case (cal.name == "errors.Is" || cal.name == "errors.As") && len(args) == 2:
			for k, t := range st.rs {
				if strings.HasPrefix(k, "rderr:") && t == args[0] {
					st.setT("rdis:"+k[6:], res)
				}
			}
		case isNetRead(cal.name) && (cal.fn == nil || cal.fn.Blocks == nil || !w.inRepo(cal.fn)):
			if res != nil && res.op == "tuple" && len(res.args) > 0 {
				st.setT(fmt.Sprintf("rderr:%p", in), res.args[len(res.args)-1])
			}
		}
		if onResult != nil {
			onResult(ex, st, in, cal, args, res)
		}
	}
	rule.OnExit = func(ex *Explorer, st *State, res []*Term) {
		m.pendingElems(st, r, nil, "the function returns")
		m.dropped(st, r, nil)
		m.publish(ex, st, true)
		sp := &stopPath{root: r, sg: m.ids(st, "sg:"), rc: m.ids(st, "rc:"), sx: m.strs(st, "sx:"), early: st.has("early"), gone: m.strs(st, "gw:")}
		for i, t := range res {
			if sig := r.fn.Signature.Results(); i < sig.Len() && isErrorType(sig.At(i).Type()) && (ex.nonNil(t) || ex.decide(st, ex.eq(t, ex.ts.Nil)) == 0) {
				sp.err = true
			}
		}
		key := fmt.Sprintf("exit|%s|%v|%v|%v|%t|%v|%t", r.name, sp.sg, sp.rc, sp.sx, sp.early, sp.gone, sp.err)
		if !m.seen[key] {
			m.seen[key] = true
			sp.trace = st.traceText(14)
			m.exits[r] = append(m.exits[r], sp)
		}
		onExit(ex, st, res)
	}
	weak := rule.Weak
	rule.Weak = func(k string) bool {
		return weak(k) || strings.HasPrefix(k, "esc:") || strings.HasPrefix(k, "open:") || strings.HasPrefix(k, "cl:") || strings.HasPrefix(k, "ap:") || strings.HasPrefix(k, "ce:") || strings.HasPrefix(k, "shot:") || strings.HasPrefix(k, "rderr:") || strings.HasPrefix(k, "rdis:") || strings.HasPrefix(k, "casr:")
	}
}

// nilCase: one of the channels is known to be nil.
func nilCase(ex *Explorer, st *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Select:
		for _, s := range in.States {
			if ex.val(st, s.Chan) == ex.ts.Nil {
				return true
			}
		}
	case *ssa.UnOp:
		return ex.val(st, in.X) == ex.ts.Nil
	}
	return false
}

// streamRoot: a function that serves a stream for as long as its peer wants it.
func streamRoot(r *Root) bool {
	if r.fn == nil {
		return false
	}
	sig := r.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
			ctx, send := false, false
			for j := 0; j < it.NumMethods(); j++ {
				switch it.Method(j).Name() {
				case "Context":
					ctx = true
				case "SendMsg", "Send":
					send = true
				}
			}
			if ctx && send {
				return true
			}
		}
	}
	return false
}

// ownStop: taking the case ends the goroutine itself, and not something that it only talks to.
func (m *chanMon) ownStop(r *Root, sel *ssa.Select, ch ssa.Value, k *ssa.MakeChan) bool {
	if selSends(sel) {
		return false
	}
	own := false
	for fv, o := range fieldOwner {
		if o == ownerOf(r) && isChanType(fv.Type()) {
			for _, obj := range m.c.w.pts.FieldContent(fv) {
				if obj.instr == ssa.Instruction(k) {
					own = true
				}
			}
		}
	}
	if !sel.Blocking {
		return own && sel.Parent() == r.fn
	}
	if !own {
		// not a wait for an answer
		own = true
		for _, s := range sel.States {
			for _, x := range m.c.classes(s.Chan) {
				if m.answerIDs()[m.c.classID(x)] || m.c.exitOf[x] != nil {
					own = false
				}
			}
		}
	}
	return own
}

func selSends(sel *ssa.Select) bool {
	for _, s := range sel.States {
		if s.Dir == types.SendOnly {
			return true
		}
	}
	return false
}

// step: a worker waits for its next event: what was known about the last step is given up.
func (m *chanMon) step(ex *Explorer, st *State, r *Root, in ssa.Instruction) {
	if len(st.frames) != 1 || !r.isGo {
		return
	}
	m.dropped(st, r, in)
	m.publish(ex, st, false)
	for k := range st.rs {
		for _, p := range []string{"sg:", "rc:", "kc:", "ans:", "ansb:", "shot:", "open:", "openL:", "cl:", "od:", "odd:", "cas:", "casr:", "esc:", "ce:", "ap:", "mk:", "sx:", "dl", "rderr:", "rdis:"} {
			if strings.HasPrefix(k, p) {
				delete(st.rs, k)
				break
			}
		}
	}
}

// stopClassOf: the class is closed by somebody else to end this worker (not the end of another worker).
func (m *chanMon) stopClassOf(r *Root, k *ssa.MakeChan) bool {
	if m.c.exitOf[k] == r {
		return false
	}
	for q := range m.c.closeRoots[k] {
		if q != r {
			return true
		}
	}
	return false
}

func (m *chanMon) isCtxDone(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			return v.Call.IsInvoke() && v.Call.Method.Name() == "Done" && v.Call.Method.Pkg() != nil && v.Call.Method.Pkg().Path() == "context"
		case *ssa.Phi:
			for _, e := range v.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.UnOp:
			switch x := v.X.(type) {
			case *ssa.FreeVar, *ssa.Alloc:
				_ = x
				for _, s := range m.c.w.cellStores(v.X) {
					if walk(s) {
						return true
					}
				}
			}
		case *ssa.FreeVar:
			for _, s := range m.c.w.cellStores(v) {
				if walk(s) {
					return true
				}
			}
		case *ssa.Parameter:
			for i, p := range v.Parent().Params {
				if p == v {
					for _, c := range m.c.w.callSitesOf(v.Parent()) {
						a := c.Common().Args
						if i < len(a) && walk(a[i]) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// cellStores: the values stored in a captured variable (or bound to a free variable by value).
func (w *World) cellStores(v ssa.Value) []ssa.Value {
	var res []ssa.Value
	switch v := v.(type) {
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				res = append(res, s.Val)
			}
		}
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == v {
				idx = i
			}
		}
		if fn.Parent() == nil || idx < 0 {
			return nil
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					x := mc.Bindings[idx]
					switch x.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						if _, ok := v.Type().Underlying().(*types.Pointer); ok {
							res = append(res, w.cellStores(x)...)
							continue
						}
					}
					res = append(res, x)
				}
			}
		}
	}
	return res
}

// answersAll: the classes closed by fn itself.
func (m *chanMon) answersAll(fn *ssa.Function) map[int]bool {
	r := map[int]bool{}
	for g := range m.c.w.reachableFrom([]*ssa.Function{fn}, false, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if bi, ok := ci.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						for _, k := range m.c.classes(ci.Call.Args[0]) {
							r[m.c.classID(k)] = true
						}
					}
				}
			}
		}
	}
	return r
}

func (m *chanMon) onceDone(st *State, f *ssa.Function) {
	for g := range m.c.w.reachableFrom([]*ssa.Function{f}, false, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for _, k := range m.c.classes(com.Args[0]) {
						m.signal(st, m.c.classID(k))
					}
				}
				name := ""
				if com.IsInvoke() {
					name = com.Method.FullName()
				} else if s := com.StaticCallee(); s != nil {
					name = s.String()
				}
				if isRelease(name) {
					st.set("sx:" + netKind(name))
				}
			}
		}
	}
}

func (m *chanMon) appendElem(ex *Explorer, st *State, in ssa.Instruction, args []*Term) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	sl, ok := c.Type().Underlying().(*types.Slice)
	if !ok || !isChanType(sl.Elem()) {
		return
	}
	var e ssa.Value
	if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			for _, rf := range *al.Referrers() {
				if ia, ok := rf.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
							e = s.Val
						}
					}
				}
			}
		}
	}
	if e == nil {
		return
	}
	e = resolve(st, e)
	if st.has(fmt.Sprintf("ce:%p", e)) {
		m.problem("closed-kept", fnKey(in.Parent()), m.c.w.ipos(in), "a closed channel is kept in the list: it is used again with the next step", append(st.stack(m.c.w), st.traceText(14)...))
	}
	st.set(fmt.Sprintf("ap:%p", e))
}

// ownClosed: the classes that worker q itself closes, outside of any sync.Once.
func (m *chanMon) ownClosed(q *Root) map[int]bool {
	if r, ok := m.ownM[q]; ok {
		return r
	}
	r := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] || m.onceFns[f] != "" {
			return
		}
		seen[f] = true
		for _, g := range m.c.w.calleesOf(f) {
			dfs(g)
		}
	}
	dfs(q.fn)
	for f := range seen {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						for _, k := range m.c.classes(ci.Common().Args[0]) {
							r[m.c.classID(k)] = true
						}
					}
				}
			}
		}
	}
	m.ownM[q] = r
	return r
}

// forget gives up what is known about channels that were read from a field (all fields: another goroutine may have
// replaced them).
func (m *chanMon) forget(st *State, fv *types.Var) {
	for k, t := range st.rs {
		if t == nil || !strings.HasPrefix(k, "cl:") && !(fv != nil && strings.HasPrefix(k, "open:")) {
			continue
		}
		if g, _ := fieldOfTerm(t); g != nil && (fv == nil || g == fv) {
			delete(st.rs, k)
		}
	}
}

func (m *chanMon) strs(st *State, prefix string) map[string]bool {
	r := map[string]bool{}
	for k := range st.rs {
		if strings.HasPrefix(k, prefix) {
			r[k[len(prefix):]] = true
		}
	}
	return r
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// netKind: what kind of network object a call works on.
func netKind(name string) string {
	l := strings.ToLower(name)
	switch {
	case strings.Contains(l, "os.file"):
		return "file"
	case strings.Contains(l, "listener"):
		return "listener"
	case strings.Contains(l, "server"):
		return "server"
	}
	return "conn"
}

// received: a function was received from a channel; it has to be called before the next step.
func (m *chanMon) received(st *State, in ssa.Instruction, ch ssa.Value) {
	t, ok := ch.Type().Underlying().(*types.Chan)
	if !ok {
		return
	}
	if _, ok := t.Elem().Underlying().(*types.Signature); !ok {
		return
	}
	for _, k := range m.c.classes(ch) {
		st.set(fmt.Sprintf("rf:%d", m.c.classID(k)))
	}
}

// dropped: a received function was not called.
func (m *chanMon) dropped(st *State, r *Root, in ssa.Instruction) {
	for k := range st.rs {
		if strings.HasPrefix(k, "rf:") {
			pos := m.c.w.pos(r.fn.Pos())
			if in != nil {
				pos = m.c.w.ipos(in)
			}
			id, _ := strconv.Atoi(k[3:])
			m.drops = append(m.drops, &dropOp{id: id, root: r, pos: pos, trace: st.traceText(12)})
			delete(st.rs, k)
		}
	}
}

type dropOp struct {
	id    int
	root  *Root
	pos   string
	trace []string
}

// onceBodies: what is executed inside a sync.Once, with the helpers it calls.
func (m *chanMon) onceBodies() map[*ssa.Function]bool {
	var fns []*ssa.Function
	for f := range m.onceFns {
		fns = append(fns, f)
	}
	return m.c.w.reachableFrom(fns, false, nil)
}
