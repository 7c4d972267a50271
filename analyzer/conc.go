package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency model: roots (goroutine entry points), channel classes (make sites), locks, and per root exploration
// that records every field access, blocking operation, lock operation and close with its lock set and with what is
// known about other goroutines at that point.

var passes = 2

var debugConc = os.Getenv("SDCHECK_DEBUG") != ""

type Root struct {
	name   string
	fn     *ssa.Function
	thread string // roots of one thread never run at the same time
	multi  bool   // several instances run at the same time
	isGo   bool
	owner  string          // type of the receiver of the goroutine
	own    map[string]bool // types of which each instance of the root has its own objects
	worlds map[string]bool
	api    bool
}

type Access struct {
	root  *Root
	field *types.Var
	write bool
	in    ssa.Instruction
	locks map[string]bool // lock -> held exclusively
	nr    map[string]bool // names of roots known not to be running (for the same object)
	fresh bool
	base  string
	stack []string
}

type BlockOp struct {
	root    *Root
	in      ssa.Instruction
	kind    string // send, recv, select, ext
	locks   map[string]bool
	sends   []*ssa.MakeChan
	recvs   []*ssa.MakeChan
	extCase bool // a case on a channel made elsewhere (timer, context)
	dflt    bool
	signals map[string]bool
	name    string
	stack   []string
	trace   []string
}

type LockEv struct {
	root *Root
	in   ssa.Instruction
	lock string
	held map[string]bool
	try  bool
}

type Conc struct {
	w        *World
	roots    []*Root
	byFn     map[*ssa.Function]*Root
	accesses []*Access
	blocks   []*BlockOp
	lockEvs  []*LockEv
	problems []*Finding // lock balance etc.

	closers    map[*ssa.MakeChan]map[ssa.Instruction]bool // close sites per class
	exitClosed map[*Root]map[*ssa.MakeChan]bool
	exitOf     map[*ssa.MakeChan]*Root
	receivers  map[*ssa.MakeChan]map[*Root]bool
	senders    map[*ssa.MakeChan]map[*Root]bool
	closeRoots map[*ssa.MakeChan]map[*Root]bool
	lifecycle  map[*types.Var]*Root // nil field => root not running
	openInv    map[*types.Var]bool
	spawnLocks map[*Root]map[string]bool
	steps      int
	states     int
	over       []string
	goSites    int
	seenBlock  map[string]bool
	startsM    map[string]map[*Root]bool
	mon        *chanMon
}

var ownTypes = map[string][]string{
	"rx.TextProcessor":  {"rx.TextProcessor", "rx.textWindow", "rx.Listener", "rx.collectedCallsign"},
	"telnet.Connection": {"telnet.Connection", "telnet.Prompt"},
}

// setup-only functions of the API: documented to be used before the component runs.
var setupOnly = map[string]bool{"rx.(*Receiver).AddReporter": true}

func isChanType(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

func (w *World) reachableFrom(start []*ssa.Function, throughGo bool, extra func(c ssa.CallInstruction) []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo && !throughGo {
					continue
				}
				for _, g := range w.pts.Callees(c) {
					dfs(g)
				}
				if extra != nil {
					for _, g := range extra(c) {
						dfs(g)
					}
				}
			}
		}
	}
	for _, f := range start {
		dfs(f)
	}
	return seen
}

func (w *World) reachableSkip(start []*ssa.Function, skip map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] || skip[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.pts.Callees(c) {
						dfs(g)
					}
					for _, g := range w.asyncTargets(c) {
						dfs(g)
					}
				}
			}
		}
	}
	for _, f := range start {
		dfs(f)
	}
	return seen
}

// asyncTargets are functions an external callee may call later on another goroutine.
func (w *World) asyncTargets(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	var callee *types.Func
	if com.IsInvoke() {
		callee = com.Method
	} else if f := com.StaticCallee(); f != nil {
		if f.Blocks != nil && w.inRepo(f) {
			return nil
		}
		if o, ok := f.Object().(*types.Func); ok {
			callee = o
		}
	}
	if callee == nil || callee.Pkg() == nil {
		return nil
	}
	p := callee.Pkg().Path()
	switch p {
	case "fmt", "log", "errors", "strings", "bytes", "sort", "slices", "maps", "sync", "sync/atomic", "io", "strconv", "math", "time", "net", "net/url", "os", "encoding/binary", "regexp", "github.com/ftl/hamradio/dxcc", "github.com/ftl/hamradio/scp", "github.com/ftl/hamradio/callsign":
		return nil
	}
	if isRepoPath(p) {
		return nil
	}
	var res []*ssa.Function
	sig := callee.Type().(*types.Signature)
	for i, a := range com.Args {
		pi := i
		if !com.IsInvoke() && sig.Recv() != nil {
			pi--
		}
		for _, o := range w.pts.Objs(a) {
			switch o.kind {
			case oFunc:
				if w.inRepo(o.fn) && o.fn.Blocks != nil {
					res = append(res, o.fn)
				}
			case oIface:
				// function wrapped in an interface
				for id := range w.pts.pts[o.content] {
					co := w.pts.objs[id]
					if co.kind == oFunc && w.inRepo(co.fn) && co.fn.Blocks != nil {
						res = append(res, co.fn)
					}
				}
				tk := typeKey(o.typ)
				if !strings.HasPrefix(tk, modPath) {
					continue
				}
				var it *types.Interface
				if pi >= 0 && pi < sig.Params().Len() {
					it, _ = sig.Params().At(pi).Type().Underlying().(*types.Interface)
				}
				ms := w.prog.MethodSets.MethodSet(o.typ)
				for k := 0; k < ms.Len(); k++ {
					m := ms.At(k).Obj().(*types.Func)
					if !m.Exported() {
						continue
					}
					if it != nil && it.NumMethods() > 0 {
						found := false
						for q := 0; q < it.NumMethods(); q++ {
							if it.Method(q).Name() == m.Name() {
								found = true
							}
						}
						if !found {
							continue
						}
					}
					if f := w.prog.MethodValue(ms.At(k)); f != nil && f.Blocks != nil {
						res = append(res, f)
					}
				}
			case oAlloc:
				// structs passed directly (e.g. a gRPC service implementation)
				tk := typeKey(o.typ)
				if !strings.HasPrefix(tk, modPath) || strings.HasPrefix(tk, modPath+"/scope/pb") {
					continue
				}
			}
		}
	}
	return res
}

// commandRuns returns the functions stored in the Run fields of cobra commands.
func (w *World) commandRuns() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	for k, o := range w.pts.objIdx {
		fn, ok := k.(fieldNode)
		if !ok || fn.v == nil || fn.v.Pkg() == nil || fn.v.Pkg().Path() != "github.com/spf13/cobra" {
			continue
		}
		if !strings.HasPrefix(fn.v.Name(), "Run") && !strings.HasPrefix(fn.v.Name(), "PreRun") && !strings.HasPrefix(fn.v.Name(), "PostRun") && !strings.HasPrefix(fn.v.Name(), "Persistent") {
			continue
		}
		for id := range w.pts.pts[o.content] {
			c := w.pts.objs[id]
			if c.kind == oFunc && !seen[c.fn] {
				seen[c.fn] = true
				res = append(res, c.fn)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i]) < fnKey(res[j]) })
	return res
}

// leafRuns are the command functions that take a context (called by the wrapper), i.e. the commands of the program.
func (w *World) leafRuns() []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range w.commandRuns() {
		var leafs []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != nil || c.Call.IsInvoke() {
					continue
				}
				for _, g := range w.pts.Callees(c) {
					if fnPkg(g) == modPath+"/cmd" {
						leafs = append(leafs, g)
					}
				}
			}
		}
		if len(leafs) == 0 {
			leafs = []*ssa.Function{f}
		}
		for _, l := range leafs {
			if !seen[l] {
				seen[l] = true
				res = append(res, l)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i]) < fnKey(res[j]) })
	return res
}

var apiTypes = []string{"rx.Receiver", "tci.Process", "kiwi.Process", "kiwi.Client", "cw.AudioDemodulator", "telnet.Server", "scope.ScopeServer", "scope.Client"}

func (c *Conc) discoverRoots() {
	w := c.w
	c.byFn = map[*ssa.Function]*Root{}
	add := func(r *Root) *Root {
		if o, ok := c.byFn[r.fn]; ok {
			return o
		}
		if r.own == nil {
			r.own = map[string]bool{}
		}
		r.worlds = map[string]bool{}
		c.byFn[r.fn] = r
		c.roots = append(c.roots, r)
		return r
	}
	leafs := w.leafRuns()
	for _, f := range leafs {
		add(&Root{name: fnKey(f), fn: f, thread: "main"})
	}
	for _, f := range w.commandRuns() {
		add(&Root{name: fnKey(f), fn: f, thread: "main"})
	}
	ext := map[*ssa.Function]string{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g, ok := in.(*ssa.Go); ok {
					c.goSites++
					for _, t := range w.pts.Callees(g) {
						owner := ""
						recvT := types.Type(nil)
						if len(t.Params) > 0 && t.Signature.Recv() != nil {
							recvT = t.Params[0].Type()
						} else if t.Parent() != nil {
							p := t
							for p.Parent() != nil {
								p = p.Parent()
							}
							if p.Signature.Recv() != nil {
								recvT = p.Params[0].Type()
							}
						}
						if recvT != nil {
							owner = shortType(typeKey(recvT))
						}
						multi := owner != "" && !singletonTypes[owner]
						own := map[string]bool{}
						if multi {
							own[owner] = true
						}
						for _, o := range ownTypes[owner] {
							own[o] = true
						}
						r := add(&Root{name: fnKey(t), fn: t, thread: fnKey(t), multi: multi, isGo: true, owner: owner, own: own})
						if owner == "scope.Client" {
							r.multi = true
						}
					}
					continue
				}
				for _, t := range w.asyncTargets(ci) {
					name := ""
					if o := ci.Common().StaticCallee(); o != nil {
						name = o.String()
					} else if ci.Common().IsInvoke() {
						name = ci.Common().Method.FullName()
					}
					ext[t] = name
				}
			}
		}
	}
	var efs []*ssa.Function
	for f := range ext {
		efs = append(efs, f)
	}
	sort.Slice(efs, func(i, j int) bool { return efs[i].String() < efs[j].String() })
	isCmdRun := map[*ssa.Function]bool{}
	for _, f := range w.commandRuns() {
		isCmdRun[f] = true
	}
	for _, f := range efs {
		if isCmdRun[f] {
			continue
		}
		name := ext[f]
		r := &Root{name: fnKey(f), fn: f, thread: "callback " + name}
		if strings.Contains(name, "scope/pb") {
			r.multi = true
		}
		if f.Name() == "Connected" && strings.Contains(name, "ftl/tci") {
			r.thread += " (connect)"
		}
		add(r)
	}
	// API: exported methods of the components, called by the main goroutine; methods that are only called through
	// interfaces by other components are covered by the roots that call them
	viaIface := map[*ssa.Function]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, t := range w.pts.Callees(ci) {
						viaIface[t] = true
					}
				}
			}
		}
	}
	for _, f := range w.funcs {
		if viaIface[f] {
			continue
		}
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Object() == nil || !o.Object().Exported() || o.Synthetic != "" {
			continue
		}
		tk := shortType(typeKey(f.Signature.Recv().Type()))
		for _, a := range apiTypes {
			if tk == a && !setupOnly[fnKey(f)] {
				if _, ok := c.byFn[f]; !ok {
					// methods that are callbacks of other components are covered through those
					add(&Root{name: fnKey(f), fn: f, thread: "main", api: true})
				}
			}
		}
	}
	// worlds: what runs together when a command runs
	isLeaf := map[*ssa.Function]bool{}
	for _, l := range leafs {
		isLeaf[l] = true
	}
	for _, l := range leafs {
		start := []*ssa.Function{l}
		for _, f := range w.commandRuns() {
			if !isLeaf[f] {
				start = append(start, f)
			}
		}
		reach, types_ := w.rtaReach(start, func(f *ssa.Function) bool { return isLeaf[f] && f != l })
		for _, r := range c.roots {
			if reach[r.fn] || (r.api && types_[shortType(typeKey(r.fn.Signature.Recv().Type()))]) {
				r.worlds[fnKey(l)] = true
			}
		}
	}
	for _, r := range c.roots {
		if len(r.worlds) == 0 {
			r.worlds["api:"+strings.SplitN(r.name, ".", 2)[0]] = true
		}
	}
}

// rtaReach: functions that can run when the start functions run, including goroutines and callbacks; dynamic calls
// only reach methods of types that are created in reached functions and functions whose value is formed there.
func (w *World) rtaReach(start []*ssa.Function, skip func(*ssa.Function) bool) (map[*ssa.Function]bool, map[string]bool) {
	seen := map[*ssa.Function]bool{}
	made := map[string]bool{}
	valued := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), start...)
	var sites []ssa.CallInstruction
	changed := true
	for changed {
		changed = false
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[f] || f.Blocks == nil || skip(f) {
				continue
			}
			seen[f] = true
			changed = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						if k := typeKey(a.Type()); k != "" {
							made[shortType(k)] = true
						}
					}
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							valued[g] = true
						}
						if k := typeKey((*op).Type()); k != "" {
							if mi, ok := in.(*ssa.MakeInterface); ok && mi.X == *op {
								if _, isPtr := mi.X.Type().Underlying().(*types.Pointer); !isPtr {
									made[shortType(k)] = true
								}
							}
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						sites = append(sites, ci)
					}
				}
			}
		}
		ok := func(g *ssa.Function, dynamic bool) bool {
			if seen[g] {
				return false
			}
			if !dynamic {
				return true
			}
			if valued[g] {
				return true
			}
			if r := g.Signature.Recv(); r != nil {
				return made[shortType(typeKey(r.Type()))]
			}
			return valued[g]
		}
		for _, ci := range sites {
			dyn := ci.Common().StaticCallee() == nil
			for _, g := range w.pts.Callees(ci) {
				if ok(g, dyn || g != ci.Common().StaticCallee()) {
					work = append(work, g)
				}
			}
			for _, g := range w.asyncTargets(ci) {
				if ok(g, true) {
					work = append(work, g)
				}
			}
		}
		if len(work) > 0 {
			changed = true
		}
	}
	return seen, made
}

func (c *Conc) coexist(a, b *Root) bool {
	for w := range a.worlds {
		if b.worlds[w] {
			return true
		}
	}
	return false
}

// lockName identifies a lock by the field that holds it.
func lockName(t *Term) string {
	if t.op == "&" {
		return fieldKey(t.payload.(*types.Var))
	}
	if srcAddr(t) != nil {
		return lockName(srcAddr(t))
	}
	if t.op == "global" {
		return fmt.Sprint(t.payload)
	}
	return t.s
}

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "lock", "(*sync.Mutex).Unlock": "unlock", "(*sync.Mutex).TryLock": "trylock",
	"(*sync.RWMutex).Lock": "lock", "(*sync.RWMutex).Unlock": "unlock", "(*sync.RWMutex).TryLock": "trylock",
	"(*sync.RWMutex).RLock": "rlock", "(*sync.RWMutex).RUnlock": "runlock", "(*sync.RWMutex).TryRLock": "tryrlock",
	"(sync.Locker).Lock": "lock", "(sync.Locker).Unlock": "unlock",
}

func heldLocks(st *State) map[string]bool {
	m := map[string]bool{}
	for k := range st.rs {
		if strings.HasPrefix(k, "L:") {
			m[k[2:]] = true
		}
		if strings.HasPrefix(k, "R:") {
			if !m[k[2:]] {
				m[k[2:]] = false
			}
		}
	}
	return m
}

// lockCall updates the lock state of st for a call of a lock operation; it reports imbalance through bad.
func lockCall(ex *Explorer, st *State, in ssa.Instruction, name string, args []*Term, bad func(kind, lock string), acquired func(lock string, try bool)) bool {
	op, ok := lockOps[name]
	if !ok || len(args) == 0 {
		return false
	}
	l := lockName(args[0])
	switch op {
	case "lock":
		if st.has("L:"+l) || st.has("R:"+l) {
			bad("relock", l)
		}
		acquired(l, false)
		st.set("L:" + l)
	case "unlock":
		if !st.has("L:" + l) {
			bad("unlock-not-held", l)
		}
		st.unset("L:" + l)
	case "rlock":
		if st.has("L:"+l) || st.has("R:"+l) {
			bad("relock", l)
		}
		acquired(l, false)
		st.set("R:" + l)
	case "runlock":
		if !st.has("R:" + l) {
			bad("unlock-not-held", l)
		}
		st.unset("R:" + l)
	case "trylock", "tryrlock":
		acquired(l, true)
	}
	return true
}

// tryResult remembers the result of a TryLock so that the branch on it can update the lock set.
func tryResult(st *State, name string, args []*Term, res *Term) {
	switch lockOps[name] {
	case "trylock":
		st.setT("try:L:"+lockName(args[0]), res)
	case "tryrlock":
		st.setT("try:R:"+lockName(args[0]), res)
	}
}

func tryBranch(st *State, cond *Term, taken bool) {
	v := taken
	for cond.op == "not" {
		cond = cond.args[0]
		v = !v
	}
	for k, t := range st.rs {
		if strings.HasPrefix(k, "try:") && t == cond {
			if v {
				st.set(k[4:])
			}
			delete(st.rs, k)
		}
	}
}

// chanTermClasses: make sites of a channel operand.
func (c *Conc) classes(v ssa.Value) []*ssa.MakeChan { return c.w.pts.ChansOf(v) }

// srcAddr is the address a value was loaded from.
func srcAddr(t *Term) *Term {
	if t == nil {
		return nil
	}
	switch t.op {
	case "sym":
		return t.src
	case "*":
		return t.args[0]
	}
	return nil
}

// fieldOfTerm gives the field a term was loaded from.
func fieldOfTerm(t *Term) (*types.Var, *Term) {
	if t == nil {
		return nil, nil
	}
	a := t
	if t.op == "sym" || t.op == "*" {
		a = srcAddr(t)
	}
	if a != nil && a.op == "&[]" && t.typ != nil {
		switch t.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			return fieldOfTerm(a.args[0])
		}
		return nil, nil
	}
	if t.op == "slice" || t.op == "range" || t.op == "conv" {
		return fieldOfTerm(t.args[0])
	}
	if a != nil && a.op == "&" {
		return a.payload.(*types.Var), a.args[0]
	}
	return nil, nil
}

func isRepoField(v *types.Var) bool {
	return v != nil && v.Pkg() != nil && isRepoPath(v.Pkg().Path())
}

// closeSites indexes all close instructions.
func (c *Conc) index() {
	w := c.w
	c.closers = map[*ssa.MakeChan]map[ssa.Instruction]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for _, k := range c.classes(ci.Common().Args[0]) {
						if c.closers[k] == nil {
							c.closers[k] = map[ssa.Instruction]bool{}
						}
						c.closers[k][in] = true
					}
				}
			}
		}
	}
	// which roots receive from, send to and close a class
	c.receivers, c.senders, c.closeRoots = map[*ssa.MakeChan]map[*Root]bool{}, map[*ssa.MakeChan]map[*Root]bool{}, map[*ssa.MakeChan]map[*Root]bool{}
	put := func(m map[*ssa.MakeChan]map[*Root]bool, v ssa.Value, r *Root) {
		for _, k := range c.classes(v) {
			if m[k] == nil {
				m[k] = map[*Root]bool{}
			}
			m[k][r] = true
		}
	}
	for _, r := range c.roots {
		for f := range w.reachableFrom([]*ssa.Function{r.fn}, false, nil) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Send:
						put(c.senders, in.Chan, r)
					case *ssa.UnOp:
						if in.Op == token.ARROW {
							put(c.receivers, in.X, r)
						}
					case *ssa.Select:
						for _, s := range in.States {
							if s.Dir == types.SendOnly {
								put(c.senders, s.Chan, r)
							} else {
								put(c.receivers, s.Chan, r)
							}
						}
					case ssa.CallInstruction:
						if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							put(c.closeRoots, in.Common().Args[0], r)
						}
					}
				}
			}
		}
	}
	// exit-closed classes: closed on every regular way out of a go root
	c.exitClosed = map[*Root]map[*ssa.MakeChan]bool{}
	c.exitOf = map[*ssa.MakeChan]*Root{}
	for _, r := range c.roots {
		if !r.isGo {
			continue
		}
		c.exitClosed[r] = c.computeExitClosed(r)
		for k := range c.exitClosed[r] {
			only := true
			for s := range c.closers[k] {
				_ = s
			}
			for q := range c.closeRoots[k] {
				if q != r {
					only = false
				}
			}
			if only {
				c.exitOf[k] = r
			}
		}
	}
}

func (c *Conc) computeExitClosed(r *Root) map[*ssa.MakeChan]bool {
	var all map[*ssa.MakeChan]bool
	rule := &Rule{
		Interesting: func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			bi, ok := ci.Common().Value.(*ssa.Builtin)
			return ok && bi.Name() == "close"
		},
		Volatile: func(*types.Var) bool { return true },
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, cal calleeT, args []*Term, inl bool) {
			if cal.name == "builtin.close" {
				for _, k := range c.classes(in.(ssa.CallInstruction).Common().Args[0]) {
					st.set(fmt.Sprintf("c:%d", c.classID(k)))
				}
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			cur := map[*ssa.MakeChan]bool{}
			for k := range c.closers {
				if st.has(fmt.Sprintf("c:%d", c.classID(k))) {
					cur[k] = true
				}
			}
			if all == nil {
				all = cur
				return
			}
			for k := range all {
				if !cur[k] {
					delete(all, k)
				}
			}
		},
	}
	ex := newExplorer(c.w, rule)
	ex.budget = 3_000_000
	ex.Run(r.fn, nil)
	c.steps += ex.steps
	if ex.over {
		c.over = append(c.over, "exit paths of "+r.name)
		return map[*ssa.MakeChan]bool{}
	}
	if all == nil {
		all = map[*ssa.MakeChan]bool{}
	}
	return all
}

func (c *Conc) classID(k *ssa.MakeChan) int { return c.w.pts.objIdx[k].id }

func (c *Conc) className(k *ssa.MakeChan) string {
	// name by the field it is stored in, if any
	if k.Referrers() != nil {
		for _, r := range *k.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == k {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					return fieldKey(fieldVar(fa.X.Type(), fa.Field))
				}
			}
		}
	}
	return "channel made in " + fnKey(k.Parent())
}

// computeLifecycle finds fields that are nil exactly while a worker is not running, and fields whose channel is open while it is not nil.
func (c *Conc) computeLifecycle() {
	w := c.w
	c.lifecycle = map[*types.Var]*Root{}
	c.openInv = map[*types.Var]bool{}
	type storeT struct {
		fn    *ssa.Function
		in    *ssa.Store
		isNil bool
		addr  *ssa.FieldAddr
	}
	stores := map[*types.Var][]storeT{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if !isRepoField(fv) || !isChanType(fv.Type()) {
					continue
				}
				isNil := false
				if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
					isNil = true
				}
				stores[fv] = append(stores[fv], storeT{f, s, isNil, fa})
			}
		}
	}
	for _, r := range c.roots {
		if !r.isGo || r.owner == "" {
			continue
		}
		for fv, ss := range stores {
			if fieldOwner[fv] != r.owner {
				continue
			}
			hasNil, good := false, true
			for _, s := range ss {
				if s.isNil {
					hasNil = true
					continue
				}
				// a non-nil store: every way on from here spawns the root (in the same function or in its callees)
				if !c.mustSpawnAfter(s.fn, s.in, r) {
					good = false
				}
			}
			if hasNil && good {
				c.lifecycle[fv] = r
			}
		}
	}
	// non-nil implies open: each close of the field is followed by a nil store on every path
	for fv, ss := range stores {
		hasNil := false
		for _, s := range ss {
			if s.isNil {
				hasNil = true
			}
		}
		if !hasNil {
			continue
		}
		good, any := true, false
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					bi, ok := ci.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "close" {
						continue
					}
					if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
							any = true
							if _, isDefer := in.(*ssa.Defer); isDefer || !mustPass(b, i+1, func(x ssa.Instruction) bool {
								s, ok := x.(*ssa.Store)
								if !ok {
									return false
								}
								fa, ok := s.Addr.(*ssa.FieldAddr)
								if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
									return false
								}
								k, ok := s.Val.(*ssa.Const)
								return ok && k.Value == nil
							}, nil) {
								good = false
							}
						}
					}
				}
			}
		}
		if good && any {
			c.openInv[fv] = true
		}
	}
}

// mustPass: every path from (b, i) to a function exit passes an instruction with p (or an exit for which stop is true).
func mustPass(b *ssa.BasicBlock, i int, p func(ssa.Instruction) bool, seen map[*ssa.BasicBlock]bool) bool {
	if seen == nil {
		seen = map[*ssa.BasicBlock]bool{}
	}
	for ; i < len(b.Instrs); i++ {
		if p(b.Instrs[i]) {
			return true
		}
		switch b.Instrs[i].(type) {
		case *ssa.Return:
			return false
		case *ssa.Panic:
			return true
		}
	}
	for _, s := range b.Succs {
		if seen[s] {
			continue
		}
		seen[s] = true
		if !mustPass(s, 0, p, seen) {
			return false
		}
	}
	return true
}

// mustSpawnAfter: after the instruction every path of the function spawns r (directly or through a callee that always does), or, for helpers, every caller does so after the call.
func (c *Conc) mustSpawnAfter(fn *ssa.Function, at ssa.Instruction, r *Root) bool {
	return c.mustSpawn(fn, at, r, 0)
}

func (c *Conc) mustSpawn(fn *ssa.Function, at ssa.Instruction, r *Root, depth int) bool {
	if depth > 4 {
		return false
	}
	isSpawn := func(in ssa.Instruction) bool {
		if g, ok := in.(*ssa.Go); ok {
			for _, t := range c.w.pts.Callees(g) {
				if t == r.fn {
					return true
				}
			}
			return false
		}
		if ci, ok := in.(*ssa.Call); ok {
			cs := c.w.pts.Callees(ci)
			if len(cs) == 0 {
				return false
			}
			for _, t := range cs {
				if len(t.Blocks) == 0 || !c.alwaysSpawns(t, r, map[*ssa.Function]bool{}) {
					return false
				}
			}
			return true
		}
		return false
	}
	b := at.Block()
	for i, in := range b.Instrs {
		if in == at {
			if mustPass(b, i+1, isSpawn, nil) {
				return true
			}
		}
	}
	// helper: look at all callers
	n := 0
	for _, f := range c.w.funcs {
		for _, cb := range f.Blocks {
			for _, in := range cb.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range c.w.pts.Callees(ci) {
					if t == fn {
						n++
						if !c.mustSpawn(f, in, r, depth+1) {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

func (c *Conc) alwaysSpawns(f *ssa.Function, r *Root, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	return mustPass(f.Blocks[0], 0, func(in ssa.Instruction) bool {
		if g, ok := in.(*ssa.Go); ok {
			for _, t := range c.w.pts.Callees(g) {
				if t == r.fn {
					return true
				}
			}
		}
		if ci, ok := in.(*ssa.Call); ok {
			cs := c.w.pts.Callees(ci)
			for _, t := range cs {
				if len(t.Blocks) == 0 || !c.alwaysSpawns(t, r, seen) {
					return false
				}
			}
			return len(cs) > 0
		}
		return false
	}, nil)
}

// ---------- the exploration ----------

func (c *Conc) run() {
	c.discoverRoots()
	c.index()
	c.computeLifecycle()
	// spawn locks need a first pass: compute with a light exploration as part of the main pass; iterate twice
	c.spawnLocks = map[*Root]map[string]bool{}
	for pass := 0; pass < passes; pass++ {
		c.accesses, c.blocks, c.lockEvs, c.problems, c.seenBlock = nil, nil, nil, nil, map[string]bool{}
		next := map[*Root]map[string]bool{}
		for _, r := range c.roots {
			if o := os.Getenv("SDCHECK_ROOT"); o != "" && o != r.name {
				continue
			}
			c.exploreRoot(r, next)
		}
		c.spawnLocks = next
	}
}

func nrKey(r *Root, base *Term) string { return "NR:" + r.name }

func (c *Conc) exploreRoot(r *Root, spawn map[*Root]map[string]bool) {
	seenAcc := map[string]bool{}
	leaf := map[*ssa.Function]bool{}
	for _, l := range c.w.leafRuns() {
		leaf[l] = true
	}
	setNR := func(st *State, w *Root, base *Term, why string) {
		// a fact about a restartable worker is only useful while the lock of its start is held
		for l := range c.spawnLocks[w] {
			if !st.has("L:" + l) {
				if !st.has("R:" + l) {
					return
				}
			}
		}
		depth := ""
		if why == "select" {
			depth = fmt.Sprint(len(st.frames))
		}
		if w.multi {
			st.rs["NR:"+w.name+"#"+base.s+"!"+depth] = base
		} else {
			st.rs["NR:"+w.name+"#!"+depth] = nil
		}
		_ = why
	}
	rule := &Rule{
		Interesting: func(in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				return isRepoField(fieldVar(in.X.Type(), in.Field))
			case *ssa.Send, *ssa.Select, *ssa.Go:
				return true
			case *ssa.UnOp:
				return in.Op == token.ARROW
			}
			return false
		},
		NoInline: func(f *ssa.Function) bool {
			return leaf[f] && f != r.fn
		},
		Volatile: func(v *types.Var) bool {
			if !isRepoField(v) {
				return true
			}
			// lifecycle channels, flags and object references are remembered
			t := v.Type()
			if isChanType(t) {
				return false
			}
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				return fieldOwner[v] == "rx.peak" || fieldOwner[v] == "telnet.Connection"
			}
			return true
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.MUL {
					c.access(ex, st, r, in, ex.val(st, in.X), false, seenAcc)
				}
				if in.Op == token.ARROW {
					c.block(ex, st, r, in, nil)
				}
			case *ssa.Store:
				c.access(ex, st, r, in, ex.val(st, in.Addr), true, seenAcc)
			case *ssa.MapUpdate:
				c.content(ex, st, r, in, ex.val(st, in.Map), true, seenAcc)
			case *ssa.Lookup:
				c.content(ex, st, r, in, ex.val(st, in.X), false, seenAcc)
			case *ssa.Range:
				c.content(ex, st, r, in, ex.val(st, in.X), false, seenAcc)
			case *ssa.Send:
				c.block(ex, st, r, in, nil)
			case *ssa.Select:
				c.block(ex, st, r, in, nil)
			case *ssa.Go:
				for _, t := range c.w.pts.Callees(in) {
					w := c.byFn[t]
					if w == nil {
						continue
					}
					held := heldLocks(st)
					if spawn[w] == nil {
						spawn[w] = held
					} else {
						for l := range spawn[w] {
							if _, ok := held[l]; !ok {
								delete(spawn[w], l)
							}
						}
					}
					for x := range c.starts(w) {
						st.unset("NS:" + x.name)
					}
					for k := range st.rs {
						if strings.HasPrefix(k, "NR:"+w.name+"#") {
							if !w.multi {
								delete(st.rs, k)
							} else {
								// only the instance that is started
								base := c.goBase(ex, st, in)
								if base == nil || st.rs[k] == base {
									delete(st.rs, k)
								}
							}
						}
					}
				}
				c.publish(st)
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, cal calleeT, args []*Term, inl bool) {
			if cal.name == "builtin.close" {
				return
			}
			if strings.HasPrefix(cal.name, "builtin.") {
				switch cal.name {
				case "builtin.delete", "builtin.clear":
					c.content(ex, st, r, in, args[0], true, seenAcc)
				case "builtin.len", "builtin.cap":
					if _, ok := in.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Map); ok {
						c.content(ex, st, r, in, args[0], false, seenAcc)
					}
				case "builtin.append":
					if len(args) > 1 {
						c.content(ex, st, r, in, args[1], false, seenAcc)
					}
				case "builtin.copy":
					c.content(ex, st, r, in, args[0], true, seenAcc)
					c.content(ex, st, r, in, args[1], false, seenAcc)
				}
				return
			}
			if lockCall(ex, st, in, cal.name, args, func(kind, l string) {
				msg := "lock " + l + " is acquired again while it is already held by this goroutine (deadlock)"
				if kind == "unlock-not-held" {
					msg = "lock " + l + " is released without being held"
				}
				c.problems = append(c.problems, &Finding{Rule: kind, Key: r.name + ":" + l + ":" + fnKey(in.Parent()), Pos: c.w.ipos(in), Msg: msg, Detail: append(st.stack(c.w), st.traceText(12)...)})
				if kind == "relock" {
					st.dead = true
				}
			}, func(l string, try bool) {
				c.lockEvs = append(c.lockEvs, &LockEv{root: r, in: in, lock: l, held: heldLocks(st), try: try})
			}) {
				if strings.HasSuffix(cal.name, "Unlock") || strings.HasSuffix(cal.name, "RUnlock") {
					l := lockName(args[0])
					for k := range st.rs {
						if strings.HasPrefix(k, "NR:") {
							for w, ls := range c.spawnLocks {
								if _, ok := ls[l]; ok && strings.HasPrefix(k, "NR:"+w.name+"#") {
									delete(st.rs, k)
								}
							}
						}
					}
				}
				return
			}
			if cal.fn == nil || cal.fn.Blocks == nil || !c.w.inRepo(cal.fn) {
				c.extCall(ex, st, r, in, cal, args)
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, cal calleeT, args []*Term, res *Term) {
			if strings.Contains(cal.name, ").Try") {
				tryResult(st, cal.name, args, res)
			}
		},
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
			tryBranch(st, cond, taken)
			cd, v := cond, taken
			for cd.op == "not" {
				cd, v = cd.args[0], !v
			}
			if cd.op == "eq" && v {
				for i, a := range cd.args {
					if cd.args[1-i] == ex.ts.Nil {
						if fv, base := fieldOfTerm(a); fv != nil {
							if w := c.lifecycle[fv]; w != nil {
								setNR(st, w, base, "nil")
							}
						}
					}
				}
			}
		},
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			if idx < 0 {
				return
			}
			s := sel.States[idx]
			if s.Dir == types.SendOnly {
				return
			}
			t := ex.val(st, s.Chan)
			if fv, _ := fieldOfTerm(t); fv != nil && c.openInv[fv] && c.neverSent(s.Chan) && c.lifecycle[fv] != nil && c.lifecycle[fv] != r {
				st.dead = true // the channel of this field is never closed while the field refers to it
				return
			}
			why := "join"
			if len(sel.States) > 1 || !sel.Blocking {
				why = "select"
			}
			c.joined(ex, st, s.Chan, t, why, setNR)
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			for l := range heldLocks(st) {
				c.problems = append(c.problems, &Finding{Rule: "lock-leak", Key: r.name + ":" + l, Pos: c.w.pos(r.fn.Pos()) + " (" + r.name + ")", Msg: "lock " + l + " is still held when " + r.name + " returns", Detail: st.traceText(16)})
			}
		},
		OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
			suffix := "!" + fmt.Sprint(len(st.frames))
			for k := range st.rs {
				if strings.HasPrefix(k, "NR:") && strings.HasSuffix(k, suffix) {
					delete(st.rs, k)
				}
				if strings.HasPrefix(k, "dfl:") && strings.HasSuffix(k, ":"+suffix[1:]) {
					delete(st.rs, k)
				}
			}
		},
	}
	// joins by plain receive are recognised when the value is defined: handled in OnInstr of the next instruction
	base := rule.OnInstr
	rule.OnInstr = func(ex *Explorer, st *State, in ssa.Instruction) {
		base(ex, st, in)
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			t := ex.val(st, u.X)
			c.joined(ex, st, u.X, t, "join", setNR)
		}
	}
	rule.Abstract = true
	rule.Fresh = c.isFresh
	rule.Weak = func(k string) bool { return strings.HasPrefix(k, "fresh:") || strings.HasPrefix(k, "NR:") }
	rule.OnAlloc = func(ex *Explorer, st *State, in *ssa.Alloc, t *Term) {
		if in.Heap {
			if k := typeKey(in.Type()); strings.HasPrefix(k, modPath) {
				st.setT("fresh:"+t.args[0].name, t)
			}
		}
	}
	if c.mon != nil {
		c.mon.attach(r, rule)
	}
	ex := newExplorer(c.w, rule)
	ex.budget = 12_000_000
	ex.Run(r.fn, func(st *State, f *FState) {
		if !leaf[r.fn] {
			return
		}
		// nothing runs yet when a command starts, except what the wrapper of the commands started
		early := map[*Root]bool{}
		for _, f := range c.w.commandRuns() {
			if q := c.byFn[f]; q != nil && !leaf[f] {
				for x := range c.startsExcept(q, leaf) {
					early[x] = true
				}
			}
		}
		for _, q := range c.roots {
			if !early[q] && q.thread != "main" {
				st.set("NS:" + q.name)
			}
		}
	})
	c.steps += ex.steps
	c.states += ex.states
	if debugConc {
		fmt.Fprintln(os.Stderr, "EXPLORED", r.name, ex.steps, ex.states)
		if ex.steps > 300000 {
			ex.dumpKeys()
		}
	}
	if ex.over {
		c.over = append(c.over, "exploration of "+r.name)
	}
}

// starts: the roots that can run once r runs (r itself included).
func (c *Conc) starts(r *Root) map[*Root]bool { return c.startsExcept(r, nil) }

func (c *Conc) startsExcept(r *Root, skip map[*ssa.Function]bool) map[*Root]bool {
	if c.startsM == nil {
		c.startsM = map[string]map[*Root]bool{}
	}
	key := fmt.Sprintf("%s/%d", r.name, len(skip))
	if m, ok := c.startsM[key]; ok {
		return m
	}
	m := map[*Root]bool{r: true}
	reach, _ := c.w.rtaReach([]*ssa.Function{r.fn}, func(f *ssa.Function) bool { return skip[f] })
	// callbacks run methods of objects made elsewhere: use the plain call graph for these
	for f := range c.w.reachableSkip([]*ssa.Function{r.fn}, skip) {
		reach[f] = true
	}
	for _, q := range c.roots {
		if reach[q.fn] {
			m[q] = true
		}
	}
	c.startsM[key] = m
	return m
}

// goBase: the receiver object of a go statement.
func (c *Conc) goBase(ex *Explorer, st *State, in *ssa.Go) *Term {
	if f := in.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(in.Call.Args) > 0 {
		return ex.val(st, in.Call.Args[0])
	}
	return nil
}

func (c *Conc) neverSent(v ssa.Value) bool {
	for _, k := range c.classes(v) {
		if len(c.senders[k]) > 0 {
			return false
		}
	}
	return true
}

func (c *Conc) publish(st *State) {
	for k := range st.rs {
		if strings.HasPrefix(k, "fresh:") {
			delete(st.rs, k)
		}
	}
}

func (c *Conc) joined(ex *Explorer, st *State, ch ssa.Value, t *Term, why string, setNR func(*State, *Root, *Term, string)) {
	ks := c.classes(ch)
	if len(ks) == 0 {
		return
	}
	var w *Root
	for _, k := range ks {
		r := c.exitOf[k]
		if r == nil || (w != nil && w != r) || len(c.senders[k]) > 0 {
			return
		}
		w = r
	}
	_, base := fieldOfTerm(t)
	if base == nil {
		return
	}
	setNR(st, w, base, why)
}

// isFresh: the object was allocated on this path and not yet shared with another goroutine.
func (c *Conc) isFresh(st *State, base *Term) bool {
	for base != nil && base.op == "&" {
		base = base.args[0]
	}
	if base == nil || base.op != "alloc" {
		return false
	}
	if a, ok := base.payload.(*ssa.Alloc); ok && !a.Heap {
		return true
	}
	s := base.args[0]
	if s.gen > 0 {
		return false
	}
	return st.rs["fresh:"+s.name] == base
}

func (c *Conc) nrFacts(st *State, base *Term) map[string]bool {
	m := map[string]bool{}
	for k, t := range st.rs {
		if strings.HasPrefix(k, "NS:") {
			m[k[3:]] = true
			continue
		}
		if !strings.HasPrefix(k, "NR:") {
			continue
		}
		name := k[3:strings.Index(k, "#")]
		r := c.rootByName(name)
		if r == nil {
			continue
		}
		if !r.multi {
			m[name] = true
			continue
		}
		// instance: the fact must be about the worker of this object
		if t == base || base == nil {
			m[name] = true
			continue
		}
		if srcAddr(t) != nil && srcAddr(t).op == "&" && srcAddr(t).args[0] == base {
			m[name] = true
			continue
		}
		// parts of the worker's object (base is loaded from it)
		b := base
		for i := 0; i < 4 && b != nil; i++ {
			if b == t || (srcAddr(t) != nil && srcAddr(t).op == "&" && srcAddr(t).args[0] == b) {
				m[name] = true
				break
			}
			if srcAddr(b) != nil && srcAddr(b).op == "&" {
				b = srcAddr(b).args[0]
			} else if b.op == "&" {
				b = b.args[0]
			} else {
				break
			}
		}
	}
	return m
}

func (c *Conc) rootByName(n string) *Root {
	for _, r := range c.roots {
		if r.name == n {
			return r
		}
	}
	return nil
}

func (c *Conc) access(ex *Explorer, st *State, r *Root, in ssa.Instruction, addr *Term, write bool, seen map[string]bool) {
	switch addr.op {
	case "&":
		fv := addr.payload.(*types.Var)
		if !isRepoField(fv) {
			// field of an embedded or foreign struct: attribute to the outer field
			return
		}
		c.record(st, r, in, fv, addr.args[0], write, seen)
	case "&[]":
		c.content(ex, st, r, in, addr.args[0], write, seen)
	}
}

// content is an access to the elements of a container that is held in a field.
func (c *Conc) content(ex *Explorer, st *State, r *Root, in ssa.Instruction, t *Term, write bool, seen map[string]bool) {
	if t.op == "&" { // array field
		c.record(st, r, in, t.payload.(*types.Var), t.args[0], write, seen)
		return
	}
	fv, base := fieldOfTerm(t)
	if fv == nil || !isRepoField(fv) {
		return
	}
	c.record(st, r, in, fv, base, write, seen)
}

func (c *Conc) record(st *State, r *Root, in ssa.Instruction, fv *types.Var, base *Term, write bool, seen map[string]bool) {
	// a part of a struct that is embedded by value belongs to the outer object
	for base != nil && base.op == "&" {
		ov, ok := base.payload.(*types.Var)
		if !ok || !isRepoField(ov) {
			break
		}
		fv, base = ov, base.args[0]
	}
	fresh := c.isFresh(st, base)
	if fresh {
		return
	}
	if base != nil && base.op == "alloc" {
		if a, ok := base.payload.(*ssa.Alloc); ok && !a.Heap {
			return
		}
	}
	locks := heldLocks(st)
	nr := c.nrFacts(st, base)
	var ls []string
	for l, x := range locks {
		ls = append(ls, fmt.Sprintf("%s=%t", l, x))
	}
	for n := range nr {
		ls = append(ls, "nr:"+n)
	}
	sort.Strings(ls)
	key := fmt.Sprintf("%p|%s|%t|%s", in, fieldKey(fv), write, strings.Join(ls, ","))
	if seen[key] {
		return
	}
	seen[key] = true
	c.accesses = append(c.accesses, &Access{root: r, field: fv, write: write, in: in, locks: locks, nr: nr, base: base.String(), stack: st.stack(c.w)})
}

func (c *Conc) block(ex *Explorer, st *State, r *Root, in ssa.Instruction, _ any) {
	op := &BlockOp{root: r, in: in, locks: heldLocks(st), signals: map[string]bool{}, stack: st.stack(c.w), trace: st.traceText(10)}
	for k := range st.rs {
		if strings.HasPrefix(k, "sig:") {
			op.signals[k[4:]] = true
		}
	}
	switch in := in.(type) {
	case *ssa.Send:
		op.kind = "send"
		op.sends = c.classes(in.Chan)
	case *ssa.UnOp:
		op.kind = "recv"
		op.recvs = c.classes(in.X)
		if len(op.recvs) == 0 {
			op.extCase = true
		}
	case *ssa.Select:
		op.kind = "select"
		op.dflt = !in.Blocking
		for _, s := range in.States {
			ks := c.classes(s.Chan)
			if s.Dir == types.SendOnly {
				op.sends = append(op.sends, ks...)
			} else {
				op.recvs = append(op.recvs, ks...)
				if len(ks) == 0 {
					op.extCase = true
				}
			}
		}
	}
	c.addBlock(op)
}

func (c *Conc) addBlock(op *BlockOp) {
	var ks []string
	for l, x := range op.locks {
		ks = append(ks, fmt.Sprintf("%s=%t", l, x))
	}
	for s := range op.signals {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	k := fmt.Sprintf("%s|%p|%s", op.root.name, op.in, strings.Join(ks, ","))
	if c.seenBlock[k] {
		return
	}
	c.seenBlock[k] = true
	c.blocks = append(c.blocks, op)
}

func (c *Conc) extCall(ex *Explorer, st *State, r *Root, in ssa.Instruction, cal calleeT, args []*Term) {
	name := cal.name
	if isNetBlocking(name) {
		op := &BlockOp{root: r, in: in, locks: heldLocks(st), kind: "ext", name: name, signals: map[string]bool{}, stack: st.stack(c.w), trace: st.traceText(10)}
		c.addBlock(op)
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		ts := c.w.asyncTargets(ci)
		if len(ts) > 0 {
			c.publish(st)
		}
		for _, t := range ts {
			if w := c.byFn[t]; w != nil {
				for x := range c.starts(w) {
					st.unset("NS:" + x.name)
				}
			}
		}
	}
}

func isNetBlocking(name string) bool {
	for _, s := range []string{".ReadMessage", ".WriteMessage", ").Read", ".Read", ".Recv", ".Send", ".Accept", ").Accept", ").AcceptTCP", ").Serve", ").GracefulStop", "Dial", ").Wait", "time.Sleep", "io.ReadWriteCloser.Write", "io.WriteCloser.Write", "net.Conn.Write", "net.conn).Write", "TCPConn).Write"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}
