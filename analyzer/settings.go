package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

// setter: a method that takes one setting.
type setter struct {
	fn    *ssa.Function
	name  string
	owner string // type key of the receiver, short
}

// settersOf lists the exported methods Set… with one parameter of the types that are wanted.
func (w *World) settersOf(want func(owner string, fn *ssa.Function) bool) []setter {
	var res []setter
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || len(f.Params) != 2 || len(f.Blocks) == 0 || !w.inRepo(f) {
			continue
		}
		if !strings.HasPrefix(f.Name(), "Set") || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		o := shortType(typeKey(deref(f.Signature.Recv().Type())))
		if o != "" && want(o, f) {
			res = append(res, setter{f, f.Name(), o})
		}
	}
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i].fn) < fnKey(res[j].fn) })
	return res
}

func methodName(c calleeT) (owner, name string) {
	if c.fn == nil || c.fn.Signature.Recv() == nil {
		return "", ""
	}
	return shortType(typeKey(deref(c.fn.Signature.Recv().Type()))), c.fn.Name()
}

// setterRun: what a setter does with its parameter.
type setterRun struct {
	stores map[string]bool            // fields that keep the value on every path
	some   map[string]bool            // fields that keep it on some path
	instrs map[ssa.Instruction]bool   // the stores
	calls  map[string]bool            // sinks that get the value on every path (or that are excused)
	any    map[string]bool            // sinks that get it on some path
	miss   map[string][]string        // sink → path on which it does not get the value
	locks  map[string]map[string]bool // "<field> <sink>" → locks held from the store to the call
	exits  int
	keep   []string // path on which the value is not kept
	guard  map[string]bool
	form   map[string]map[string]bool // field or sink → what is kept or handed on, in terms of the parameter
	bound  bool
}

// formOf renders a term with the given symbol as "P"; "" if it cannot be told.
func formOf(t, p *Term, pAs string, d int) string {
	if t == p {
		return pAs
	}
	if d > 6 {
		return ""
	}
	if t.isConst() {
		if t.cval != nil {
			return t.cval.ExactString()
		}
		return "nil"
	}
	if k := srcField(t); k != "" {
		return k
	}
	switch t.op {
	case "conv", "+", "-", "*", "/", "not", "lt", "eq":
	case "iface":
		return formOf(t.args[0], p, pAs, d+1)
	default:
		return ""
	}
	if t.op == "*" && len(t.args) == 1 {
		return ""
	}
	var parts []string
	for _, a := range t.args {
		x := formOf(a, p, pAs, d+1)
		if x == "" {
			return ""
		}
		parts = append(parts, x)
	}
	op := t.op
	if op == "conv" && t.typ != nil {
		op = typeStr(t.typ)
	}
	return op + "(" + strings.Join(parts, ",") + ")"
}

func addForm(m map[string]map[string]bool, k, f string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][f] = true
}

func carriesTerm(t, p *Term) bool { return mentionsTerm(t, p, 0) }

func mutexCall(name string) int {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return -1
	}
	return 0
}

func lockID(t *Term) string {
	if t.op == "&" {
		return fieldKey(t.payload.(*types.Var))
	}
	return t.String()
}

// heldHere: the locks that are held, and the queue whose function runs.
func heldHere(st *State) map[string]bool {
	res := map[string]bool{}
	for k := range st.rs {
		if strings.HasPrefix(k, "K|") {
			res[k[2:]] = true
		}
	}
	for _, f := range st.frames {
		switch f.fr.site.(type) {
		case *ssa.Send, *ssa.Select:
			res["queue"] = true
		}
	}
	return res
}

func trackLocks(st *State, c calleeT, args []*Term, prefixes ...string) {
	if len(args) == 0 {
		return
	}
	switch mutexCall(c.name) {
	case 1:
		st.set("K|" + lockID(args[0]))
	case -1:
		id := lockID(args[0])
		st.unset("K|" + id)
		for k := range st.rs {
			for _, p := range prefixes {
				if strings.HasPrefix(k, p) && strings.HasSuffix(k, "|"+id) {
					delete(st.rs, k)
				}
			}
		}
	}
}

// isZero: the value is known to be the zero value (or not positive).
func (ex *Explorer) isZero(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	if ex.decide(st, ex.eq(t, ex.ts.Nil)) == 1 {
		return true
	}
	for f, v := range st.facts {
		switch f.op {
		case "eq":
			for i := 0; i < 2; i++ {
				if v && f.args[i] == t && f.args[1-i].isConst() && isZeroConst(f.args[1-i]) {
					return true
				}
			}
		case "lt":
			if !v && f.args[1] == t && isZeroConst(f.args[0]) { // not 0 < t
				return true
			}
			if v && f.args[0] == t && isZeroConst(f.args[1]) { // t < 0
				return true
			}
		}
	}
	return false
}

func isZeroConst(t *Term) bool {
	if !t.isConst() || t.cval == nil {
		return false
	}
	s := t.cval.ExactString()
	return s == "0" || s == `""`
}

// runSetter explores a setter. sink: calls that hand the value on; in: the packages whose functions are entered.
func runSetter(w *World, s setter, own string, sink func(c calleeT) string, enter func(g *ssa.Function) bool, overAll map[string]bool, out *findings) *setterRun {
	res := &setterRun{stores: map[string]bool{}, some: map[string]bool{}, instrs: map[ssa.Instruction]bool{}, calls: map[string]bool{}, any: map[string]bool{}, miss: map[string][]string{}, locks: map[string]map[string]bool{}, guard: map[string]bool{}, form: map[string]map[string]bool{}}
	ws := newWalks(w, sortedKeysB(overAll)...)
	var p *Term
	type exit struct {
		stores, calls, loops map[string]bool
		excused              string
		trace                []string
	}
	var exits []exit
	var loopName = map[string]*Loop{}
	ex := newExplorer(w, &Rule{
		SendRuns:    true,
		Interesting: func(in ssa.Instruction) bool { return false },
		Inline:      func(g *ssa.Function) bool { return enter(g) },
		NoInline:    func(g *ssa.Function) bool { return !enter(g) || sink(calleeT{fn: g, name: g.String()}) != "" },
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			x, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			if fv == nil {
				return
			}
			if own != "" && shortType(typeKey(deref(baseStruct(fa).Type()))) != own {
				return
			}
			v := ex.val(st, x.Val)
			k := fieldKey(fv)
			if !carriesTerm(v, p) {
				if st.has("S|" + k) {
					st.unset("S|" + k)
				}
				return
			}
			st.set("S|" + k)
			res.some[k] = true
			addForm(res.form, k, formOf(v, p, "P", 0))
			res.instrs[in] = true
			for l := range heldHere(st) {
				st.set("SL|" + k + "|" + l)
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			trackLocks(st, c, args, "SL|")
			k := sink(c)
			if k == "" {
				return
			}
			with := false
			for _, a := range args[min(1, len(args)):] {
				if carriesTerm(a, p) {
					with = true
					addForm(res.form, k, formOf(a, p, "P", 0))
				}
			}
			if !with {
				return
			}
			res.any[k] = true
			st.set("A|" + k)
			if overAll[k] {
				ws.act(st, k)
			}
			for key := range st.rs {
				if strings.HasPrefix(key, "S|") {
					f := key[2:]
					held := map[string]bool{}
					for l := range st.rs {
						if strings.HasPrefix(l, "SL|"+f+"|") {
							held[l[len("SL|"+f+"|"):]] = true
						}
					}
					if st.has("SL|" + f + "|queue") {
						held["queue"] = true
					}
					id := f + " " + k
					if old, ok := res.locks[id]; ok {
						for l := range old {
							if !held[l] {
								delete(old, l)
							}
						}
					} else {
						res.locks[id] = held
					}
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if strings.HasSuffix(c.name, "Connected") && res != nil {
				st.setT("CONN|"+w.ipos(in), res)
			}
		},
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
			ws.onBranch(ex, st, in, taken)
			if l := loopWithHeader(in.Block()); l != nil && len(overAll) > 0 {
				if coll, _, _, _ := l.walk(); coll != nil || rangesMap(l) {
					id := fmt.Sprintf("%p", l)
					loopName[id] = l
					st.set("LOOP|" + id)
				}
			}
		},
		OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) {
			ws.onBlock(ex, st, b)
		},
		OnReturn: func(ex *Explorer, st *State, fr *Frame, _ []*Term) { ws.onReturn(st, fr) },
		OnExit: func(ex *Explorer, st *State, _ []*Term) {
			e := exit{stores: map[string]bool{}, calls: map[string]bool{}, loops: map[string]bool{}, trace: st.traceText(12)}
			for k := range st.rs {
				switch {
				case strings.HasPrefix(k, "S|"):
					e.stores[k[2:]] = true
				case strings.HasPrefix(k, "A|"):
					e.calls[k[2:]] = true
				case strings.HasPrefix(k, "LOOP|"):
					e.loops[k[5:]] = true
				}
			}
			if ex.isZero(st, p) {
				e.excused = "zero"
			}
			for k, t := range st.rs {
				if strings.HasPrefix(k, "CONN|") && ex.decide(st, t) == 0 {
					e.excused = "not connected"
				}
			}
			for f, v := range st.facts {
				if f.op == "eq" && v && (f.args[0] == ex.ts.Nil || f.args[1] == ex.ts.Nil) {
					o := f.args[0]
					if o == ex.ts.Nil {
						o = f.args[1]
					}
					if k := srcField(o); k != "" {
						e.calls["nil:"+k] = true
					}
				}
			}
			exits = append(exits, e)
		},
	})
	ex.budget = 400_000
	ex.Run(s.fn, func(st *State, f *FState) {
		p = f.regs[s.fn.Params[1]]
		st.setT("P|", p)
	})
	if ex.over {
		res.bound = true
		return res
	}
	res.exits = len(exits)
	first := true
	for _, e := range exits {
		if first {
			for k := range e.stores {
				res.stores[k] = true
			}
			first = false
		}
		for k := range res.stores {
			if !e.stores[k] {
				delete(res.stores, k)
			}
		}
		if len(e.stores) == 0 && res.keep == nil {
			res.keep = e.trace
			if len(res.keep) == 0 {
				res.keep = []string{fnKey(s.fn)}
			}
		}
	}
	for k := range res.any {
		ok := true
		for _, e := range exits {
			good := e.calls[k]
			if !good && overAll[k] {
				for id := range e.loops {
					if inf := ws.infos[loopName[id]]; inf != nil && inf.acted[k] {
						good = true
					}
				}
			}
			if !good && e.excused != "" {
				res.guard[k+"|"+e.excused] = true
				good = true
			}
			if !good {
				for c := range e.calls {
					if strings.HasPrefix(c, "nil:") {
						good = true
					}
				}
			}
			if !good {
				ok = false
				if res.miss[k] == nil {
					res.miss[k] = e.trace
				}
			}
		}
		if ok {
			res.calls[k] = true
		}
		if overAll[k] {
			ws.problems(k, func(l *Loop, what, detail string) {
				if coll, _, _, _ := l.walk(); coll == nil && !rangesMap(l) {
					return
				}
				msg := map[string]string{"skip": "some listeners are left out", "stop": "the loop over the listeners ends early", "partial": "the loop does not visit all listeners"}[what]
				if msg == "" {
					return
				}
				out.add("some-listeners", "some-listeners:"+fnKey(s.fn)+":"+what, w.loopPos(l), fmt.Sprintf("%s does not apply the setting to all existing listeners: %s", fnKey(s.fn), msg), detail)
			})
		}
	}
	return res
}

func checkC17(w *World, r *Result) {
	r.rule("Keep: every setter of the receiver and of the TCI and KiwiSDR processes stores its parameter on every path, and nothing but the setter and the constructor writes that field.")
	r.rule("Existing listeners: a receiver setter applies its parameter to each listener in a loop over all listeners; future listeners: each function that makes a listener applies to it, by the same listener setter, the field in which the receiver setter stored the setting. Both sides are required for each listener setter that either side uses, and for each listener setter of the same name as a receiver setter.")
	r.rule("Passing on: a type whose part has a setter of the same name and parameter type passes the setting on to it on every path.")
	r.rule("Reconnect: every way through the function that starts the receiver applies each remembered setting by the receiver setter that the process setter uses (it may be left out only if the remembered value is known to be zero, i.e. was never made), and the setter itself applies it at once, so that storing and applying on the one side, and loading and applying on the other, are one critical section of the same lock.")
	var out findings
	defer func() { r.addAll(out.list) }()

	pkg := func(names ...string) func(g *ssa.Function) bool {
		return func(g *ssa.Function) bool {
			p := shortPkg(w.fnPkg(g))
			for _, n := range names {
				if p == n {
					return true
				}
			}
			return false
		}
	}
	incomplete := func(run *setterRun, what string) bool {
		if run.bound {
			r.incomplete("the exploration of " + what + " was given up")
		}
		return run.bound
	}

	// ---- parts ----
	type partSetter struct {
		via string
		fn  *ssa.Function
	}
	all := w.settersOf(func(o string, f *ssa.Function) bool {
		return !strings.HasPrefix(o, "scope/") && !strings.HasPrefix(o, "cmd.")
	})
	byOwner := map[string]map[string]setter{}
	for _, s := range all {
		if byOwner[s.owner] == nil {
			byOwner[s.owner] = map[string]setter{}
		}
		byOwner[s.owner][s.name] = s
	}
	sameParam := func(a, b *ssa.Function) bool {
		return namedOrString(a.Params[1].Type()) == namedOrString(b.Params[1].Type())
	}
	// the parts of a listener
	parts := map[string]bool{}
	var addPart func(t types.Type)
	addPart = func(t types.Type) {
		o := shortType(typeKey(deref(t)))
		st, ok := deref(t).Underlying().(*types.Struct)
		if o == "" || !ok || parts[o] || o == "rx.Receiver" || byOwner[o] == nil {
			return
		}
		parts[o] = true
		for i := 0; i < st.NumFields(); i++ {
			addPart(st.Field(i).Type())
		}
	}
	if t := w.namedType("rx", "Listener"); t != nil {
		addPart(t)
	}
	for _, s := range all {
		if !parts[s.owner] {
			continue
		}
		recv, ok := deref(s.fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < recv.NumFields(); i++ {
			o := shortType(typeKey(deref(recv.Field(i).Type())))
			part, ok := byOwner[o][s.name]
			if !ok || !sameParam(part.fn, s.fn) || part.fn == s.fn {
				continue
			}
			r.count("parts that have the same setting", 1)
			target := part.fn
			run := runSetter(w, s, "", func(c calleeT) string {
				if a, n := methodName(c); a == o && n == target.Name() {
					return a + "." + n
				}
				return ""
			}, pkg(shortPkg(w.fnPkg(s.fn))), nil, &out)
			if incomplete(run, fnKey(s.fn)) {
				continue
			}
			if !run.calls[o+"."+target.Name()] {
				out.add("not-passed-on", "not-passed-on:"+fnKey(s.fn)+":"+o, w.pos(s.fn.Pos()), fmt.Sprintf("%s does not pass the setting on to %s on every path", fnKey(s.fn), fnKey(target)), run.miss[o+"."+target.Name()]...)
			}
		}
	}

	// ---- receiver and listeners ----
	listenerSetters := map[string]bool{}
	for _, s := range all {
		if s.owner == "rx.Listener" {
			listenerSetters[s.name] = true
			run := runSetter(w, s, "", func(c calleeT) string { return "" }, pkg("rx", "cw", "dsp"), nil, &out)
			r.count("listener setters", 1)
			if incomplete(run, fnKey(s.fn)) {
				continue
			}
			if run.keep != nil {
				out.add("not-kept", "not-kept:"+fnKey(s.fn), w.pos(s.fn.Pos()), fnKey(s.fn)+" does not keep the setting on some path", run.keep...)
			}
		}
	}
	overAll := map[string]bool{}
	for n := range listenerSetters {
		overAll["rx.Listener."+n] = true
	}
	toListener := func(c calleeT) string {
		if o, n := methodName(c); o == "rx.Listener" && listenerSetters[n] {
			return o + "." + n
		}
		return ""
	}
	runs := map[string]*setterRun{}
	var rxSetters []setter
	for _, s := range all {
		if s.owner == "rx.Receiver" {
			rxSetters = append(rxSetters, s)
		}
	}
	keptBy := map[string]map[string]bool{} // field → setters
	okStores := map[ssa.Instruction]bool{}
	for _, s := range rxSetters {
		r.count("receiver setters", 1)
		run := runSetter(w, s, s.owner, toListener, pkg("rx"), overAll, &out)
		if incomplete(run, fnKey(s.fn)) {
			continue
		}
		runs[s.name] = run
		if run.keep != nil {
			out.add("not-kept", "not-kept:"+fnKey(s.fn), w.pos(s.fn.Pos()), fnKey(s.fn)+" does not keep the setting on some path", run.keep...)
		}
		for in := range run.instrs {
			okStores[in] = true
		}
		for f := range run.some {
			if strings.HasPrefix(f, "rx.Listener.") {
				continue
			}
			if keptBy[f] == nil {
				keptBy[f] = map[string]bool{}
			}
			keptBy[f][s.name] = true
		}
	}
	r.floor("receiver setters", 6)
	// what new listeners get
	makers := w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || c.Common().StaticCallee() == nil || !w.inRepo(f) {
			return false
		}
		g := c.Common().StaticCallee()
		if g.Origin() != nil {
			g = g.Origin()
		}
		return fnKey(g) == "rx.NewListener"
	})
	makers = uniqFns(w.climbTo(makers, func(f *ssa.Function) bool { return f.Parent() != nil || fnPkgIs(w, f, "rx") && w.addressTaken(f) }))
	if len(makers) == 0 {
		r.assume("No function makes listeners with rx.NewListener; the rule on new listeners was not applied.")
	}
	for _, mk := range makers {
		r.count("functions that make listeners", 1)
		type got struct {
			calls map[string]map[string]bool
			trace []string
		}
		var exits []got
		ex := newExplorer(w, &Rule{
			SendRuns:    true,
			Interesting: func(in ssa.Instruction) bool { return false },
			Inline:      func(g *ssa.Function) bool { return pkg("rx")(g) && fnKey(orig(g)) != "rx.NewListener" },
			NoInline: func(g *ssa.Function) bool {
				return !pkg("rx")(g) || fnKey(orig(g)) == "rx.NewListener" || toListener(calleeT{fn: g}) != ""
			},
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				if k := toListener(c); k != "" && len(args) > 1 {
					for _, f := range fieldsIn(args[1]) {
						st.set("N|" + k + "|" + f)
					}
					st.set("N|" + k + "|")
				}
			},
			OnExit: func(ex *Explorer, st *State, _ []*Term) {
				g := got{calls: map[string]map[string]bool{}, trace: st.traceText(12)}
				for k := range st.rs {
					if strings.HasPrefix(k, "N|") {
						p := strings.SplitN(k[2:], "|", 2)
						if g.calls[p[0]] == nil {
							g.calls[p[0]] = map[string]bool{}
						}
						g.calls[p[0]][p[1]] = true
					}
				}
				exits = append(exits, g)
			},
		})
		ex.budget = 200_000
		ex.Run(mk, nil)
		if ex.over {
			r.incomplete("the exploration of " + fnKey(mk) + " was given up")
			continue
		}
		// expected: sink → fields
		for _, s := range rxSetters {
			run := runs[s.name]
			if run == nil {
				continue
			}
			sinks := map[string]bool{}
			for k := range run.any {
				sinks[k] = true
			}
			if listenerSetters[s.name] {
				sinks["rx.Listener."+s.name] = true
			}
			for k := range sinks {
				if !run.calls[k] {
					out.add("existing-listeners", "existing-listeners:"+fnKey(s.fn)+":"+k, w.pos(s.fn.Pos()), fmt.Sprintf("%s does not apply the setting to the existing listeners with %s on every path", fnKey(s.fn), k), run.miss[k]...)
				}
				for _, e := range exits {
					fs := e.calls[k]
					ok := false
					for f := range fs {
						ok = ok || run.stores[f]
					}
					if !ok && len(run.stores) > 0 {
						what := "does not call " + k
						if len(fs) > 0 {
							what = "calls " + k + " with another value"
						}
						out.add("new-listeners", "new-listeners:"+fnKey(s.fn)+":"+k, w.pos(mk.Pos()), fmt.Sprintf("%s %s: a listener that is created later does not get what %s has set", fnKey(mk), what, fnKey(s.fn)), e.trace...)
						break
					}
				}
			}
		}
		for _, e := range exits {
			for k, fs := range e.calls {
				for f := range fs {
					for name := range keptBy[f] {
						run := runs[name]
						if run == nil || run.any[k] || listenerSetters[name] && k == "rx.Listener."+name {
							continue
						}
						out.add("existing-listeners", "existing-listeners:rx.(*Receiver)."+name+":"+k, w.pos(mk.Pos()), fmt.Sprintf("new listeners get %s with %s, but rx.(*Receiver).%s does not apply it to the existing ones", f, k, name))
					}
				}
			}
		}
	}
	// objects that are made from a setting when the receiver starts follow its changes
	for _, in := range w.startConstruction() {
		for _, s := range rxSetters {
			run := runs[s.name]
			if run == nil || !run.some[in.field] {
				continue
			}
			r.count("objects made from a setting at the start", 1)
			run2 := runSetter(w, s, s.owner, func(c calleeT) string {
				if o, _ := methodName(c); o == in.made {
					return o
				}
				return ""
			}, pkg("rx"), nil, &out)
			if incomplete(run2, fnKey(s.fn)) {
				continue
			}
			if !run2.calls[in.made] {
				out.add("made-from", "made-from:"+fnKey(s.fn)+":"+in.made, in.pos, fmt.Sprintf("%s is made from %s when the receiver starts, but %s does not pass a change on to it", in.made, in.field, fnKey(s.fn)), run2.miss[in.made]...)
			}
		}
	}

	// ---- processes ----
	toReceiver := func(c calleeT) string {
		if o, n := methodName(c); o == "rx.Receiver" && strings.HasPrefix(n, "Set") {
			return o + "." + n
		}
		return ""
	}
	procs := map[string]bool{}
	for _, s := range all {
		if st, ok := deref(s.fn.Signature.Recv().Type()).Underlying().(*types.Struct); ok && s.owner != "rx.Receiver" {
			for i := 0; i < st.NumFields(); i++ {
				if shortType(typeKey(deref(st.Field(i).Type()))) == "rx.Receiver" {
					procs[s.owner] = true
				}
			}
		}
	}
	r.count("processes with a receiver", len(procs))
	r.floor("processes with a receiver", 2)
	for _, proc := range sortedKeysB(procs) {
		pk := proc[:strings.LastIndexByte(proc, '.')]
		in := pkg(pk)
		pruns := map[string]*setterRun{}
		var names []string
		for _, s := range all {
			if s.owner != proc {
				continue
			}
			r.count("process setters", 1)
			run := runSetter(w, s, s.owner, toReceiver, in, nil, &out)
			if incomplete(run, fnKey(s.fn)) {
				continue
			}
			pruns[s.name] = run
			names = append(names, s.name)
			if run.keep != nil {
				out.add("not-kept", "not-kept:"+fnKey(s.fn), w.pos(s.fn.Pos()), fnKey(s.fn)+" does not remember the setting on some path", run.keep...)
			}
			for x := range run.instrs {
				okStores[x] = true
			}
			for f := range run.some {
				if keptBy[f] == nil {
					keptBy[f] = map[string]bool{}
				}
				keptBy[f][proc+"."+s.name] = true
			}
			r.sample("%s", fmt.Sprintf("%s keeps %s, applies with %s", fnKey(s.fn), strings.Join(sortedKeysB(run.stores), ", "), strings.Join(sortedKeysB(run.any), ", ")))
		}
		// starts of the receiver
		starts := w.fnsWhere(func(f *ssa.Function, i ssa.Instruction) bool {
			c, ok := i.(*ssa.Call)
			if !ok || !in(f) || c.Common().StaticCallee() == nil {
				return false
			}
			o, n := methodName(calleeT{fn: c.Common().StaticCallee()})
			return o == "rx.Receiver" && n == "Start"
		})
		starts = w.climbTo(starts, func(f *ssa.Function) bool { return false })
		if len(starts) == 0 {
			r.assume("No function of " + pk + " starts a receiver; the rule on reconnects was not applied to it.")
		}
		for _, root := range starts {
			r.count("functions that start a receiver", 1)
			connectRun(w, r, root, proc, in, toReceiver, pruns, names, &out)
		}
	}

	// ---- nothing else writes the settings ----
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || okStores[i] {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || len(keptBy[fieldKey(fv)]) == 0 {
					continue
				}
				r.count("writes of settings", 1)
				if freshBase(fa.X) {
					continue
				}
				if sameSetting(w, st.Val, fv) {
					continue
				}
				out.add("overwritten", "overwritten:"+fnKey(f)+":"+fieldKey(fv), w.ipos(i), fmt.Sprintf("%s writes the setting %s that %s has made", fnKey(f), fieldKey(fv), strings.Join(sortedKeysB(keptBy[fieldKey(fv)]), ", ")))
			}
		}
	}
}

// baseStruct: the object whose (nested) field it is.
func baseStruct(fa *ssa.FieldAddr) ssa.Value {
	v := fa.X
	for {
		x, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = x.X
	}
}

func rangesMap(l *Loop) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func orig(g *ssa.Function) *ssa.Function {
	if g.Origin() != nil {
		return g.Origin()
	}
	return g
}

func fnPkgIs(w *World, f *ssa.Function, p string) bool { return shortPkg(w.fnPkg(f)) == p }

func namedOrString(t types.Type) string {
	if _, ok := t.(*types.TypeParam); ok {
		return "T"
	}
	return typeStr(t)
}

// freshBase: the address belongs to an object that was allocated in the same function (or by a constructor it called).
func freshBase(v ssa.Value) bool {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok { // a variable that holds a fresh object
				fresh := false
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						if _, isA := s.Val.(*ssa.Alloc); !isA {
							return false
						}
						fresh = true
					}
				}
				return fresh
			}
		}
		return false
	}
	return false
}

// sameSetting: the value is the setting itself (x.f = x.f).
func sameSetting(w *World, v ssa.Value, fv *types.Var) bool {
	for f := range w.srcFields(v) {
		if f == fv {
			return true
		}
	}
	return false
}

// fieldsIn: the fields that the parts of a term were loaded from.
func fieldsIn(t *Term) []string {
	m := map[string]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 8 {
			return
		}
		if k := srcField(t); k != "" {
			m[k] = true
			return
		}
		for _, a := range t.args {
			walk(a, d+1)
		}
	}
	walk(t, 0)
	return sortedKeysB(m)
}

// climbTo replaces functions by the callers that reach them within their package, up to those that are called from elsewhere.
func (w *World) climbTo(fns []*ssa.Function, stop func(f *ssa.Function) bool) []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		n := 0
		if !stop(f) {
			for _, site := range w.callSitesOf(f) {
				c := site.Parent()
				if g := site.Common().StaticCallee(); g == nil || orig(g) != orig(f) {
					continue
				}
				if w.fnPkg(c) == w.fnPkg(f) && c != f {
					n++
					up(c)
				}
			}
		}
		if n == 0 {
			res = append(res, f)
		}
	}
	for _, f := range fns {
		up(f)
	}
	return uniqFns(res)
}

// addressTaken: the function is used as a value.
func (w *World) addressTaken(f *ssa.Function) bool {
	o := orig(f)
	for _, g := range w.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					h := mc.Fn.(*ssa.Function)
					if strings.HasSuffix(h.Name(), "$bound") && h.Object() != nil && o.Object() == h.Object() {
						return true
					}
				}
			}
		}
	}
	return false
}

type startMade struct {
	field string
	made  string
	pos   string
}

// startConstruction: the objects that the receiver's start makes from settings.
func (w *World) startConstruction() []startMade {
	var res []startMade
	seen := map[string]bool{}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "rx") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				g := orig(c.Common().StaticCallee())
				if g.Signature.Recv() != nil || !strings.HasPrefix(g.Name(), "New") || fnPkgIs(w, g, "rx") || !w.inRepo(g) {
					continue
				}
				made := shortType(typeKey(deref(c.Type())))
				for _, a := range c.Common().Args {
					for fv := range w.srcFields(a) {
						if fieldOwner[fv] == "rx.Receiver" && !seen[made+fieldKey(fv)] {
							seen[made+fieldKey(fv)] = true
							res = append(res, startMade{fieldKey(fv), made, w.ipos(in)})
						}
					}
				}
			}
		}
	}
	return res
}

// connectRun: what the function that starts the receiver applies.
func connectRun(w *World, r *Result, root *ssa.Function, proc string, in func(g *ssa.Function) bool, sink func(c calleeT) string, pruns map[string]*setterRun, names []string, out *findings) {
	fields := map[string]bool{}
	for _, run := range pruns {
		for f := range run.some {
			fields[f] = true
		}
	}
	type exit struct {
		started bool
		calls   map[string]bool // sink|field
		zero    map[string]bool
		trace   []string
	}
	var exits []exit
	locks := map[string]map[string]bool{}
	type applyT struct {
		k, f, form string
		pos        string
	}
	forms := map[applyT]bool{}
	ex := newExplorer(w, &Rule{
		SendRuns:    true,
		Interesting: func(in ssa.Instruction) bool { return false },
		Inline:      func(g *ssa.Function) bool { return in(g) },
		NoInline:    func(g *ssa.Function) bool { return !in(g) || sink(calleeT{fn: g}) != "" },
		OnLoad: func(ex *Explorer, st *State, i *ssa.UnOp, addr, val *Term) {
			if addr.op != "&" {
				return
			}
			k := fieldKey(addr.payload.(*types.Var))
			if !fields[k] {
				return
			}
			st.setT("V|"+k, val)
			for l := range heldHere(st) {
				st.set("VL|" + k + "|" + l)
			}
		},
		OnCall: func(ex *Explorer, st *State, i ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			trackLocks(st, c, args, "VL|")
			if o, n := methodName(c); o == "rx.Receiver" && n == "Start" {
				st.set("started")
			}
			k := sink(c)
			if k == "" {
				return
			}
			for _, a := range args[min(1, len(args)):] {
				for _, f := range fieldsIn(a) {
					if !fields[f] {
						continue
					}
					st.set("C|" + k + "|" + f)
					if v := st.rs["V|"+f]; v != nil {
						forms[applyT{k, f, formOf(a, v, "\x00", 0), w.ipos(i)}] = true
					}
					held := map[string]bool{}
					for l := range st.rs {
						if strings.HasPrefix(l, "VL|"+f+"|") {
							held[l[len("VL|"+f+"|"):]] = true
						}
					}
					id := f + " " + k
					if old, ok := locks[id]; ok {
						for l := range old {
							if !held[l] {
								delete(old, l)
							}
						}
					} else {
						locks[id] = held
					}
				}
			}
		},
		OnExit: func(ex *Explorer, st *State, _ []*Term) {
			e := exit{started: st.has("started"), calls: map[string]bool{}, zero: map[string]bool{}, trace: st.traceText(16)}
			for k, t := range st.rs {
				if strings.HasPrefix(k, "C|") {
					e.calls[k[2:]] = true
				}
				if strings.HasPrefix(k, "V|") && ex.isZero(st, t) {
					e.zero[k[2:]] = true
				}
			}
			exits = append(exits, e)
		},
	})
	ex.budget = 400_000
	ex.Run(root, nil)
	if ex.over {
		r.incomplete("the exploration of " + fnKey(root) + " was given up")
		return
	}
	started := 0
	applied := map[string]bool{}
	for _, e := range exits {
		if e.started {
			started++
			for k := range e.calls {
				applied[k] = true
			}
		}
	}
	r.count("paths that start a receiver", started)
	for _, name := range names {
		run := pruns[name]
		for a := range forms {
			if !run.stores[a.f] || len(run.form[a.f]) != 1 || len(run.form[a.k]) != 1 {
				continue
			}
			kept, handed := sortedKeysB(run.form[a.f])[0], sortedKeysB(run.form[a.k])[0]
			if kept == "" || handed == "" || a.form == "" {
				continue
			}
			r.count("values compared", 1)
			if again := strings.ReplaceAll(a.form, "\x00", kept); again != handed {
				out.add("other-value", "other-value:"+proc+"."+name, a.pos, fmt.Sprintf("%s.%s applies %s, but %s applies %s when the connection is made again (P is the setting)", proc, name, handed, fnKey(root), again))
			}
		}
		sinks := map[string]bool{}
		for k := range run.any {
			sinks[k] = true
		}
		for k := range applied {
			p := strings.SplitN(k, "|", 2)
			if run.some[p[1]] {
				sinks[p[0]] = true
			}
		}
		if len(sinks) == 0 {
			if len(run.some) > 0 {
				continue // does not concern the receiver
			}
			continue
		}
		for _, k := range sortedKeysB(sinks) {
			zeroGuard := false
			for _, e := range exits {
				if !e.started {
					continue
				}
				ok := false
				for f := range run.some {
					if e.calls[k+"|"+f] {
						ok = true
					} else if e.zero[f] && applied[k+"|"+f] {
						ok = true
						zeroGuard = true
					}
				}
				if !ok {
					out.add("not-reapplied", "not-reapplied:"+fnKey(root)+":"+proc+"."+name, w.pos(root.Pos()), fmt.Sprintf("%s starts the receiver without applying what %s.%s has set (%s)", fnKey(root), proc, name, k), e.trace...)
					break
				}
			}
			if !run.calls[k] {
				why := "does not apply the setting on every path"
				if !run.any[k] {
					why = "does not apply the setting to the receiver"
				}
				out.add("not-applied", "not-applied:"+proc+"."+name+":"+k, w.pos(root.Pos()), fmt.Sprintf("%s.%s %s with %s: a change during a connection is lost", proc, name, why, k), run.miss[k]...)
			} else if zeroGuard && run.guard[k+"|not connected"] {
				out.add("zero-lost", "zero-lost:"+proc+"."+name, w.pos(root.Pos()), fmt.Sprintf("%s.%s does not apply the setting while there is no connection, and %s does not apply it when it is zero: a zero that is set before the connection is lost", proc, name, fnKey(root)))
			}
			for f := range run.stores {
				a, b := run.locks[f+" "+k], locks[f+" "+k]
				if a == nil || b == nil {
					continue
				}
				common := false
				for l := range a {
					common = common || b[l]
				}
				if !common {
					out.add("not-atomic", "not-atomic:"+proc+"."+name, w.pos(root.Pos()), fmt.Sprintf("storing and applying in %s.%s and loading and applying in %s are not one critical section of the same lock: an older value can be applied last", proc, name, fnKey(root)), "setter: "+strings.Join(sortedKeysB(a), ", "), "connect: "+strings.Join(sortedKeysB(b), ", "))
				}
			}
		}
	}
}
