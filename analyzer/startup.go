package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C38"] = checkC38 }

var stopNames = map[string]bool{"Close": true, "Stop": true, "Shutdown": true, "Disconnect": true}

// stoppable: values of this type have a method that stops them.
func stoppable(t types.Type) bool {
	if isContextType(t) || isErrorType(t) {
		return false
	}
	switch typeStr(deref(t)) {
	case "os.File", "time.Timer", "time.Ticker":
		return false
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		if _, ok := t.Underlying().(*types.Interface); !ok {
			return false
		}
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && stopNames[f.Name()] {
			return true
		}
	}
	return false
}

func isContextType(t types.Type) bool { return typeStr(t) == "context.Context" }

// startupMon explores what a command does from its start to its end.
type startupMon struct {
	w     *World
	cm    *cmdMon
	out   findings
	comps map[string]bool
	errs  map[string]bool
	stops map[string]bool
	exits int
	waits int
	pkgs  map[string]bool
}

func (m *startupMon) own(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg == nil && f.Parent() != nil {
		return m.own(f.Parent())
	}
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
		return false
	}
	return m.pkgs[m.w.fnPkg(f)]
}

func (w *World) fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

func symID(t *Term) string {
	if t.op == "iface" && len(t.args) > 0 {
		return symID(t.args[0])
	}
	return t.s
}

func mentionsTerm(t, x *Term, d int) bool {
	if t == nil || d > 8 {
		return false
	}
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentionsTerm(a, x, d+1) {
			return true
		}
	}
	return false
}

func bareTerm(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func shortCallee(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		p := ""
		if strings.HasPrefix(n, "(*") {
			p = "(*"
		}
		return p + n[i+1:]
	}
	return n
}

// exemptError: errors of these do not keep a command from working.
func exemptError(name string) bool {
	for _, p := range []string{"fmt.", "log.", "(*log.", "(*os.File).", "io.", "(*github.com/spf13/pflag.", "(*github.com/spf13/cobra.Command).MarkFlag", "(*bufio.", "(*strings.", "(*bytes."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	// What a context says is that it has ended, not that something failed.
	if strings.Contains(name, "context.Context.") || strings.Contains(name, "context.Context).") || strings.HasPrefix(name, "context.") {
		return true
	}
	i := strings.LastIndexByte(name, '.')
	return stopNames[name[i+1:]]
}

func (m *startupMon) explore(r *Result, root *ssa.Function) {
	w := m.w
	var ex *Explorer
	pend := func(st *State, prefix string) []string {
		var ks []string
		for k := range st.rs {
			if strings.HasPrefix(k, prefix) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return ks
	}
	// key: <what>|<site>
	site := func(k string) string { return k[strings.IndexByte(k, '|')+1:] }
	checkErrs := func(st *State, pos, doing string, exit bool, res []*Term) {
		for _, k := range pend(st, "E|") {
			t := st.rs[k]
			nilness := ex.decide(st, ex.eq(t, ex.ts.Nil))
			if nilness == 1 {
				continue
			}
			if exit {
				returned := false
				for _, x := range res {
					if bareTerm(x) == bareTerm(t) || isErr(x) && ex.decide(st, ex.eq(x, ex.ts.Nil)) == 0 {
						returned = true
					}
				}
				if returned {
					continue
				}
			}
			what := site(k)
			if nilness == 0 {
				m.out.add("error-ignored", "error-ignored:"+what, pos, fmt.Sprintf("%s although %s has failed", doing, what), st.traceText(12)...)
			} else {
				m.out.add("error-ignored", "error-ignored:"+what, pos, fmt.Sprintf("%s without a check of the error of %s", doing, what), st.traceText(12)...)
			}
		}
	}
	onWait := func(st *State, pos string) {
		m.waits++
		checkErrs(st, pos, fnKey(root)+" waits for its end", false, nil)
		if !st.has("W") {
			if !st.has("notify") {
				m.out.add("no-signal", "no-signal:"+fnKey(root), pos, "the command waits for its end before it is told about interrupts", st.traceText(12)...)
			} else if !st.has("handler") {
				m.out.add("no-signal", "no-signal:"+fnKey(root), pos, "the command waits for its end, but nothing ends the wait when it is interrupted", st.traceText(12)...)
			}
		}
		st.set("W")
	}
	checkStopped := func(st *State, pos string) {
		for _, k := range pend(st, "C|") {
			t := st.rs[k]
			if ex.decide(st, ex.eq(t, ex.ts.Nil)) == 1 || m.vague(bareTerm(t)) {
				continue
			}
			m.out.add("not-stopped", "not-stopped:"+site(k), pos, fmt.Sprintf("%s ends without stopping what %s has started", fnKey(root), site(k)), st.traceText(14)...)
		}
	}
	// uses: component a is used by b
	stop := func(st *State, t *Term, pos string) {
		t = bareTerm(t)
		for _, k := range pend(st, "C|") {
			if bareTerm(st.rs[k]) != t {
				continue
			}
			for _, u := range pend(st, "U|") {
				parts := strings.SplitN(u[2:], " uses ", 2)
				if len(parts) == 2 && "C|"+parts[1] == k && st.has("C|"+parts[0]) {
					if m.vague(bareTerm(st.rs["C|"+parts[0]])) {
						continue
					}
					if st.has("E|"+parts[0]) && ex.decide(st, ex.eq(st.rs["E|"+parts[0]], ex.ts.Nil)) == 0 {
						continue // was not made
					}
					m.out.add("order", "order:"+parts[0]+":"+parts[1], pos, fmt.Sprintf("what %s has started is stopped while what %s has started still uses it", parts[1], parts[0]), st.traceText(14)...)
				}
			}
			m.stops[site(k)] = true
			st.unset(k)
			for _, u := range pend(st, "U|") {
				if strings.HasPrefix(u, "U|"+k[2:]+" uses ") {
					st.unset(u)
				}
			}
		}
	}
	// within: the components that a value holds or was made of
	within := func(st *State, t *Term) []string {
		var res []string
		for _, k := range pend(st, "C|") {
			if mentionsTerm(t, bareTerm(st.rs[k]), 0) || closureHolds(st, t, bareTerm(st.rs[k]), 0) {
				res = append(res, k[2:])
			}
		}
		for _, k := range pend(st, "D|") {
			// D|<maker>|component
			if mentionsTerm(t, st.rs[k], 0) {
				res = append(res, k[strings.Index(k, "||")+2:])
			}
		}
		return res
	}
	given := func(st *State, args []*Term) {
		// an existing component is given others to use
		if len(args) > 1 {
			for _, b := range within(st, args[0]) {
				if bareTerm(args[0]) != bareTerm(st.rs["C|"+b]) {
					continue
				}
				for _, a := range args[1:] {
					for _, u := range within(st, a) {
						if u != b {
							st.set("U|" + b + " uses " + u)
						}
					}
				}
			}
		}
	}
	ex = newExplorer(w, &Rule{
		Interesting: func(in ssa.Instruction) bool { return false },
		Inline:      func(g *ssa.Function) bool { return m.own(g) },
		NoInline:    func(g *ssa.Function) bool { return !m.own(g) },
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					t := ex.val(st, x.X)
					if st.has("done|") && bareTerm(st.rs["done|"]) == t {
						onWait(st, w.ipos(in))
						return
					}
					if isDone(x.X) {
						m.out.add("other-context", "other-context:"+fnKey(in.Parent()), w.ipos(in), "the command waits for the end of a context that no interrupt ends", st.traceText(12)...)
						st.set("W")
						return
					}
					if !st.has("W") && len(pend(st, "C|")) > 0 {
						m.out.add("blocks", "blocks:"+fnKey(in.Parent()), w.ipos(in), "the command waits for something else than an interrupt, which cannot end it", st.traceText(12)...)
					}
				}
			case *ssa.Select:
				if !x.Blocking || st.has("W") {
					return
				}
				ok := false
				for _, s := range x.States {
					if st.has("done|") && bareTerm(st.rs["done|"]) == ex.val(st, s.Chan) {
						ok = true
					}
				}
				if !ok && len(pend(st, "C|")) > 0 {
					m.out.add("blocks", "blocks:"+fnKey(in.Parent()), w.ipos(in), "the command waits for something else than an interrupt, which cannot end it", st.traceText(12)...)
				}
			case *ssa.Go:
				if st.has("K|") {
					k := st.rs["K|"]
					held := false
					for _, a := range x.Call.Args {
						v := ex.val(st, a)
						held = held || mentionsTerm(v, k, 0) || closureHolds(st, v, k, 0)
					}
					v := ex.val(st, x.Call.Value)
					held = held || mentionsTerm(v, k, 0) || closureHolds(st, v, k, 0)
					if held {
						st.set("handler")
					}
				}
			}
		},
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			if idx >= 0 && st.has("done|") && bareTerm(st.rs["done|"]) == ex.val(st, sel.States[idx].Chan) {
				onWait(st, w.ipos(sel))
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			if inlined || c.fn != nil && m.own(c.fn) {
				return
			}
			switch c.name {
			case "os/signal.Notify":
				st.set("notify")
				m.notify(in)
			}
			name := c.name
			if i := strings.LastIndexByte(name, '.'); i >= 0 && stopNames[strings.TrimSuffix(name[i+1:], "$bound")] && len(args) > 0 {
				stop(st, args[0], w.ipos(in))
				return
			}
			if strings.HasPrefix(name, "invoke ") && strings.HasSuffix(name, ".Done") || name == "(*context.cancelCtx).Done" {
				if len(args) > 0 && st.has("X|") && bareTerm(args[0]) == bareTerm(st.rs["X|"]) {
					st.set("ctxdone")
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if c.fn != nil && m.own(c.fn) || res == nil {
				return
			}
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			sig := call.Call.Signature()
			if st.has("ctxdone") {
				st.unset("ctxdone")
				st.setT("done|", res)
			}
			comp := func(i int) *Term {
				if res.op == "tuple" {
					if i < len(res.args) {
						return res.args[i]
					}
					return nil
				}
				return res
			}
			switch c.name {
			case "context.WithCancel", "context.WithCancelCause", "os/signal.NotifyContext":
				st.setT("X|", comp(0))
				st.setT("K|", comp(1))
				if c.name == "os/signal.NotifyContext" {
					m.notify(in)
					st.set("notify")
					st.set("handler")
				}
				return
			}
			n := sig.Results().Len()
			if n == 0 {
				given(st, args)
				return
			}
			short := shortCallee(c.name)
			if c.fn != nil && w.inRepo(c.fn) {
				short = fnKey(c.fn)
			}
			if strings.HasPrefix(short, "invoke ") {
				short = strings.TrimPrefix(short, "invoke ")
			}
			hasErr := isErrorType(sig.Results().At(n - 1).Type())
			var held []string
			for _, a := range args {
				held = append(held, within(st, a)...)
			}
			created := false
			if n <= 2 && stoppable(sig.Results().At(0).Type()) && (n == 1 || hasErr) && m.creates(call, c) {
				t := comp(0)
				ex.assume(st, ex.eq(t, ex.ts.Nil), false)
				st.setT("C|"+short, t)
				st.set("made")
				m.comps[fnKey(in.Parent())+": "+short] = true
				created = true
				for _, u := range held {
					if u != short {
						st.set("U|" + short + " uses " + u)
					}
				}
			}
			if !created {
				given(st, args)
				for i := 0; i < n; i++ {
					t := comp(i)
					if t == nil || t.op != "sym" || isErrorType(sig.Results().At(i).Type()) {
						continue
					}
					if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok {
						continue
					}
					for _, u := range held {
						st.setT("D|"+short+"||"+u, t)
					}
				}
			}
			if hasErr && !exemptError(c.name) {
				st.setT("E|"+short, comp(n-1))
				m.errs[fnKey(in.Parent())+": "+short] = true
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			m.exits++
			pos := w.pos(root.Pos())
			checkErrs(st, pos, fnKey(root)+" ends as if nothing had happened", true, res)
			failed := false
			for _, x := range res {
				if isErr(x) && ex.decide(st, ex.eq(x, ex.ts.Nil)) == 0 {
					failed = true
				}
			}
			if !failed {
				checkStopped(st, pos)
				if !st.has("W") && st.has("made") {
					m.out.add("no-wait", "no-wait:"+fnKey(root), pos, "the command ends without waiting for an interrupt", st.traceText(12)...)
				}
			}
		},
		OnPanic: func(ex *Explorer, st *State, in ssa.Instruction, what string) {
			zero := false
			if c, ok := in.(*ssa.Call); ok && what == "os.Exit" {
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
					zero = true
				}
			}
			if zero {
				checkErrs(st, w.ipos(in), "the program ends with success", false, nil)
			}
			if st.has("W") {
				checkStopped(st, w.ipos(in))
			}
		},
	})
	ex.budget = 200_000
	before := m.exits
	ex.Run(root, nil)
	if ex.over {
		r.incomplete("exploration of " + fnKey(root) + " exceeded its budget")
		return
	}
	if m.exits == before && len(m.out.list) == 0 {
		m.out.add("never-ends", "never-ends:"+fnKey(root), w.pos(root.Pos()), fnKey(root)+" does not end when it is interrupted")
	}
}

// vague: components of this type are stopped through function values, one of several.
func (m *startupMon) vague(t *Term) bool {
	if t.typ == nil {
		return false
	}
	for _, f := range m.w.funcs {
		if !m.own(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok || x.Common().IsInvoke() || x.Common().StaticCallee() != nil {
					continue
				}
				gs := m.w.pts.Callees(x)
				if len(gs) < 2 && !onLoop(b) {
					continue
				}
				for _, g := range gs {
					if n := strings.TrimSuffix(g.Name(), "$bound"); n != g.Name() && stopNames[n] && len(g.FreeVars) > 0 && types.Identical(t.typ, g.FreeVars[0].Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func onLoop(b *ssa.BasicBlock) bool {
	for _, l := range loopsOf(b.Parent()) {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func isErr(t *Term) bool { return t != nil && (t.op == "err" || t.typ != nil && isErrorType(t.typ)) }

func isDone(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" && isContextType(c.Call.Value.Type())
}

// closureHolds: the function value holds the value as receiver or in a variable it captures.
func closureHolds(st *State, t, x *Term, d int) bool {
	if t == nil || d > 6 {
		return false
	}
	if t == x {
		return true
	}
	if t.op == "alloc" {
		for a, v := range st.mem {
			if a == t && v == x {
				return true
			}
		}
	}
	for _, a := range t.args {
		if closureHolds(st, a, x, d+1) {
			return true
		}
	}
	if mc, ok := t.payload.(*ssa.MakeClosure); ok && t.op == "closure" {
		_ = mc
	}
	return false
}

// creates: the call makes a new component (and does not just hand out one that exists).
func (m *startupMon) creates(call *ssa.Call, c calleeT) bool {
	if c.fn == nil {
		return false
	}
	n := c.fn.Name()
	for _, p := range []string{"New", "Open", "Start", "Dial", "Listen", "Connect", "KeepOpen", "Run", "Make", "Create"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// notify: interrupts get to the program.
func (m *startupMon) notify(in ssa.Instruction) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	args := c.Common().Args
	if c.Common().StaticCallee() != nil && c.Common().StaticCallee().Name() == "Notify" && len(args) > 0 {
		for _, o := range m.w.pts.Objs(args[0]) {
			if mc, ok := o.instr.(*ssa.MakeChan); ok {
				if n, ok := constInt(mc.Size); ok && n == 0 {
					m.out.add("signal-lost", "signal-lost:"+fnKey(in.Parent()), m.w.ipos(mc), "an interrupt that arrives while nothing waits for it is lost: the channel for signals has no room")
				}
			}
		}
	}
	last := args[len(args)-1]
	sl, ok := last.(*ssa.Slice)
	if !ok {
		return // all signals
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	found, unknown := false, false
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			s, ok := r2.(*ssa.Store)
			if !ok {
				continue
			}
			switch v := s.Val.(type) {
			case *ssa.MakeInterface:
				if k, ok := constInt(v.X); ok {
					if k == 2 {
						found = true
					}
				} else {
					unknown = true
				}
			case *ssa.UnOp:
				if g, ok := v.X.(*ssa.Global); ok {
					if g.Name() == "Interrupt" {
						found = true
					}
				} else {
					unknown = true
				}
			default:
				unknown = true
			}
		}
	}
	if !found && !unknown {
		m.out.add("no-signal", "no-signal:"+fnKey(in.Parent()), m.w.ipos(in), "the program is not told about interrupts (SIGINT)")
	}
}

// handlers: goroutines that receive the signals cancel the context with the first one.
func (m *startupMon) handlers(r *Result) int {
	w := m.w
	sig := map[any]bool{}
	for _, f := range w.funcs {
		if !m.own(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "os/signal.Notify" {
					for _, o := range w.pts.Objs(c.Call.Args[0]) {
						sig[o] = true
					}
				}
			}
		}
	}
	isSig := func(v ssa.Value) bool {
		for _, o := range w.pts.Objs(v) {
			if sig[o] {
				return true
			}
		}
		return false
	}
	isCancel := func(v ssa.Value) bool {
		return typeStr(v.Type()) == "context.CancelFunc" || typeStr(v.Type()) == "context.CancelCauseFunc"
	}
	n := 0
	for _, f := range w.funcs {
		if !m.own(f) {
			continue
		}
		recv := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					recv = recv || x.Op == token.ARROW && isSig(x.X)
				case *ssa.Select:
					for _, s := range x.States {
						recv = recv || s.Dir == types.RecvOnly && isSig(s.Chan)
					}
				}
			}
		}
		if !recv || m.calledBySignalHandler(f, isSig) {
			continue
		}
		n++
		fn := f
		got := func(st *State, pos string) {
			if st.has("got") && !st.has("cancelled") {
				m.out.add("first-signal", "first-signal:"+fnKey(fn), pos, "an interrupt does not end the command at once", st.traceText(10)...)
			}
		}
		ex := newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool { return false },
			Inline:      func(g *ssa.Function) bool { return m.own(g) },
			NoInline:    func(g *ssa.Function) bool { return !m.own(g) },
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						got(st, w.ipos(in))
						if isSig(x.X) && !x.CommaOk {
							st.set("got")
						}
					}
				case *ssa.Select:
					got(st, w.ipos(in))
				case *ssa.Call:
					if isCancel(x.Call.Value) {
						st.set("cancelled")
					}
				case *ssa.Defer:
					if isCancel(x.Call.Value) {
						st.set("deferred")
					}
				}
			},
			OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) {
				// the first round of a loop is told apart from the others
				k := fmt.Sprintf("round%d:%d", st.top().fr.id, b.Index)
				if loopWithHeader(b) == nil || st.has(k) {
					return
				}
				st.set(k)
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, e := range phi.Edges {
						if loopWithHeader(b).blocks[b.Preds[i]] {
							continue
						}
						if c, ok := e.(*ssa.Const); ok && c.Value != nil {
							st.top().regs[phi] = ex.val(st, c)
						}
					}
				}
			},
			OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
				if idx >= 0 && isSig(sel.States[idx].Chan) {
					st.set("got")
				}
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
				// ok of a receive
				if e, ok := in.Cond.(*ssa.Extract); ok && e.Index == 1 && taken {
					if u, ok := e.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && isSig(u.X) {
						st.set("got")
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				if !st.has("deferred") {
					got(st, w.pos(fn.Pos()))
				}
			},
			OnPanic: func(ex *Explorer, st *State, in ssa.Instruction, what string) { got(st, w.ipos(in)) },
		})
		ex.budget = 100_000
		ex.Run(f, nil)
		if ex.over {
			r.incomplete("exploration of " + fnKey(f) + " exceeded its budget")
		}
	}
	return n
}

func (m *startupMon) calledBySignalHandler(f *ssa.Function, isSig func(ssa.Value) bool) bool {
	cs := m.w.callers()
	return len(cs.sync[f]) > 0 && !cs.spawn[f]
}

func checkC38(w *World, r *Result) {
	r.rule("when a command waits for its end, or ends, the error of every component it has set up is known to be nil, or the program ends with an error")
	r.rule("on every path on which a command ends after the interrupt, every component it has made has been stopped")
	r.rule("no component is stopped before a component that was made with it or was given it")
	r.rule("the command waits only for the context that the first interrupt ends; interrupts are announced before, and the goroutine that gets them cancels the context with the first one")
	cm := newCmdMon(w)
	m := &startupMon{w: w, cm: cm, comps: map[string]bool{}, errs: map[string]bool{}, stops: map[string]bool{}, pkgs: map[string]bool{}}
	called := map[*ssa.Function]bool{}
	for f := range cm.runFuncs {
		m.pkgs[w.fnPkg(f)] = true
	}
	for f := range cm.runFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.pts.Callees(c) {
						called[g] = true
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for f := range cm.runFuncs {
		if !called[f] {
			roots = append(roots, f)
		}
	}
	// the function that executes the commands
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().String(), "(*github.com/spf13/cobra.Command).Execute") {
					roots = append(roots, f)
					m.pkgs[w.fnPkg(f)] = true
				}
			}
		}
	}
	roots = uniqFns(roots)
	sort.Slice(roots, func(i, j int) bool { return fnKey(roots[i]) < fnKey(roots[j]) })
	r.need(len(roots) > 0, "commands")
	for _, f := range roots {
		m.explore(r, f)
		r.sample("%s", "command root "+fnKey(f))
	}
	h := m.handlers(r)
	r.count("command_roots", len(roots))
	r.count("components_made", len(m.comps))
	r.count("components_stopped", len(m.stops))
	r.count("errors_checked", len(m.errs))
	r.count("waits_for_the_interrupt", m.waits)
	r.count("ways_to_end", m.exits)
	r.count("signal_handlers", h)
	for _, k := range sortedKeysB(m.comps) {
		r.sample("%s", "component "+k)
	}
	for _, k := range sortedKeysB(m.errs) {
		r.sample("%s", "error of "+k)
	}
	r.addAll(m.out.list)
}

func sortedKeysB(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
