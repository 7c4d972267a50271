package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

// query: a function that returns what an operation, executed by a worker, left in a variable or sent on a channel.
type query struct {
	fn    *ssa.Function
	cells map[*ssa.Alloc]bool
	chans map[*ssa.MakeChan]bool
	ops   map[*ssa.Function]bool // the operations
}

// origins of a value inside one function: allocs it is loaded from, channels it is received from.
func originsOf(v ssa.Value, cells map[*ssa.Alloc]bool, recv map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if a, ok := v.X.(*ssa.Alloc); ok {
				cells[a] = true
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						originsOf(s.Val, cells, recv, seen)
					}
				}
			}
		case token.ARROW:
			recv[v.X] = true
		default:
			originsOf(v.X, cells, recv, seen)
		}
	case *ssa.Convert:
		originsOf(v.X, cells, recv, seen)
	case *ssa.MultiConvert:
		originsOf(v.X, cells, recv, seen)
	case *ssa.ChangeType:
		originsOf(v.X, cells, recv, seen)
	case *ssa.BinOp:
		originsOf(v.X, cells, recv, seen)
		originsOf(v.Y, cells, recv, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			originsOf(e, cells, recv, seen)
		}
	case *ssa.Extract:
		originsOf(v.Tuple, cells, recv, seen)
	case *ssa.Select:
		for _, s := range v.States {
			if s.Dir == types.RecvOnly {
				recv[s.Chan] = true
			}
		}
	case *ssa.Call:
		for _, a := range v.Call.Args {
			originsOf(a, cells, recv, seen)
		}
	}
}

// captures: closures made in f (and nested ones) with the value they bind to their free variables.
func closuresBinding(f *ssa.Function, v ssa.Value) []*ssa.FreeVar {
	var res []*ssa.FreeVar
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			for i, x := range mc.Bindings {
				if x == v {
					res = append(res, g.FreeVars[i])
					res = append(res, closuresBinding(g, g.FreeVars[i])...)
				}
			}
		}
	}
	return res
}

func (w *World) queries() []*query {
	var res []*query
	for _, f := range w.funcs {
		if f.Signature.Results().Len() == 0 || f.Blocks == nil {
			continue
		}
		cells, recv := map[*ssa.Alloc]bool{}, map[ssa.Value]bool{}
		seen := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range r.Results {
					originsOf(v, cells, recv, seen)
				}
			}
		}
		q := &query{fn: f, cells: map[*ssa.Alloc]bool{}, chans: map[*ssa.MakeChan]bool{}, ops: map[*ssa.Function]bool{}}
		for a := range cells {
			for _, fv := range closuresBinding(f, a) {
				for _, r := range *fv.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
						if w.calledAtOnce(fv.Parent()) {
							continue
						}
						q.cells[a] = true
						q.ops[fv.Parent()] = true
					}
				}
			}
		}
		for c := range recv {
			for _, k := range w.pts.ChansOf(c) {
				if k.Parent() != f {
					continue
				}
				// sent by a closure of f
				for _, g := range anonWithin(f) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Send); ok {
								for _, kk := range w.pts.ChansOf(s.Chan) {
									if kk == k {
										q.chans[k] = true
										q.ops[g] = true
									}
								}
							}
						}
					}
				}
			}
		}
		if len(q.cells)+len(q.chans) > 0 {
			res = append(res, q)
		}
	}
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i].fn) < fnKey(res[j].fn) })
	return res
}

// calledAtOnce: the closure is only called, by its maker or by functions that it is given to, and nowhere kept: it has run
// when the call returns.
func (w *World) calledAtOnce(g *ssa.Function) bool {
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType:
				if !only(r) {
					return false
				}
			case *ssa.Call:
				callee := r.Call.StaticCallee()
				for i, a := range r.Call.Args {
					if a != v {
						continue
					}
					if callee == nil || i >= len(callee.Params) {
						return false
					}
					if callee.Blocks == nil {
						if syncCallback(callee.String()) == nil {
							return false
						}
						continue
					}
					if !only(callee.Params[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	found := false
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
				found = true
				if !only(mc) {
					return false
				}
			}
		}
	}
	return found
}

// answersAfter: every close of or send on the channels captured by an operation happens after the operation did its work.
func (w *World) answersAfter(op *ssa.Function, inner map[*ssa.Function]bool) (bool, string) {
	ok, why := true, ""
	rule := &Rule{
		NoNumbers: true,
		Interesting: func(in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.Send:
				return true
			case ssa.CallInstruction:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					return true
				}
			}
			return false
		},
		NoInline: func(f *ssa.Function) bool { return f.Parent() != nil && f != op },
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			if s, isSt := in.(*ssa.Store); isSt {
				if _, isFV := s.Addr.(*ssa.FreeVar); isFV {
					st.set("ran")
				}
			}
			if _, isSend := in.(*ssa.Send); isSend && !st.has("ran") && !inner[in.Parent()] {
				ok, why = false, w.ipos(in)
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			if c.name == "builtin.close" && !st.has("ran") {
				ok, why = false, w.ipos(in)
			}
			dynamic := false
			if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
				_, isBuiltin := ci.Common().Value.(*ssa.Builtin)
				dynamic = !isBuiltin
			}
			if dynamic || c.fn != nil && inner[c.fn] {
				st.set("ran")
			}
		},
	}
	ex := newExplorer(w, rule)
	ex.budget = 50_000
	ex.Run(op, nil)
	return ok, why
}

func checkC07(w *World, r *Result) {
	r.rule("A function that returns what an operation leaves for it (in a captured variable or on a channel) returns, on every path on which the operation was handed to the worker, only after the operation answered or the worker announced its end; and the operation answers only after it has done its work.")
	r.rule("A getter X that asks the worker reads a field that the setter SetX of the same component writes.")
	c := conc(w, r)
	var f findings
	qs := w.queries()
	r.count("queries", len(qs))
	answer := map[string]bool{}
	for _, q := range qs {
		r.sample(fmt.Sprintf("%s (operations: %d)", fnKey(q.fn), len(q.ops)))
		q := q
		isOp := func(t *Term) bool { return opWithin(t, q, nil, 0) }
		ended := func(v ssa.Value) bool {
			ks := c.classes(v)
			for _, k := range ks {
				if c.exitOf[k] == nil {
					return false
				}
			}
			return len(ks) > 0
		}
		onRecv := func(ex *Explorer, st *State, ch ssa.Value, in ssa.Instruction) {
			t := ex.val(st, ch)
			for i := 0; i < 4; i++ {
				if x, ok := st.rs[fmt.Sprintf("ans:%d", i)]; ok && x == t {
					st.set("ok")
				}
			}
			for _, k := range c.classes(ch) {
				if q.chans[k] {
					st.set("ok")
				}
			}
			if ended(ch) {
				st.set("ok")
			}
		}
		sent := func(ex *Explorer, st *State, v ssa.Value, in ssa.Instruction) {
			t := ex.val(st, v)
			if !isOp(t) {
				return
			}
			st.unset("ok")
			for i := 0; i < 4; i++ {
				st.unset(fmt.Sprintf("ans:%d", i))
			}
			n := 0
			var chans func(t *Term, d int)
			chans = func(t *Term, d int) {
				if t == nil || d > 5 {
					return
				}
				switch t.op {
				case "closure":
					for _, b := range t.args {
						chans(b, d+1)
					}
				case "alloc":
					if v := st.mem[t]; v != nil {
						chans(v, d+1)
					}
				case "make":
					if t.typ != nil && isChanType(t.typ) && n < 4 {
						// only if the operation answers after its work
						mc, _ := opFn(ex.val(st, v))
						key := ""
						if mc != nil {
							key = mc.String()
							if _, done := answer[key]; !done {
								ok, why := w.answersAfter(mc, q.ops)
								answer[key] = ok
								if !ok {
									f.add("early", fnKey(mc), why, "the operation answers before it has done its work, so the caller may return a value that was never set")
								}
							}
						}
						st.setT(fmt.Sprintf("ans:%d", n), t)
						n++
					}
				}
			}
			chans(t, 0)
		}
		rule := &Rule{
			NoNumbers: true,
			Volatile:  func(v *types.Var) bool { return !isChanType(v.Type()) },
			Interesting: func(in ssa.Instruction) bool {
				switch in := in.(type) {
				case *ssa.Send, *ssa.Select:
					return true
				case *ssa.UnOp:
					return in.Op == token.ARROW
				}
				return false
			},
			Inline: func(g *ssa.Function) bool { return q.ops[g] },
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						onRecv(ex, st, in.X, in)
					}
				case *ssa.Send:
					sent(ex, st, in.X, in)
				case *ssa.Store:
					if _, isFV := in.Addr.(*ssa.FreeVar); isFV && q.ops[in.Parent()] {
						st.set("ok")
					}
				}
			},
			OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
				if idx < 0 {
					return
				}
				if s := sel.States[idx]; s.Dir == types.SendOnly {
					sent(ex, st, s.Send, sel)
				} else {
					onRecv(ex, st, s.Chan, sel)
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				if !st.has("ok") {
					f.add("unanswered", fnKey(q.fn), w.pos(q.fn.Pos()), "the function returns a value that the worker has not set yet: nothing on this path waits for the answer of the operation or the end of the worker", st.traceText(12)...)
				}
			},
		}
		ex := newExplorer(w, rule)
		ex.budget = 200_000
		ex.Run(q.fn, nil)
		if ex.over {
			r.incomplete("exploration of " + fnKey(q.fn) + " exceeded its budget")
		}
		r.count("explored states", ex.states)
	}
	// getters read what setters write
	pairs := 0
	for _, q := range qs {
		g := q.fn
		if g.Signature.Recv() == nil || !token.IsExported(g.Name()) {
			continue
		}
		recv := typeKey(deref(g.Signature.Recv().Type()))
		for _, s := range w.funcs {
			if s.Name() != "Set"+g.Name() || s.Signature.Recv() == nil || typeKey(deref(s.Signature.Recv().Type())) != recv || fnKey(s) == fnKey(g) || s.Parent() != nil {
				continue
			}
			written := w.writtenFrom(s)
			read := map[*types.Var]bool{}
			for op := range q.ops {
				for _, b := range op.Blocks {
					for _, in := range b.Instrs {
						switch in := in.(type) {
						case *ssa.Store:
							if _, isFV := in.Addr.(*ssa.FreeVar); isFV {
								w.readOrigins(in.Val, read, map[ssa.Value]bool{}, 0)
							}
						case *ssa.Send:
							w.readOrigins(in.X, read, map[ssa.Value]bool{}, 0)
						}
					}
				}
			}
			if len(read) == 0 || len(written) == 0 {
				continue
			}
			pairs++
			common := false
			var rn, wn []string
			for v := range read {
				rn = append(rn, fieldKey(v))
				if written[v] {
					common = true
				}
			}
			for v := range written {
				wn = append(wn, fieldKey(v))
			}
			sort.Strings(rn)
			sort.Strings(wn)
			if !common {
				f.add("other-field", fnKey(g), w.pos(g.Pos()), fmt.Sprintf("the getter returns %s, but its setter writes %s", strings.Join(rn, ", "), strings.Join(wn, ", ")))
			}
			break
		}
	}
	r.count("getter/setter pairs", pairs)
	// a query never hangs: the hand-off and the wait for the answer have a way out (rules of C02)
	scope := map[*ssa.Function]bool{}
	for _, q := range qs {
		for g := range w.reachableFrom([]*ssa.Function{q.fn}, false, nil) {
			scope[g] = true
		}
		for g := range q.ops {
			scope[g] = true
		}
	}
	r.rule("The hand-off of a query and its wait for the answer have a way out when the worker ends (wait-for analysis).")
	importFindings(w, "C02", &f, func(fn string) bool {
		for g := range scope {
			if fnKey(g) == fn {
				return true
			}
		}
		return false
	})
	r.rule("A worker that takes an operation from its queue executes it before it waits again or ends.")
	w.executedOps(r, &f)
	r.addAll(f.list)
}

// executedOps: operations taken from a queue are executed.
func (w *World) executedOps(r *Result, f *findings) {
	isOpChan := func(v ssa.Value) bool {
		c, ok := v.Type().Underlying().(*types.Chan)
		if !ok {
			return false
		}
		_, ok = c.Elem().Underlying().(*types.Signature)
		return ok
	}
	for _, fn := range w.funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.ARROW && isOpChan(in.X) {
						n++
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && isOpChan(s.Chan) {
							n++
						}
					}
				}
			}
		}
		if n == 0 {
			continue
		}
		r.count("operation queues read", n)
		fn := fn
		taken := func(st *State, t *Term, pos string) {
			if t != nil && t.op == "sym" {
				st.setT("op", t)
			}
		}
		drop := func(ex *Explorer, st *State, where string) {
			if st.has("op") {
				f.add("dropped", fnKey(fn), where, "the worker does not execute an operation it has taken from its queue, so a query that waits for its answer hangs", st.traceText(12)...)
			}
		}
		call := func(ex *Explorer, st *State, in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !st.has("op") {
				return
			}
			com := ci.Common()
			if !com.IsInvoke() && ex.val(st, com.Value) == st.rs["op"] {
				st.unset("op")
			}
			for _, a := range com.Args {
				if ex.val(st, a) == st.rs["op"] {
					st.unset("op") // executed by somebody else
				}
			}
		}
		ex := newExplorer(w, &Rule{
			NoNumbers:   true,
			Volatile:    func(v *types.Var) bool { return true },
			Interesting: func(in ssa.Instruction) bool { return false },
			NoInline:    func(g *ssa.Function) bool { return true },
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if isWait(in) {
					drop(ex, st, w.ipos(in))
				}
				switch x := in.(type) {
				case *ssa.Store:
					if st.has("op") && ex.val(st, x.Val) == st.rs["op"] && deref(x.Addr.Type()) != nil {
						if _, local := x.Addr.(*ssa.Alloc); !local {
							st.unset("op") // kept for later
						}
					}
				}
				call(ex, st, in)
			},
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {},
			OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
				drop(ex, st, w.ipos(sel))
				st.unset("op")
				if idx < 0 || sel.States[idx].Dir != types.RecvOnly || !isOpChan(sel.States[idx].Chan) {
					return
				}
				k := 2
				for i := 0; i < idx; i++ {
					if sel.States[i].Dir == types.RecvOnly {
						k++
					}
				}
				if t := ex.val(st, sel); t.op == "tuple" && k < len(t.args) {
					taken(st, t.args[k], w.ipos(sel))
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) { drop(ex, st, w.pos(fn.Pos())) },
			OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
				for _, t := range res {
					if t == st.rs["op"] {
						st.unset("op")
					}
				}
			},
		})
		ex.budget = 100_000
		ex.Run(fn, nil)
		if ex.over {
			r.incomplete("exploration of " + fnKey(fn) + " exceeded its budget")
		}
	}
}

func opFn(t *Term) (*ssa.Function, bool) {
	if t == nil || t.op != "closure" {
		return nil, false
	}
	mc, ok := t.payload.(*ssa.MakeClosure)
	if !ok {
		return nil, false
	}
	return mc.Fn.(*ssa.Function), true
}

// opWithin: the function value is (or wraps) an operation of the query.
func opWithin(t *Term, q *query, st *State, depth int) bool {
	return t != nil && t.op == "closure"
}

// writtenFrom: the fields that a function, its closures and the functions of the repository it calls write.
func (w *World) writtenFrom(s *ssa.Function) map[*types.Var]bool {
	res := map[*types.Var]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 4 || !w.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						res[fieldVar(fa.X.Type(), fa.Field)] = true
					}
				case *ssa.MakeClosure:
					walk(in.Fn.(*ssa.Function), d+1)
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil {
						walk(c, d+1)
					}
				}
			}
		}
	}
	walk(s, 0)
	return res
}

// readOrigins: the fields a value is computed from.
func (w *World) readOrigins(v ssa.Value, res map[*types.Var]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] || d > 8 {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			res[fieldVar(fa.X.Type(), fa.Field)] = true
			return
		}
		w.readOrigins(v.X, res, seen, d)
	case *ssa.Convert:
		w.readOrigins(v.X, res, seen, d)
	case *ssa.MultiConvert:
		w.readOrigins(v.X, res, seen, d)
	case *ssa.ChangeType:
		w.readOrigins(v.X, res, seen, d)
	case *ssa.BinOp:
		w.readOrigins(v.X, res, seen, d)
		w.readOrigins(v.Y, res, seen, d)
	case *ssa.Phi:
		for _, e := range v.Edges {
			w.readOrigins(e, res, seen, d)
		}
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil && w.inRepo(c) {
			for _, b := range c.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range r.Results {
						w.readOrigins(x, res, seen, d+1)
					}
				}
			}
			return
		}
		for _, a := range v.Call.Args {
			w.readOrigins(a, res, seen, d)
		}
	}
}

func anonWithin(f *ssa.Function) []*ssa.Function {
	var res []*ssa.Function
	for _, g := range f.AnonFuncs {
		res = append(res, g)
		res = append(res, anonWithin(g)...)
	}
	return res
}

// importFindings adds the findings of another analysis that lie in the functions selected by pred.
func importFindings(w *World, prop string, f *findings, pred func(fn string) bool) {
	sub := newResult(w, prop)
	checks[prop](w, sub)
	for _, x := range sub.findings {
		i := strings.LastIndex(x.Pos, " (")
		if i < 0 || !pred(strings.TrimSuffix(x.Pos[i+2:], ")")) {
			continue
		}
		f.add(x.Rule, x.Key, x.Pos, x.Msg, x.Detail...)
	}
}
