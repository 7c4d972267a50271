package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

type poolFields struct{ listeners, ids *types.Var }

func (w *World) poolFields() (p poolFields) {
	for v, o := range fieldOwner {
		if o != "rx.ListenerPool" {
			continue
		}
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			p.ids = v
		} else if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "Listener" {
			p.listeners = v
		}
	}
	return
}

func sameVar(a, b *types.Var) bool {
	return a == b || a != nil && b != nil && fieldKey(a) == fieldKey(b)
}

func checkC13(w *World, r *Result) {
	r.rule("Balance typestate over every path of the listener pool's operations: an id taken from the free ids ends in exactly one listener that is appended to the pool and created with that id; each listener removed from the pool returns its own id exactly once; the pool is emptied only after a loop over all its listeners that returns each id exactly once.")
	r.rule("Removing one listener keeps all others: the removed slot is overwritten with the last listener unless it is the last one.")
	r.rule("The ids are created distinct, one per place in the pool, and the pool of a receiver in decode mode is created with one place.")
	pf := w.poolFields()
	if pf.listeners == nil || pf.ids == nil {
		r.assume("no listener pool with free ids recognised: nothing to decide")
		return
	}
	addrField := func(a *Term) *types.Var {
		if a.op == "&" {
			v := a.payload.(*types.Var)
			if sameVar(v, pf.listeners) {
				return pf.listeners
			}
			if sameVar(v, pf.ids) {
				return pf.ids
			}
		}
		return nil
	}
	ptrToIDs := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && types.Identical(n, pf.ids.Type())
	}
	interesting := func(in ssa.Instruction) bool {
		if s, ok := in.(*ssa.Store); ok {
			if v := storeField(in); v != nil && (sameVar(v, pf.listeners) || sameVar(v, pf.ids)) {
				return true
			}
			return ptrToIDs(s.Addr.Type())
		}
		return false
	}
	var roots []*ssa.Function
	for _, f := range w.funcs {
		k := fnKey(f)
		if strings.HasPrefix(k, "rx.(*ListenerPool).") && token.IsExported(k[strings.LastIndex(k, ".")+1:]) {
			roots = append(roots, f)
		}
	}
	roots = uniqFns(roots)
	covered := map[string]bool{}
	pending := map[*Loop]string{}
	acted := map[*Loop]bool{}
	explore := func(root *ssa.Function, out *findings) {
		ws := newWalks(w, "push")
		overListeners := func(l *Loop) bool {
			coll, _, _, _ := l.walk()
			if coll == nil {
				return false
			}
			for f := range w.srcFields(coll) {
				if sameVar(f, pf.listeners) {
					return true
				}
			}
			return false
		}
		bal := func(st *State, d int) {
			b := 0
			for i := -3; i <= 3; i++ {
				if st.has("bal" + fmtInt(i)) {
					b = i
					st.unset("bal" + fmtInt(i))
				}
			}
			b += d
			if b > 3 {
				b = 3
			}
			if b < -3 {
				b = -3
			}
			if b != 0 {
				st.set("bal" + fmtInt(b))
			}
		}
		var ex *Explorer
		ex = newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool {
				if interesting(in) {
					return true
				}
				v := storeField(in)
				return v != nil && fieldKey(v) == "rx.Listener.id"
			},
			NoInline: func(f *ssa.Function) bool {
				k := fnKey(f)
				return strings.HasPrefix(k, "rx.(*Listener).Detach") || strings.HasPrefix(k, "rx.(*Listener).Attach") || strings.HasPrefix(k, "rx.NewTextProcessor") || strings.HasPrefix(k, "cw.")
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
				if l := loopWithHeader(in.Block()); l != nil && overListeners(l) {
					if hi, body := l.headerIf(); hi == in {
						s := 1
						if taken {
							s = 0
						}
						if s != body {
							st.set("walked:" + fmtInt(st.top().fr.id) + ":" + fmtInt(l.header.Index))
						}
					}
				}
				ws.onBranch(ex, st, in, taken)
			},
			OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) { ws.onBlock(ex, st, b) },
			OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
				ws.onReturn(st, fr)
			},
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
				if c.name != "builtin.append" || res == nil || len(args) < 2 {
					return
				}
				k := "ap:" + fmtInt(res.id)
				e := st.mem[ex.ts.App("&[]", nil, args[1].typ, args[1], ex.ts.Int(0))]
				if e == nil && args[1].op == "alloc" {
					for a, v := range st.mem {
						if a.op == "&[]" && a.args[0] == args[1] {
							e = v
						}
					}
				}
				if args[1].op == "alloc" && e != nil {
					st.setT(k, e)
				} else {
					st.unset(k)
				}
			},
			StoreVal: func(ex *Explorer, st *State, in *ssa.Store, addr, val *Term) *Term {
				if addrField(addr) != nil && (val.op == "slice" || val.op == "append") {
					for k := range st.rs {
						if strings.HasPrefix(k, "ap:") {
							st.unset(k)
						}
					}
					return ex.freshNamed(st, "pool:"+addrField(addr).Name(), addr, val.typ, in)
				}
				return val
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				a := ex.val(st, s.Addr)
				v := ex.val(st, s.Val)
				if fv := storeField(in); fv != nil && fieldKey(fv) == "rx.Listener.id" && st.has("id") {
					src := v.op == "sym" && v.src != nil && v.src.op == "&[]" && v.src.args[0] == st.rs["popbase"] && v.src.args[1] == st.rs["popidx"]
					if !src && v != st.rs["popped"] && st.has("popbase") {
						out.add("foreign-id", fnKey(in.Parent()), w.ipos(in), "the listener is created with an id that is not the one taken from the free ids", st.traceText(8)...)
					}
					st.set("named")
				}
				// overwriting an element of the pool
				if a.op == "&[]" && (srcField(a.args[0]) == fieldKey(pf.listeners)) {
					if a.args[1].op == "const" && strings.HasPrefix(a.args[1].s, "-") {
						out.add("not-found", fnKey(in.Parent()), w.ipos(in), "a listener that is not in the pool is removed from it (index "+a.args[1].s+")", st.traceText(8)...)
					}
					if v.op == "sym" && v.src != nil && v.src.op == "&[]" {
						st.set("swapped")
					}
					return
				}
				switch addrField(a) {
				case nil:
				case pf.ids:
					switch {
					case v.op == "append":
						r.count("ids returned", 1)
						e := st.rs["ap:"+fmtInt(v.id)]
						if e != nil && srcField(e) != "rx.Listener.id" && !(st.has("id") && e == st.rs["popped"]) {
							out.add("foreign-id", fnKey(in.Parent())+" push", w.ipos(in), "something else than the id of the removed listener is returned to the free ids: "+trunc(e.s, 80), st.traceText(8)...)
						}
						if st.has("id") && e != nil && e == st.rs["popped"] {
							// the id just taken goes back
							st.unset("id")
							return
						}
						inWalk := false
						for k := range st.rs {
							if strings.HasPrefix(k, "W") {
								if i := strings.IndexByte(k, ':'); i > 0 && isDigits(k[i+1:]) {
									if l := ws.loopOfKey(st, k); l != nil && overListeners(l) {
										inWalk = true
										acted[l] = true
									}
								}
							}
						}
						if inWalk {
							ws.act(st, "push")
							st.set("needclear")
						} else {
							bal(st, 1)
						}
					case v.op == "slice":
						r.count("ids taken", 1)
						if st.has("id") {
							out.add("lost-id", fnKey(root), w.ipos(in), "an id is taken while the id taken before was not used", st.traceText(8)...)
						}
						st.set("id")
						x, lo, hi := v.args[0], v.args[1], v.args[2]
						var idx *Term
						if lo.op == "none" || isIntConst(lo, 0) {
							idx = hi
						} else if isIntConst(lo, 1) && hi.op == "none" {
							idx = ex.ts.Int(0)
						}
						st.unset("popped")
						st.unset("popbase")
						st.unset("popidx")
						if idx != nil {
							// the element at the removed index
							var el *Term
							for ad, val := range st.mem {
								if ad.op == "&[]" && ad.args[0] == x && ad.args[1] == idx {
									el = val
								}
							}
							st.setT("popped", el)
							st.setT("popbase", x)
							st.setT("popidx", idx)
						}
					}
				case pf.listeners:
					switch {
					case v.op == "append":
						if _, single := st.rs["ap:"+fmtInt(v.id)]; !single {
							// removal by joining two parts
							r.count("listeners removed", 1)
							bal(st, -1)
							return
						}
						r.count("listeners added", 1)
						if !st.has("id") {
							out.add("no-id", fnKey(in.Parent()), w.ipos(in), "a listener is added to the pool without taking an id from the free ids", st.traceText(8)...)
						}
						st.unset("id")
					case v.op == "nil" || v.op == "make" || v.op == "slice" && isIntConst(v.args[2], 0):
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							if _, ok := fa.X.(*ssa.Alloc); ok {
								return // construction
							}
						}
						r.count("pool emptied", 1)
						ok := false
						for k := range st.rs {
							if strings.HasPrefix(k, "walked:") {
								ok = true
								var fid, h int
								parse2(k, "walked:%d:%d", &fid, &h)
								for _, fr := range ex.frames {
									if fr.id == fid {
										for _, l := range loopsOf(fr.fn) {
											if l.header.Index == h {
												pending[l] = w.ipos(in)
											}
										}
									}
								}
							}
						}
						if !ok {
							out.add("lost-ids", fnKey(in.Parent()), w.ipos(in), "the pool is emptied without a walk over its listeners that returns their ids", st.traceText(8)...)
						}
						st.unset("needclear")
					case v.op == "slice":
						r.count("listeners removed", 1)
						bal(st, -1)
						one := st.holds(func(c *Term, b bool) bool {
							return c.op == "lt" && !b && isIntConst(c.args[0], 1) && c.args[1].op == "len" && srcField(c.args[1].args[0]) == fieldKey(pf.listeners) ||
								c.op == "eq" && b && (isIntConst(c.args[0], 1) || isIntConst(c.args[1], 1)) ||
								c.op == "lt" && b && isIntConst(c.args[1], 2) ||
								c.op == "eq" && b && v.args[2].op != "none" && (c.args[0] == v.args[2] || c.args[1] == v.args[2])
						})
						if !st.has("swapped") && !one && v.args[1].op == "none" {
							out.add("wrong-listener", fnKey(in.Parent()), w.ipos(in), "the last listener of the pool is dropped although another one is to be removed", st.traceText(8)...)
						}
						st.unset("swapped")
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				if st.has("id") {
					out.add("lost-id", fnKey(root), w.pos(root.Pos()), "there is a path on which an id is taken from the free ids but no listener gets it", st.traceText(10)...)
				}
				if st.has("needclear") {
					out.add("doubled-ids", fnKey(root), w.pos(root.Pos()), "the ids of all listeners are returned, but the listeners stay in the pool", st.traceText(10)...)
				}
				for i := -3; i <= 3; i++ {
					if st.has("bal" + fmtInt(i)) {
						what := "an id is returned to the free ids without removing its listener (or it is returned twice)"
						if i < 0 {
							what = "a listener is removed from the pool without returning its id"
						}
						out.add("unbalanced", fnKey(root)+" "+sign(i), w.pos(root.Pos()), "there is a path on which "+what, st.traceText(10)...)
					}
				}
			},
		})
		ex.budget = 1_000_000
		ex.Run(root, nil)
		for f := range ex.inlined {
			covered[fnKey(f)] = true
		}
		r.count("paths", ex.states)
		ws.problems("push", func(l *Loop, what, detail string) {
			if overListeners(l) {
				out.add("ids-"+what, fnKey(l.fn), w.loopPos(l), "not every listener's id is returned exactly once when the pool is walked ("+what+"): "+detail)
			}
		})
	}
	// the free-id type itself, used through a pointer, is covered by inlining
	for _, root := range roots {
		var out findings
		explore(root, &out)
		r.addAll(out.list)
		r.count("operations", 1)
	}
	for _, f := range uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		v := storeField(in)
		return v != nil && (sameVar(v, pf.listeners) || sameVar(v, pf.ids))
	})) {
		if covered[fnKey(f)] {
			continue
		}
		fs := w.climb(f, func(root *ssa.Function) []*Finding {
			var out findings
			explore(root, &out)
			return out.list
		})
		r.addAll(fs)
	}
	for l, pos := range pending {
		if !acted[l] {
			r.report("lost-ids", fnKey(l.fn)+" loop", pos, "the pool is emptied after a walk that does not return the ids of its listeners")
		}
	}
	w.checkPoolSetup(r, pf)
}

func sign(i int) string {
	if i < 0 {
		return "-"
	}
	return "+"
}

func (w *World) checkPoolSetup(r *Result, pf poolFields) {
	// distinct ids
	for _, f := range uniqFns(w.funcs) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				n, ok := ia.X.Type().(*types.Named)
				if !ok || !types.Identical(n, pf.ids.Type()) {
					continue
				}
				r.count("id creation sites", 1)
				var l *Loop
				for _, x := range loopsOf(f) {
					if x.blocks[b] {
						l = x
					}
				}
				if l == nil {
					continue
				}
				if _, _, k, why := l.walk(); k == walkPartial {
					r.report("ids-partial", fnKey(f), w.ipos(in), "not every place of the pool gets an id: "+why)
				}
				if dep, inj := dependsInjective(s.Val, l, map[ssa.Value]bool{}); !dep || !inj {
					r.report("ids-not-distinct", fnKey(f), w.ipos(in), "the created ids are not distinct: the value does not depend one-to-one on the position")
				}
			}
		}
	}
	// decode mode has one listener; and the free ids are as many as the places
	for _, f := range uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && fnKey(c.Call.StaticCallee()) == "rx.NewListenerPool"
	})) {
		fs := w.climb(f, func(root *ssa.Function) []*Finding {
			var out findings
			ex := newExplorer(w, &Rule{
				Interesting: func(in ssa.Instruction) bool {
					c, ok := in.(*ssa.Call)
					return ok && c.Call.StaticCallee() != nil && fnKey(c.Call.StaticCallee()) == "rx.NewListenerPool"
				},
				OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
					if c.fn == nil || fnKey(c.fn) != "rx.NewListenerPool" {
						return
					}
					r.count("pool creation paths", 1)
					decode := -1
					for f, v := range st.facts {
						if f.op == "eq" {
							for i := 0; i < 2; i++ {
								if f.args[i].op == "const" && f.args[i].s == `"decode"` {
									decode = 0
									if v {
										decode = 1
									}
								}
							}
						}
					}
					one := isIntConst(args[0], 1)
					if decode == 1 && !one {
						out.add("decode-size", fnKey(in.Parent()), w.ipos(in), "in decode mode the pool is not created with exactly one listener", st.traceText(8)...)
					}
					if decode == -1 && !one {
						out.add("decode-size", fnKey(in.Parent()), w.ipos(in), "the size of the pool does not depend on the decode mode", st.traceText(8)...)
					}
				},
			})
			ex.budget = 300_000
			ex.Run(root, nil)
			return out.list
		})
		r.addAll(fs)
	}
	if f := w.fn("rx.NewListenerPool"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || fnKey(c.Call.StaticCallee()) != "rx.NewIDPool" {
					continue
				}
				r.count("free ids created", 1)
				if _, isP := c.Call.Args[0].(*ssa.Parameter); !isP {
					r.report("id-count", fnKey(f), w.ipos(in), "the number of free ids is not the size of the pool")
				}
			}
		}
	}
}

// dependsInjective: v depends on the induction variable of the loop, and no operation on the way merges values.
func dependsInjective(v ssa.Value, l *Loop, seen map[ssa.Value]bool) (dep, inj bool) {
	if seen[v] {
		return false, true
	}
	seen[v] = true
	inj = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.header {
			return true, true
		}
	case *ssa.BinOp:
		d1, i1 := dependsInjective(x.X, l, seen)
		d2, i2 := dependsInjective(x.Y, l, seen)
		dep = d1 || d2
		inj = i1 && i2
		switch x.Op {
		case token.ADD, token.SUB, token.XOR:
		case token.MUL:
			if k, ok := constInt(x.Y); ok && k == 0 {
				inj = false
			}
		default:
			if dep {
				inj = false
			}
		}
		return
	case *ssa.Convert:
		return dependsInjective(x.X, l, seen)
	case *ssa.MakeInterface:
		return dependsInjective(x.X, l, seen)
	case *ssa.Slice:
		return dependsInjective(x.X, l, seen)
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == x {
					d, i := dependsInjective(ref.Val, l, seen)
					dep = dep || d
					inj = inj && i
				}
			case *ssa.IndexAddr:
				for _, r2 := range *ref.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ref {
						d, i := dependsInjective(s.Val, l, seen)
						dep = dep || d
						inj = inj && i
					}
				}
			}
		}
		return
	case *ssa.UnOp:
		return dependsInjective(x.X, l, seen)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			d, i := dependsInjective(a, l, seen)
			dep = dep || d
			inj = inj && i
		}
		return
	}
	return false, true
}
