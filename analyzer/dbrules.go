package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

func dbPkg(path string) bool {
	return strings.Contains(path, "hamradio/dxcc") || strings.Contains(path, "hamradio/scp")
}

// isDBType: a (pointer to a) type of a database package.
func isDBType(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && dbPkg(n.Obj().Pkg().Path()) && isPtr(t)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func checkC22(w *World, r *Result) {
	r.rule("a lookup is only made on a database that is known to be there: its place is compared with nil on every way to the lookup")
	r.rule("what is stored for a database that could not be loaded is nil, not an interface that holds a nil pointer or a result that comes with an error")
	r.rule("a database that cannot be located, downloaded or loaded never ends the program")
	r.rule("without the databases callsigns are still reported")
	r.assume("the functions of the database packages return a database if they return no error")
	var out findings

	// the interfaces behind which a database is used
	ifaces := map[string]bool{}
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && isDBType(mi.X.Type()) {
					if n := namedOf(mi.Type()); n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
						ifaces[typeStr(mi.Type())] = true
					}
				}
			}
		}
	}
	isLookup := func(in ssa.Instruction) (ssa.Value, bool) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil, false
		}
		cc := c.Common()
		if cc.IsInvoke() {
			return cc.Value, ifaces[typeStr(cc.Value.Type())]
		}
		if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 {
			if isDBType(cc.Args[0].Type()) {
				return cc.Args[0], true
			}
			// a value receiver is loaded from the pointer
			if u, ok := cc.Args[0].(*ssa.UnOp); ok && isDBType(u.X.Type()) {
				return u.X, true
			}
		}
		return nil, false
	}
	hasDB := func(t types.Type) bool { return isDBType(t) || ifaces[typeStr(t)] }

	// lookups
	sites := w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		_, ok := isLookup(in)
		return ok && w.inRepo(f)
	})
	for _, f := range sites {
		var prev []*Finding
		gaveUp := false
		fs := w.climb(f, func(root *ssa.Function) []*Finding {
			if gaveUp {
				return prev
			}
			var local findings
			var ex *Explorer
			ex = newExplorer(w, &Rule{
				Interesting: func(in ssa.Instruction) bool { _, ok := isLookup(in); return ok },
				OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
					if v, ok := isLookup(in); ok {
						r.count("lookups (on some way)", 1)
						t := ex.val(st, v)
						if t.op == "iface" && len(t.args) == 1 {
							t = t.args[0]
						}
						switch d := ex.decide(st, ex.eq(t, ex.ts.Nil)); {
						case d == 0 || loadedOK(ex, st, t):
						case fnKey(in.Parent()) != fnKey(f):
						default:
							what := "that may not be there"
							if d == 1 {
								what = "that is not there"
							}
							local.add("unguarded-lookup", "unguarded-lookup:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s makes a lookup on a database %s", fnKey(f), what), st.traceText(8)...)
						}
						return
					}
					if ia, ok := in.(*ssa.IndexAddr); ok {
						x := ex.val(st, ia.X)
						if !st.has("result:" + x.String()) {
							return
						}
						i := ex.val(st, ia.Index)
						if ex.decide(st, ex.binop(token.LSS, i, ex.ts.App("len", nil, types.Typ[types.Int], x), types.Typ[types.Bool], types.Typ[types.Int])) != 1 {
							local.add("unchecked-result", "unchecked-result:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s uses an element of the result of a lookup that may have none", fnKey(f)), st.traceText(8)...)
						}
					}
				},
				OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
					if _, ok := isLookup(in); !ok || res == nil {
						return
					}
					for _, t := range append([]*Term{res}, res.args...) {
						if t.typ == nil {
							continue
						}
						if _, ok := t.typ.Underlying().(*types.Slice); ok {
							st.setT("result:"+t.String(), t)
						}
					}
				},
				OnPanic: func(ex *Explorer, st *State, in ssa.Instruction, what string) {
					if in.Parent() == f {
						local.add("fatal", "fatal:"+fnKey(f), w.ipos(in), fmt.Sprintf("%s ends the program after a lookup (%s)", fnKey(f), what), st.traceText(8)...)
					}
				},
			})
			ex.budget = 300000
			ex.Run(root, nil)
			if ex.over { // a guard that far away is not looked for
				gaveUp = true
				r.assume("guards of the lookups in " + fnKey(f) + " beyond its callers are not looked for")
				return prev
			}
			for _, x := range local.list {
				if x.Rule != "unguarded-lookup" {
					gaveUp = true
				}
			}
			prev = local.list
			return prev
		})
		r.count("functions with lookups", 1)
		for _, x := range fs {
			out.list = append(out.list, x)
		}
	}

	// loading
	dbCall := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		g := c.Call.StaticCallee()
		if g == nil || g.Signature.Recv() != nil || g.Pkg == nil || !dbPkg(g.Pkg.Pkg.Path()) {
			return nil
		}
		if res := g.Signature.Results(); res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			return nil
		}
		return c
	}
	var loaders []*ssa.Function
	for _, f := range w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool { return w.inRepo(f) && dbCall(in) != nil }) {
		// up to the function that keeps or hands over the database
		seen := map[*ssa.Function]bool{}
		var up func(g *ssa.Function, d int)
		up = func(g *ssa.Function, d int) {
			if seen[g] || d > 4 {
				return
			}
			seen[g] = true
			loaders = append(loaders, g)
			for _, c := range w.callers().sync[g] {
				res := g.Signature.Results()
				use := false
				for i := 0; i < res.Len(); i++ {
					use = use || hasDB(res.At(i).Type()) || isErrorType(res.At(i).Type()) || typeStr(res.At(i).Type()) == "string"
				}
				if use {
					up(c, d+1)
				}
			}
		}
		up(f, 0)
	}
	for _, root := range uniqFns(loaders) {
		name := fnKey(root)
		if w.isEntry(root) && strings.HasPrefix(name, "cmd.") {
			continue
		}
		r.count("functions that load databases", 1)
		var ex *Explorer
		check := func(st *State, t *Term, in ssa.Instruction, how string) {
			if t.op == "iface" && len(t.args) == 1 {
				t = t.args[0]
				if !hasDB(typOf(t)) && t.op != "nil" {
					return
				}
				if t.op == "nil" || ex.decide(st, ex.eq(t, ex.ts.Nil)) == 1 {
					out.add("typed-nil", "typed-nil:"+name, w.ipos(in), fmt.Sprintf("%s %s an interface that holds a nil pointer: it is not nil, but there is no database", name, how), st.traceText(8)...)
					return
				}
			}
			if e := st.rs["errof:"+t.String()]; e != nil {
				switch ex.decide(st, ex.eq(e, ex.ts.Nil)) {
				case 0:
					out.add("failed-database", "failed-database:"+name, w.ipos(in), fmt.Sprintf("%s %s a database that could not be loaded", name, how), st.traceText(8)...)
				case -1:
					out.add("failed-database", "failed-database:"+name, w.ipos(in), fmt.Sprintf("%s %s a database without checking that it could be loaded", name, how), st.traceText(8)...)
				}
			}
		}
		ex = newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool { return dbCall(in) != nil },
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
				dc := dbCall(in)
				if dc == nil || res == nil || res.op != "tuple" || len(res.args) < 2 {
					return
				}
				r.count("loading steps (on some way)", 1)
				e := res.args[len(res.args)-1]
				if isDBType(dc.Call.Signature().Results().At(0).Type()) {
					st.setT("errof:"+res.args[0].String(), e)
				}
				st.setT("err:"+w.ipos(in), e)
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && hasDB(s.Val.Type()) {
					if _, isField := s.Addr.(*ssa.FieldAddr); isField {
						check(st, ex.val(st, s.Val), in, "keeps")
					}
				}
			},
			OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
				if fr.fn != root {
					return
				}
				last := root.Blocks[0].Instrs[0]
				for i, t := range res {
					if i < root.Signature.Results().Len() && hasDB(root.Signature.Results().At(i).Type()) {
						// together with an error it is the caller who decides
						if n := len(res); n > 1 && isErrorType(root.Signature.Results().At(n-1).Type()) && i < n-1 {
							if e := st.rs["errof:"+t.String()]; e != nil && (res[n-1] == e || ex.decide(st, ex.eq(res[n-1], ex.ts.Nil)) == 0) {
								continue
							}
							if ex.decide(st, ex.eq(res[n-1], ex.ts.Nil)) == 0 {
								continue
							}
						}
						check(st, t, last, "returns")
					}
				}
			},
			OnPanic: func(ex *Explorer, st *State, in ssa.Instruction, what string) {
				for k, e := range st.rs {
					if strings.HasPrefix(k, "err:") && ex.decide(st, ex.eq(e, ex.ts.Nil)) != 1 {
						out.add("fatal", "fatal:"+name, w.ipos(in), fmt.Sprintf("%s ends the program (%s) when a database is not available", name, what), st.traceText(8)...)
						return
					}
				}
			},
		})
		ex.Run(root, nil)
		if ex.over {
			r.incomplete("too many ways through " + name)
		}
	}

	// without databases
	isReport := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "CallsignDecoded" && len(c.Common().Args) == 3
	}
	for _, f := range w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool { return fnPkgIs(w, f, "rx") && isReport(in) }) {
		reached, looked := false, false
		var ex *Explorer
		ex = newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool {
				if v, ok := in.(ssa.Value); ok && hasDB(v.Type()) {
					return true
				}
				_, ok := isLookup(in)
				return ok || isReport(in)
			},
			OnLoad: func(ex *Explorer, st *State, in *ssa.UnOp, addr, val *Term) {
				if hasDB(in.Type()) {
					looked = true
					if !ex.assume(st, ex.eq(val, ex.ts.Nil), true) {
						st.dead = true
					}
				}
			},
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				if isReport(in) {
					reached = true
				}
			},
		})
		ex.Run(f, nil)
		if looked {
			r.count("reports without databases", 1)
			if !reached {
				out.add("nothing-reported", "nothing-reported:"+fnKey(f), w.pos(f.Pos()), fmt.Sprintf("%s reports no callsign when there is no database", fnKey(f)))
			}
		}
	}
	r.addAll(out.list)
}

func typOf(t *Term) types.Type {
	if t.typ != nil {
		return t.typ
	}
	return types.Typ[types.Invalid]
}

// loadedOK: the value came together with an error that is nil.
func loadedOK(ex *Explorer, st *State, t *Term) bool {
	e := st.rs["errof:"+t.String()]
	return e != nil && ex.decide(st, ex.eq(e, ex.ts.Nil)) == 1
}
