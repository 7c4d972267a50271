package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C33"] = checkC33 }

// fatalConditions of the KiwiSDR protocol: the key of the message that has the value 1.
var fatalConditions = map[string]string{
	"too_busy": "too busy",
	"badp":     "bad password",
	"down":     "down",
}

// strConsts: the text constants in the functions of a package.
func (w *World) strConsts(pkg string) map[string]bool {
	res := map[string]bool{}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					if s, ok := constStr(*o); ok {
						res[s] = true
					}
				}
			}
		}
	}
	return res
}

func errResult(t *Term, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok {
		n := tt.Len()
		if n == 0 || !isErrorType(tt.At(n-1).Type()) || t == nil || t.op != "tuple" || len(t.args) != n {
			return nil
		}
		return t.args[n-1]
	}
	if isErrorType(typ) {
		return t
	}
	return nil
}

func isConnClose(name string) bool {
	return strings.HasSuffix(name, ".Close") && (strings.Contains(name, "onn") || strings.Contains(name, "websocket"))
}

func checkC33(w *World, r *Result) {
	r.rule("when the server reports too busy, bad password or down with the value 1, the reader receives no further message")
	r.rule("after a failed read the reader reads nothing more, after a failed write the writer ends")
	r.rule("whenever the reader or the writer ends, the connection is closed and the other one is told to end")
	r.rule("an error while opening the connection is returned, without a client, and nothing is left running")
	r.rule("the walk over the parts of a status message is not left without an error because of what a part is called: a condition behind it in the same message is still seen")
	r.assume("a status that follows a malformed part of the same message is not judged")
	var out findings

	calls := func(suffix string) func(f *ssa.Function, in ssa.Instruction) bool {
		return func(f *ssa.Function, in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && fnPkgIs(w, f, "kiwi") && isSock(c, suffix)
		}
	}
	consts := w.strConsts("kiwi")
	reported := map[string]bool{} // a key was compared, and the value of it was found to be 1
	compared := map[string]bool{}
	otherValue := map[string]string{}
	unjudged := false

	entry := func(f *ssa.Function) []*ssa.Function {
		var res []*ssa.Function
		seen := map[*ssa.Function]bool{}
		var up func(f *ssa.Function, d int)
		up = func(f *ssa.Function, d int) {
			if seen[f] || d > 6 {
				return
			}
			seen[f] = true
			cs := w.callers()
			if cs.spawn[f] || len(cs.sync[f]) == 0 {
				res = append(res, f)
			}
			for _, c := range cs.sync[f] {
				up(c, d+1)
			}
		}
		up(f, 0)
		return res
	}
	var readers, writers []*ssa.Function
	for _, f := range w.fnsWhere(calls("ReadMessage")) {
		readers = append(readers, entry(f)...)
	}
	for _, f := range w.fnsWhere(calls("WriteMessage")) {
		writers = append(writers, entry(f)...)
	}
	for _, f := range w.fnsWhere(calls("NextReader")) {
		readers = append(readers, entry(f)...)
	}
	readers, writers = uniqFns(readers), uniqFns(writers)
	if len(readers) == 0 {
		r.assume("no function of the package kiwi reads messages")
	}

	// the channels the writer waits for
	waits := map[any]bool{}
	for f := range w.reachableFrom(writers, false, nil) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly {
							for _, o := range w.pts.ChansOf(s.Chan) {
								waits[o] = true
							}
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						for _, o := range w.pts.ChansOf(x.X) {
							waits[o] = true
						}
					}
				}
			}
		}
	}
	ends := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || len(c.Common().Args) != 1 {
			return true
		}
		cs := w.pts.ChansOf(c.Common().Args[0])
		for _, o := range cs {
			if waits[o] {
				return true
			}
		}
		return len(cs) == 0
	}

	for i, root := range append(append([]*ssa.Function{}, readers...), writers...) {
		isReader := i < len(readers)
		r.count("loops over messages", 1)
		name := fnKey(root)
		var ex *Explorer
		ex = newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool {
				if c, ok := in.(ssa.CallInstruction); ok {
					if isSock(c, "ReadMessage") || isSock(c, "WriteMessage") || isSock(c, "Close") || isSock(c, "NextReader") {
						return true
					}
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						return true
					}
					return calleeName(c) == "(*sync.Once).Do"
				}
				if b, ok := in.(*ssa.BinOp); ok {
					for _, v := range []ssa.Value{b.X, b.Y} {
						if s, ok := constStr(v); ok && fatalConditions[s] != "" {
							return true
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
						return true
					}
				}
				return false
			},
			Volatile: func(v *types.Var) bool { return true },
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if l, ok := in.(*ssa.Lookup); ok && st.has("reported") && mentionsErr(ex.val(st, l.Index), 0) {
					st.unset("reported")
					unjudged = true
				}
			},
			OnBranch: func(ex *Explorer, st *State, in *ssa.If, cond *Term, taken bool) {
				for cond.op == "not" {
					cond, taken = cond.args[0], !taken
				}
				if cond.op != "eq" {
					if k := st.rs["reported"]; k != nil && mentionsErr(cond, 0) {
						st.unset("reported")
						unjudged = true
					}
					return
				}
				for i, t := range cond.args {
					if t.op != "const" || t.cval == nil || t.cval.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(t.cval)
					if fatalConditions[s] != "" {
						compared[s] = true
						if taken && !st.has("reported") {
							st.setT("key:"+s, cond.args[1-i])
						} else {
							st.unset("key:" + s)
						}
						continue
					}
					for c := range fatalConditions {
						switch {
						case s == c+"=1":
							compared[c] = true
							if taken {
								reported[c] = true
								st.setT("reported", ex.ts.Const(constant.MakeString(c), types.Typ[types.String]))
								for c := range fatalConditions {
									st.unset("key:" + c)
								}
							}
						case st.has("key:"+c) && st.rs["key:"+c] != cond.args[1-i]:
							if s == "1" && taken {
								reported[c] = true
								st.setT("reported", ex.ts.Const(constant.MakeString(c), types.Typ[types.String]))
								for c := range fatalConditions {
									st.unset("key:" + c)
								}
							} else if s != "1" {
								otherValue[c] = s
							}
						}
					}
				}
			},
			OnBlock: func(ex *Explorer, st *State, b *ssa.BasicBlock) {
				if st.has("reported") {
					return
				}
				for _, p := range b.Preds { // the next part of the message
					if b.Dominates(p) {
						for c := range fatalConditions {
							st.unset("key:" + c)
						}
						return
					}
				}
			},
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				switch {
				case c.name == "builtin.close" && len(args) == 1:
					if ends(in) {
						st.set("told")
					}
				case isConnClose(c.name) && !inlined:
					st.set("closed")
				case c.name == "(*sync.Once).Do":
					for _, g := range w.pts.Callees(in.(ssa.CallInstruction)) {
						for h := range w.reachableFrom([]*ssa.Function{g}, false, nil) {
							for _, b := range h.Blocks {
								for _, in := range b.Instrs {
									if ci, ok := in.(ssa.CallInstruction); ok {
										if isSock(ci, "Close") {
											st.set("closed")
										}
										if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && ends(ci) {
											st.set("told")
										}
									}
								}
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || inlined {
					return
				}
				if isSock(ci, "ReadMessage") || isSock(ci, "NextReader") {
					r.count("reads", 1)
					if k := st.rs["reported"]; k != nil {
						out.add("goes-on", "goes-on:"+constant.StringVal(k.cval), w.ipos(in), fmt.Sprintf("%s receives the next message after the server reported %s", name, fatalConditions[constant.StringVal(k.cval)]), st.traceText(10)...)
						st.dead = true
						return
					}
				}
				if isSock(ci, "ReadMessage") || isSock(ci, "NextReader") || isSock(ci, "WriteMessage") {
					if e := st.rs["ioerr"]; e != nil {
						if d := ex.decide(st, ex.eq(e, ex.ts.Nil)); d != 1 {
							what := "read"
							if !isReader {
								what = "write"
							}
							rule := "error-ignored"
							out.add(rule, rule+":"+name, w.ipos(in), fmt.Sprintf("%s goes on after a failed %s", name, what), st.traceText(8)...)
							st.dead = true
							return
						}
					}
					for _, k := range []string{"told", "closed"} {
						st.unset(k)
					}
				}
			},
			OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
				ci, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				if isSock(ci, "ReadMessage") || isSock(ci, "NextReader") || isSock(ci, "WriteMessage") {
					if e := errResult(res, ci.Type()); e != nil {
						st.setT("ioerr", e)
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, _ []*Term) {
				r.count("ways out of the loops", 1)
				if !st.has("closed") {
					out.add("not-closed", "not-closed:"+name, w.pos(root.Pos()), fmt.Sprintf("%s ends without closing the connection", name), st.traceText(8)...)
				}
				if isReader && !st.has("told") {
					out.add("not-told", "not-told:"+name, w.pos(root.Pos()), fmt.Sprintf("%s ends without telling the other side of the session", name), st.traceText(8)...)
				}
			},
		})
		ex.Run(root, nil)
		if ex.over {
			r.incomplete("too many ways through " + name)
		}
	}
	if len(readers) > 0 {
		for _, c := range sortedKeysS(fatalConditions) {
			found := false
			for s := range consts {
				found = found || s == c || strings.HasPrefix(s, c+"=")
			}
			switch {
			case !found:
				out.add("not-recognised", "not-recognised:"+c, w.pos(readers[0].Pos()), fmt.Sprintf("the status %q (%s) of the KiwiSDR is not recognised", c, fatalConditions[c]))
			case compared[c] && !reported[c] && otherValue[c] != "":
				out.add("not-recognised", "not-recognised:"+c, w.pos(readers[0].Pos()), fmt.Sprintf("the status %q (%s) of the KiwiSDR is not recognised by its value 1, but by %q", c, fatalConditions[c], otherValue[c]))
			case !reported[c]:
				r.assume("the recognition of " + c + " was not understood")
			default:
				r.count("fatal conditions", 1)
			}
		}
	}
	if unjudged {
		r.assume("a fatal error is told from others in a way that was not understood")
	}

	// opening
	for _, n := range []string{"kiwi.Open", "kiwi.New"} {
		f := w.fn(n)
		if !r.need(f != nil, n) {
			continue
		}
		w.opening(r, &out, f)
	}
	w.restOfMessage(r, &out)
	r.addAll(out.list)
}

func sortedKeysS(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeysB(b)
}

func mentionsErr(t *Term, d int) bool {
	if t == nil || d > 8 {
		return false
	}
	if t.op == "*" && t.args[0].op == "global" && t.typ != nil && isErrorType(t.typ) {
		return true
	}
	for _, a := range t.args {
		if mentionsErr(a, d+1) {
			return true
		}
	}
	return false
}

// isSock: a call of the method of a websocket (or an interface of it).
func isSock(c ssa.CallInstruction, method string) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == method && !strings.HasPrefix(typeStr(cc.Value.Type()), "io.")
	}
	g := cc.StaticCallee()
	return g != nil && g.Name() == method && strings.Contains(g.String(), "websocket.Conn)")
}

// opening: no error is lost on the way out.
func (w *World) opening(r *Result, out *findings, f *ssa.Function) {
	name := fnKey(f)
	fallible := func(c calleeT, typ types.Type) bool {
		return !isConnClose(c.name) && !strings.HasPrefix(c.name, "fmt.") && c.name != "errors.New"
	}
	nerr := 0
	var ex *Explorer
	ex = newExplorer(w, &Rule{
		Interesting: func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Go:
				return true
			case *ssa.Call:
				t := x.Type()
				if tt, ok := t.(*types.Tuple); ok && tt.Len() > 0 {
					t = tt.At(tt.Len() - 1).Type()
				}
				return isErrorType(t) && !isSock(x, "Close") && !strings.HasPrefix(calleeName(x), "fmt.")
			}
			return false
		},
		Inline: func(g *ssa.Function) bool {
			return fnPkgIs(w, g, "kiwi") && !g.Signature.Variadic() || g.Name() == "send" || g.Name() == "sendSetup"
		},
		NoInline: func(g *ssa.Function) bool {
			return !fnPkgIs(w, g, "kiwi") || w.isEntry(g) && g != f && g.Name() != "Open"
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok {
				st.set("running")
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			if isConnClose(c.name) || c.fn != nil && w.closesConn(c.fn) {
				st.unset("running")
			}
		},
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			sends := false
			for _, s := range sel.States {
				sends = sends || s.Dir == types.SendOnly
			}
			if sends && (idx < 0 || sel.States[idx].Dir != types.SendOnly) {
				st.set("unsent")
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			ci, ok := in.(*ssa.Call)
			if !ok || !fallible(c, ci.Type()) {
				return
			}
			if e := errResult(res, ci.Type()); e != nil {
				nerr++
				st.setT("err:"+w.ipos(in), e)
			}
		},
		OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
			if len(res) == 0 {
				return
			}
			last := res[len(res)-1]
			g := fr.fn
			sig := g.Signature.Results()
			if sig.Len() == 0 || !isErrorType(sig.At(sig.Len()-1).Type()) {
				return
			}
			bad := ex.decide(st, ex.eq(last, ex.ts.Nil)) == 0
			if g != f {
				if bad {
					st.setT("failed", last)
				}
				return
			}
			r.count("ways out of opening", 1)
			failed := ""
			if st.has("failed") {
				failed = "an error of a step"
			}
			if st.has("unsent") {
				failed = "the failure to send a message"
			}
			for k, e := range st.rs {
				if !strings.HasPrefix(k, "err:") {
					continue
				}
				switch ex.decide(st, ex.eq(e, ex.ts.Nil)) {
				case 0:
					failed = "the error at " + strings.TrimPrefix(k, "err:")
				case -1:
					if failed == "" && e != last {
						failed = "the (unchecked) error at " + strings.TrimPrefix(k, "err:")
					}
				}
			}
			if failed != "" && !bad && ex.decide(st, ex.eq(last, ex.ts.Nil)) == 1 {
				out.add("error-lost", "error-lost:"+name, w.pos(f.Pos()), fmt.Sprintf("%s returns without an error although %s occurred", name, failed), st.traceText(10)...)
			}
			if bad && len(res) > 1 && res[0].op != "nil" {
				out.add("client-returned", "client-returned:"+name, w.pos(f.Pos()), fmt.Sprintf("%s returns a client together with an error", name), st.traceText(8)...)
			}
			if !bad && failed == "" && len(res) > 1 && res[0].op == "nil" {
				out.add("no-client", "no-client:"+name, w.pos(f.Pos()), fmt.Sprintf("%s returns neither a client nor an error", name), st.traceText(8)...)
			}
			if bad && st.has("running") {
				out.add("left-running", "left-running:"+name, w.pos(f.Pos()), fmt.Sprintf("%s returns an error and leaves the reader and the writer running", name), st.traceText(8)...)
			}
		},
	})
	ex.Run(f, nil)
	if ex.over {
		r.incomplete("too many ways through " + name)
	}
	r.count("fallible steps", nerr)
}

// closesConn: the function closes the connection in any case.
func (w *World) closesConn(f *ssa.Function) bool {
	for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isSock(ci, "Close") && fnPkgIs(w, g, "kiwi") {
					return true
				}
			}
		}
	}
	return false
}

// restOfMessage: no part of a status message keeps the parts behind it from being looked at.
func (w *World) restOfMessage(r *Result, out *findings) {
	isErrGlobal := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
					return true
				}
			}
		}
		return false
	}
	// byName: the condition is about what a text is.
	var byName func(v ssa.Value, d int) bool
	byName = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.BinOp:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if s, ok := constStr(o); ok && s != "" && (x.Op == token.EQL || x.Op == token.NEQ) {
					return true
				}
			}
		case *ssa.UnOp:
			return d < 3 && byName(x.X, d+1)
		case *ssa.Call:
			n := calleeName(x)
			return n == "strings.HasPrefix" || n == "strings.HasSuffix" || n == "strings.EqualFold"
		}
		return false
	}
	for _, f := range w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		b, ok := in.(*ssa.BinOp)
		if !ok || !fnPkgIs(w, f, "kiwi") {
			return false
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if s, ok := constStr(v); ok && fatalConditions[s] != "" {
				return true
			}
		}
		return false
	}) {
		for _, l := range loopsOf(f) {
			fatal := false
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok {
						for _, v := range []ssa.Value{bo.X, bo.Y} {
							if s, ok := constStr(v); ok && fatalConditions[s] != "" {
								fatal = true
							}
						}
					}
				}
			}
			if !fatal {
				continue
			}
			r.count("walks over the parts of a message", 1)
			for x := range l.blocks {
				if x == l.header {
					continue
				}
				for _, s := range x.Succs {
					if l.blocks[s] {
						continue
					}
					// the condition that decides to leave
					told := isErrGlobal(x)
					var cond *ssa.If
					for b, below := x, s; b != nil && l.blocks[b]; b, below = b.Idom(), b {
						if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && byName(i.Cond, 0) {
							// on the side on which the name is the one in question
							side := b.Succs[0]
							if bo, ok := i.Cond.(*ssa.BinOp); ok && bo.Op == token.NEQ {
								side = b.Succs[1]
							}
							if below == side && (b == x || len(side.Preds) == 1) {
								cond = i
								break
							}
						}
						told = told || isErrGlobal(b)
					}
					if cond == nil || told {
						continue
					}
					// what is returned then
					from, to := x, s
					for i := 0; i < 4; i++ {
						told = told || isErrGlobal(to)
						ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return)
						if !ok {
							if len(to.Succs) != 1 {
								break
							}
							from, to = to, to.Succs[0]
							continue
						}
						if len(ret.Results) == 0 || told {
							break
						}
						v := ret.Results[len(ret.Results)-1]
						if phi, ok := v.(*ssa.Phi); ok && phi.Block() == to {
							for k, p := range to.Preds {
								if p == from {
									v = phi.Edges[k]
								}
							}
						}
						if c, ok := v.(*ssa.Const); ok && c.IsNil() && isErrorType(v.Type()) {
							out.add("rest-unseen", "rest-unseen:"+fnKey(f), w.ipos(cond), fmt.Sprintf("%s stops looking at a status message after one of its parts: a too busy, bad password or down behind it is not seen", fnKey(f)))
						}
						break
					}
				}
			}
		}
	}
}
