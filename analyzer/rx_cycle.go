package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

func isListenerSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(sl.Elem())
	return n != nil && n.Obj().Name() == "Listener" && n.Obj().Pkg() != nil && shortPkg(n.Obj().Pkg().Path()) == "rx"
}

func isWait(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Select:
		return in.Blocking
	case *ssa.UnOp:
		return in.Op == token.ARROW
	}
	return false
}

func checkC14(w *World, r *Result) {
	r.rule("Event automaton over every path of the code that drives listeners (the receive loop and the VFO change), with waiting for the next event as the end of a step: a listener bound successfully is attached in the same step, to a peak activated in the same step; a listener that timed out has its peak deactivated, then is detached, then is queued for release and released in the same step; nothing is released that was not detached.")
	r.rule("The list of detached listeners is emptied after each release before a listener is added again, so that no listener is released a second time under an id that may already be in use again.")
	r.rule("Resetting the pool detaches every listener exactly once.")
	for _, f := range w.cycleFindings(r) {
		r.report(f.Rule, f.Key, f.Pos, f.Msg, f.Detail...)
	}
	static, own := staticKey, ownPool
	// reset
	if fn := w.fn("rx.(*ListenerPool).Reset"); fn != nil {
		ws := newWalks(w, "detach")
		hit := false
		ex := newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool { return static(in) == "rx.(*Listener).Detach" },
			NoInline:    func(f *ssa.Function) bool { return strings.HasPrefix(fnKey(f), "rx.(*Listener).") },
			OnBranch:    func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) { ws.onBranch(ex, st, in, taken) },
			OnBlock:     func(ex *Explorer, st *State, b *ssa.BasicBlock) { ws.onBlock(ex, st, b) },
			OnReturn:    func(ex *Explorer, st *State, fr *Frame, res []*Term) { ws.onReturn(st, fr) },
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
				if c.fn != nil && fnKey(c.fn) == "rx.(*Listener).Detach" {
					ws.act(st, "detach")
					hit = true
				}
			},
		})
		ex.budget = 200_000
		ex.Run(fn, nil)
		if !hit {
			r.report("reset-detach", fnKey(fn), w.pos(fn.Pos()), "resetting the pool drops its listeners without detaching them: their deactivation is never reported and their callsign search is not stopped")
		}
		ws.problems("detach", func(l *Loop, what, detail string) {
			r.report("reset-detach-"+what, fnKey(l.fn), w.loopPos(l), "resetting the pool does not detach every listener exactly once ("+what+"): "+detail)
		})
		r.count("resets", 1)
	}
	r.rule("Attach and Detach change the peak and report it exactly once, with the signal frequency of the peak concerned; stopping the receiver resets the pool.")
	w.listenerEvents(r, w.reporterCalls(), true)
	if fn := w.fn("rx.(*Receiver).Stop"); fn != nil {
		ex := newExplorer(w, &Rule{
			Interesting: func(in ssa.Instruction) bool {
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						return true
					}
				}
				return static(in) == "rx.(*ListenerPool).Reset"
			},
			NoInline: func(f *ssa.Function) bool { return own(f) },
			OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
				if c.name == "builtin.close" {
					st.set("closed")
				}
				if c.fn != nil && fnKey(c.fn) == "rx.(*ListenerPool).Reset" && st.has("closed") {
					st.set("reset")
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				if st.has("closed") && !st.has("reset") {
					r.report("stop-reset", fnKey(fn), w.pos(fn.Pos()), "stopping the receiver leaves its listeners attached: their deactivation is never reported and they keep their places in the pool", st.traceText(8)...)
				}
			},
		})
		ex.budget = 100_000
		ex.Run(fn, nil)
	}
}

func (w *World) cycleExplore(r *Result, root *ssa.Function, interesting func(ssa.Instruction) bool, cyc map[string]bool) []*Finding {
	var out findings
	end := func(ex *Explorer, st *State, in ssa.Instruction, where string) {
		pos := w.pos(root.Pos())
		if in != nil {
			pos = w.ipos(in)
		}
		tr := st.traceText(14)
		if l := st.rs["bound"]; l != nil {
			if ex.decide(st, st.rs["boundok"]) != 0 {
				out.add("bound-not-attached", fnKey(root), pos, "a bound listener is not attached to a signal before "+where+": it occupies a place of the pool forever", tr...)
			}
			st.unset("bound")
			st.unset("boundok")
		}
		if st.has("act") {
			out.add("activated-not-attached", fnKey(root), pos, "a peak is activated, but no listener is attached to it before "+where+": it never becomes available again", tr...)
			st.unset("act")
		}
		if st.has("needact") {
			out.add("attached-not-activated", fnKey(root), pos, "a listener is attached to a peak that is not activated", tr...)
			st.unset("needact")
		}
		if st.has("det") {
			out.add("detached-not-released", fnKey(root), pos, "a detached listener is not released before "+where+": its place and id are lost", tr...)
			st.unset("det")
		}
		if st.has("queued") {
			out.add("queued-not-released", fnKey(root), pos, "the detached listeners are not released before "+where, tr...)
			st.unset("queued")
		}
		if st.has("timedout") {
			out.add("timeout-ignored", fnKey(root), pos, "a listener that timed out is not detached before "+where, tr...)
			st.unset("timedout")
		}
		if st.has("deact") {
			out.add("deactivated-not-detached", fnKey(root), pos, "the peak of a listener is deactivated, but the listener is not detached from it before "+where, tr...)
			st.unset("deact")
		}
		st.unset("to")
	}
	ex := newExplorer(w, &Rule{
		Interesting: interesting,
		Volatile: func(v *types.Var) bool {
			o := fieldOwner[v]
			return o != "rx.Listener" && o != "rx.Receiver"
		},
		NoInline: func(f *ssa.Function) bool {
			k := fnKey(f)
			if k == "rx.(*Listener).Peak" || k == "rx.(*Listener).Attached" || strings.HasPrefix(k, "rx.(*ListenerPool).ForEach") {
				return false
			}
			p := shortPkg(fnPkg(f))
			return cyc[k] || strings.HasPrefix(k, "rx.(*PeaksTable)") || strings.HasPrefix(k, "rx.(*Listener)") || strings.HasPrefix(k, "rx.(*ListenerPool)") || p != "rx"
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			if isWait(in) {
				end(ex, st, in, "the next event is awaited")
				for a := range st.mem {
					if a.op == "&" {
						delete(st.mem, a)
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Slice:
				if isListenerSlice(in.Type()) && in.High != nil {
					if k, ok := constInt(in.High); ok && k == 0 {
						st.unset("dirty")
					}
				}
			case *ssa.MakeSlice:
				if isListenerSlice(in.Type()) {
					st.unset("dirty")
				}
			case *ssa.Alloc:
				if isListenerSlice(deref(in.Type())) {
					st.unset("dirty")
				}
			case *ssa.Store:
				if isListenerSlice(in.Val.Type()) && ex.val(st, in.Val).op == "nil" {
					st.unset("dirty")
				}
			}
		},
		OnBranch: func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
			if to := st.rs["to"]; to != nil && (c == to && taken || c == ex.not(to) && !taken) {
				st.set("timedout")
				st.unset("to")
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inl bool) {
			tr := func() []string { return st.traceText(14) }
			if c.name == "builtin.append" && len(args) > 1 {
				ci, ok := in.(*ssa.Call)
				if !ok || !isListenerSlice(ci.Type()) {
					return
				}
				if args[0].op == "nil" || args[0].op == "make" {
					st.unset("dirty")
				}
				if st.has("dirty") {
					out.add("released-twice", fnKey(root), w.ipos(in), "a listener is added to the list of detached listeners that still contains the listeners released before: they are released again, together with whoever uses their ids now", tr()...)
				}
				if !st.has("det") {
					out.add("release-attached", fnKey(root), w.ipos(in), "a listener is queued for release without being detached", tr()...)
				}
				st.unset("det")
				st.set("queued")
				r.count("events", 1)
				return
			}
			if c.fn == nil {
				return
			}
			k := fnKey(c.fn)
			if !cyc[k] {
				return
			}
			r.count("events", 1)
			switch k {
			case "rx.(*PeaksTable).Activate":
				if st.has("act") {
					out.add("activated-twice", fnKey(root), w.ipos(in), "a second peak is activated before a listener is attached to the first", tr()...)
				}
				if st.rs["needact"] == args[1] {
					st.unset("needact")
				} else {
					st.setT("act", args[1])
				}
			case "rx.(*Listener).Attach":
				if b := st.rs["bound"]; b != nil && b == args[0] {
					if ex.decide(st, st.rs["boundok"]) != 1 {
						out.add("bind-unchecked", fnKey(root), w.ipos(in), "a listener is attached without checking that it was bound", tr()...)
					}
					st.unset("bound")
					st.unset("boundok")
				} else {
					out.add("attach-unbound", fnKey(root), w.ipos(in), "a listener is attached that was not bound in this step (an attached listener would lose its signal without being deactivated)", tr()...)
				}
				if st.rs["act"] == args[1] && args[1] != nil {
					st.unset("act")
				} else {
					st.setT("needact", args[1])
				}
			case "rx.(*PeaksTable).Deactivate":
				st.setT("deact", args[1])
				if st.has("det") {
					out.add("deactivate-after-detach", fnKey(root), w.ipos(in), "the peak of a listener is deactivated after the listener was detached (it has no peak any more)", tr()...)
				}
			case "rx.(*Listener).Detach":
				d := st.rs["deact"]
				if d == nil {
					out.add("detach-active", fnKey(root), w.ipos(in), "a listener is detached without deactivating its peak before: the peak stays active forever", tr()...)
				} else if srcField(d) != "rx.Listener.peak" || d.src.args[0] != args[0] {
					out.add("detach-other", fnKey(root), w.ipos(in), "the deactivated peak is not the peak of the listener that is detached", tr()...)
				}
				if st.has("det") {
					out.add("detached-not-released", fnKey(root), w.ipos(in), "a second listener is detached while the first one is not queued for release", tr()...)
				}
				if !st.has("timedout") {
					out.add("detach-early", fnKey(root), w.ipos(in), "a listener is detached although it is not found to have timed out", tr()...)
				}
				st.unset("timedout")
				st.unset("deact")
				st.setT("det", args[0])
			case "rx.(*ListenerPool).Release":
				// single listeners passed directly
				if len(args) > 1 && args[1].op == "alloc" {
					if !st.has("det") {
						out.add("release-attached", fnKey(root), w.ipos(in), "a listener is released without being detached", tr()...)
					}
					st.unset("det")
				} else {
					st.set("dirty")
				}
				st.unset("queued")
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if c.fn == nil {
				return
			}
			switch fnKey(c.fn) {
			case "rx.(*ListenerPool).BindNext":
				if st.has("bound") {
					out.add("bound-not-attached", fnKey(root)+" again", w.ipos(in), "a second listener is bound while the first one is not attached", st.traceText(14)...)
				}
				if res.op == "tuple" {
					st.setT("bound", res.args[0])
					st.setT("boundok", res.args[1])
				}
			case "rx.(*Listener).TimeoutExceeded":
				st.setT("to", res)
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) { end(ex, st, nil, "the function ends") },
	})
	ex.budget = 1_500_000
	ex.Run(root, nil)
	r.count("paths", ex.states)
	if os.Getenv("SDCHECK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "C14", fnKey(root), ex.states)
		if ex.states > 50000 {
			ex.dumpKeys()
		}
	}
	if ex.over {
		r.count("exploration budget exceeded", 1)
	}
	return out.list
}

// staticKey: the key of the function called by in.
func staticKey(in ssa.Instruction) string {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return ""
	}
	return fnKey(f)
}

// ownPool: methods of the pool, the listener and the peaks table themselves.
func ownPool(f *ssa.Function) bool {
	k := fnKey(f)
	return strings.HasPrefix(k, "rx.(*ListenerPool)") || strings.HasPrefix(k, "rx.(*Listener)") || strings.HasPrefix(k, "rx.(*PeaksTable)")
}

// cycleFindings explores the code that drives listeners.
func (w *World) cycleFindings(r *Result) []*Finding {
	cyc := map[string]bool{"rx.(*ListenerPool).BindNext": true, "rx.(*ListenerPool).Release": true, "rx.(*Listener).Attach": true, "rx.(*Listener).Detach": true,
		"rx.(*PeaksTable).Activate": true, "rx.(*PeaksTable).Deactivate": true, "rx.(*Listener).TimeoutExceeded": true}
	static, own := staticKey, ownPool
	var out []*Finding
	interesting := func(in ssa.Instruction) bool { return cyc[static(in)] && !own(in.Parent()) }
	fns := uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool { return interesting(in) }))
	r.count("driving functions", len(fns))
	cache := map[*ssa.Function][]*Finding{}
	for _, fn := range fns {
		fs := w.climb(fn, func(root *ssa.Function) []*Finding {
			if own(root) {
				// only a step of a walk: the context decides
				return []*Finding{{Rule: "context", Key: fnKey(root), Pos: "-", Msg: "incomplete context"}}
			}
			if c, ok := cache[root]; ok {
				return c
			}
			cache[root] = w.cycleExplore(r, root, interesting, cyc)
			return cache[root]
		})
		for _, f := range fs {
			if f.Rule != "context" {
				out = append(out, f)
			}
		}
	}
	return out
}
