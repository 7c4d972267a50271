package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkC19 }

// methodsOfIface returns the method names of a repository interface like "rx.Reporter".
func (w *World) ifaceMethods(pkg, name string) []string {
	for _, p := range w.pkgs {
		if shortPkg(p.PkgPath) != pkg {
			continue
		}
		o := p.Types.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var res []string
		for i := 0; i < it.NumMethods(); i++ {
			res = append(res, it.Method(i).Name())
		}
		return res
	}
	return nil
}

// upperOf strips pure normalisations of a text (trimming, changing case).
func stripText(t *Term) *Term {
	for t != nil && t.op == "call" && len(t.args) > 0 {
		f, ok := t.payload.(*ssa.Function)
		if !ok {
			return t
		}
		switch f.String() {
		case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

// reporterCalls recognises the calls of the reporter interfaces.
func (w *World) reporterCalls() func(in ssa.Instruction) bool {
	isRep := map[string]bool{}
	for _, m := range append(w.ifaceMethods("rx", "Reporter"), w.ifaceMethods("rx", "CallsignReporter")...) {
		isRep[m] = true
	}
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || !c.Common().IsInvoke() || !isRep[c.Common().Method.Name()] {
			return false
		}
		k := shortType(typeKey(c.Common().Value.Type()))
		return strings.HasPrefix(k, "rx.Reporter") || strings.HasPrefix(k, "rx.CallsignReporter")
	}
}

func checkC19(w *World, r *Result) {
	r.rule("Fan-out: each reporter method of the receiver invokes, in a loop over all registered reporters that visits every element and never skips, repeats or stops early, exactly the method of the same name with exactly its own parameters in the same order.")
	r.rule("Listener: each path through a callsign event of the listener invokes its reporter exactly once, with the method of the same name, the listener's own id, the given callsign and the signal frequency of the attached peak.")
	r.rule("Attach and detach report activation and deactivation exactly once on every path, with the listener's id and the signal frequency of the peak concerned.")
	r.rule("The processes pass each spotted callsign on to their spotter exactly once on every path, with the same callsign and frequency, unless there is no spotter.")
	w.registering(r)
	tmp := newResult(w, r.prop)
	for _, f := range w.spotEvents(tmp) {
		switch f.Rule {
		case "not-spotted", "spotted-twice", "spot-altered":
			r.report(f.Rule, f.Key, f.Pos, f.Msg, f.Detail...)
		}
	}
	r.count("spots passed on", tmp.counts["spots passed on"])
	methods := w.ifaceMethods("rx", "Reporter")
	repCall := w.reporterCalls()
	for _, m := range methods {
		fn := w.fn("rx.(*Receiver)." + m)
		if fn == nil {
			continue
		}
		r.count("fan-outs", 1)
		ws := newWalks(w, "call")
		ex := newExplorer(w, &Rule{
			Interesting: repCall,
			OnBranch:    func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) { ws.onBranch(ex, st, in, taken) },
			OnBlock:     func(ex *Explorer, st *State, b *ssa.BasicBlock) { ws.onBlock(ex, st, b) },
			OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
				ws.onReturn(st, fr)
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if _, isGo := in.(*ssa.Go); isGo && repCall(in) {
					r.report("async", fnKey(fn), w.ipos(in), "reporters are called on a separate goroutine: events of one listener can overtake each other")
				}
				if !repCall(in) {
					return
				}
				c := in.(ssa.CallInstruction).Common()
				r.count("reporter calls", 1)
				if c.Method.Name() != m {
					r.report("other-event", fnKey(fn)+" -> "+c.Method.Name(), w.ipos(in), "the event "+m+" is passed on to the reporters as "+c.Method.Name(), st.traceText(8)...)
					return
				}
				if !ws.inLoop(st) {
					r.report("no-fanout", fnKey(fn), w.ipos(in), "the event "+m+" is passed on outside of a loop over the reporters", st.traceText(8)...)
				}
				ws.act(st, "call")
				root := st.frames[0]
				for i, a := range c.Args {
					if i+1 >= len(fn.Params) {
						break
					}
					if ex.val(st, a) != st.rs["p"+itoa(i)] {
						_ = root
						r.report("altered", fnKey(fn)+" "+itoa(i), w.ipos(in), "argument "+itoa(i+1)+" of the event "+m+" is not passed on as it was received", st.traceText(8)...)
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				if !st.has("looped") {
					// the path never reached a loop over the reporters
					r.report("no-fanout", fnKey(fn)+" exit", w.pos(fn.Pos()), "the event "+m+" is not passed on to the reporters on some path", st.traceText(8)...)
				}
			},
		})
		ob := ex.rule.OnBranch
		ex.rule.OnBranch = func(ex *Explorer, st *State, in *ssa.If, c *Term, taken bool) {
			if l := loopWithHeader(in.Block()); l != nil {
				if coll, _, _, _ := l.walk(); coll != nil {
					for f := range w.srcFields(coll) {
						if fieldOwner[f] == "rx.Receiver" {
							st.set("looped")
						}
					}
				} else {
					st.set("looped")
				}
			}
			ob(ex, st, in, c, taken)
		}
		ex.budget = 300_000
		ex.Run(fn, func(st *State, f *FState) {
			for i, p := range fn.Params[1:] {
				st.setT("p"+itoa(i), f.regs[p])
			}
		})
		r.count("paths", ex.states)
		ws.problems("call", func(l *Loop, what, detail string) {
			r.report("fanout-"+what, fnKey(fn), w.loopPos(l), "the event "+m+" does not reach every reporter exactly once ("+what+"): "+detail)
		})
	}
	// reporters are only ever added
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v := storeField(in)
				if v == nil || fieldKey(v) != "rx.Receiver.reporters" {
					continue
				}
				r.count("registrations", 1)
				c, ok := in.(*ssa.Store).Val.(*ssa.Call)
				if ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if w.srcFields(c.Call.Args[0])[v] {
							continue
						}
					}
				}
				if _, ok := in.(*ssa.Store).Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); ok {
					continue
				}
				r.report("registration", fnKey(f), w.ipos(in), "registering a reporter does not keep the reporters registered before")
			}
		}
	}
	w.listenerEvents(r, repCall, false)
}

// listenerEvents checks how a listener reports its events.
func (w *World) listenerEvents(r *Result, repCall func(ssa.Instruction) bool, attachOnly bool) {
	// the listener
	type want struct {
		fn, event string
	}
	var ws []want
	if !attachOnly {
		for _, m := range w.ifaceMethods("rx", "CallsignReporter") {
			ws = append(ws, want{"rx.(*Listener)." + m, m})
		}
	}
	ws = append(ws, want{"rx.(*Listener).Attach", "ListenerActivated"}, want{"rx.(*Listener).Detach", "ListenerDeactivated"})
	for _, x := range ws {
		fn := w.fn(x.fn)
		if fn == nil {
			continue
		}
		r.count("listener events", 1)
		ex := newExplorer(w, &Rule{
			Canon: func(owner string) bool { return owner == "rx.Listener" },
			Interesting: func(in ssa.Instruction) bool {
				if repCall(in) && strings.HasPrefix(shortType(typeKey(in.(ssa.CallInstruction).Common().Value.Type())), "rx.Reporter") {
					return true
				}
				v := storeField(in)
				return v != nil && fieldKey(v) == "rx.Listener.peak"
			},
			NoInline: func(f *ssa.Function) bool {
				k := fnKey(f)
				return strings.HasPrefix(k, "rx.(*TextProcessor)") || strings.HasPrefix(k, "cw.") || strings.HasPrefix(k, "rx.(*Receiver)")
			},
			OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
				if v := storeField(in); v != nil && fieldKey(v) == "rx.Listener.peak" {
					val := ex.val(st, in.(*ssa.Store).Val)
					if val.op == "nil" {
						// remember the frequency's owner: the peak that is detached
						if cur := st.mem[ex.val(st, in.(*ssa.Store).Addr)]; cur != nil {
							st.setT("oldpeak", cur)
						}
						st.set("cleared")
					} else {
						st.setT("newpeak", val)
					}
					return
				}
				if !repCall(in) {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					r.report("async", fnKey(fn), w.ipos(in), "the reporter is called on a separate goroutine: events of one listener can overtake each other")
					return
				}
				c := in.(ssa.CallInstruction).Common()
				if c.Method.Name() != x.event {
					r.report("other-event", fnKey(fn)+" -> "+c.Method.Name(), w.ipos(in), "the event "+x.event+" of a listener is reported as "+c.Method.Name(), st.traceText(8)...)
					return
				}
				r.count("reporter calls", 1)
				if st.has("reported") {
					r.report("twice", fnKey(fn), w.ipos(in), "the event "+x.event+" is reported twice on one path", st.traceText(8)...)
				}
				st.set("reported")
				var args []*Term
				for _, a := range c.Args {
					args = append(args, ex.val(st, a))
				}
				if srcField(args[0]) != "rx.Listener.id" {
					r.report("wrong-id", fnKey(fn), w.ipos(in), "the event "+x.event+" is not reported with the listener's own id", st.traceText(8)...)
				}
				// the frequency
				fi := 1
				if len(args) > 2 {
					fi = 2
				}
				fq := args[fi]
				if !strings.HasSuffix(srcField(fq), "dsp.Peak.SignalFrequency") {
					r.report("wrong-frequency", fnKey(fn), w.ipos(in), "the event "+x.event+" is not reported with the signal frequency of the attached peak but with "+trunc(fq.s, 80), st.traceText(8)...)
				} else if base := fq.src; base != nil && base.op == "&" {
					p := base.args[0]
					okp := srcField(p) == "rx.Listener.peak"
					if np := st.rs["newpeak"]; np != nil {
						okp = p == np
					}
					if st.rs["oldpeak"] != nil {
						okp = okp && p == st.rs["oldpeak"]
					}
					if !okp {
						r.report("wrong-frequency", fnKey(fn)+" peak", w.ipos(in), "the event "+x.event+" is reported with the frequency of a peak that is not the listener's", st.traceText(8)...)
					}
				}
				// the remaining parameters in order
				rest := append([]*Term(nil), args[1:fi]...)
				rest = append(rest, args[fi+1:]...)
				if x.event != "ListenerActivated" && x.event != "ListenerDeactivated" {
					for i, a := range rest {
						if want := st.rs["p"+itoa(i)]; want != nil && stripText(a) != want {
							r.report("altered", fnKey(fn)+" "+itoa(i), w.ipos(in), "the event "+x.event+" is not reported with the values it was raised with", st.traceText(8)...)
						}
					}
				}
			},
			OnExit: func(ex *Explorer, st *State, res []*Term) {
				detached := st.holds(func(c *Term, v bool) bool {
					return c.op == "eq" && v && (srcField(c.args[0]) == "rx.Listener.peak" && c.args[1].op == "nil" || srcField(c.args[1]) == "rx.Listener.peak" && c.args[0].op == "nil")
				})
				if x.fn == "rx.(*Listener).Attach" && st.rs["newpeak"] != st.rs["p0"] {
					r.report("attach-state", fnKey(fn), w.pos(fn.Pos()), "there is a path through Attach after which the listener does not have the given peak", st.traceText(8)...)
				}
				if x.fn == "rx.(*Listener).Detach" && !st.has("cleared") && !detached {
					r.report("detach-state", fnKey(fn), w.pos(fn.Pos()), "there is a path through Detach after which the listener still has its peak", st.traceText(8)...)
				}
				if !st.has("reported") && !detached {
					r.report("not-reported", fnKey(fn), w.pos(fn.Pos()), "there is a path on which the event "+x.event+" is not reported", st.traceText(8)...)
				}
			},
		})
		ex.budget = 300_000
		ex.Run(fn, func(st *State, f *FState) {
			for i, p := range fn.Params[1:] {
				st.setT("p"+itoa(i), f.regs[p])
			}
		})
		r.count("paths", ex.states)
	}
}

func itoa(i int) string { return fmtInt(i) }
