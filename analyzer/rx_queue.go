package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

// sampleQueue: the channels of sample blocks a receiver reads (element type: slice of numbers, in a field of rx.Receiver).
func (w *World) sampleQueueFields() map[*types.Var]bool {
	res := map[*types.Var]bool{}
	for v, o := range fieldOwner {
		if o != "rx.Receiver" {
			continue
		}
		ch, ok := v.Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		if sl, ok := ch.Elem().Underlying().(*types.Slice); ok {
			if isNumericOrParam(sl.Elem()) {
				res[v] = true
			}
		}
	}
	return res
}

func isNumericOrParam(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	return isNumeric(t)
}

// checkC10: at each place a block enters the sample queue, the path has established that its rate and size are those of
// the receiver; and the queue is fresh whenever these are set.
func checkC10(w *World, r *Result) {
	r.rule("Typestate over every path to a send on the receiver's sample queue: the facts of the path must include [sample rate of the receiver == sample rate of the block] and [block size of the receiver == len(block)/2], both about the very block that is sent.")
	r.rule("Wherever the receiver's sample rate or block size is changed, the same function also installs a fresh sample queue on every path, and both come from the parameters of the start function.")
	qf := w.sampleQueueFields()
	if len(qf) == 0 {
		r.assume("no sample queue field recognised: nothing to decide")
		return
	}
	rate, size := w.field("rx.Receiver.sampleRate"), w.field("rx.Receiver.blockSize")
	if rate == nil || size == nil {
		r.assume("the receiver has no sampleRate/blockSize fields: nothing to decide")
		return
	}
	isQ := func(ch ssa.Value) bool {
		for f := range w.srcFields(ch) {
			if qf[f] {
				return true
			}
		}
		return false
	}
	isSend := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Send:
			return isQ(in.Chan)
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.SendOnly && isQ(s.Chan) {
					return true
				}
			}
		}
		return false
	}
	fns := uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool { return isSend(in) }))
	for _, fn := range fns {
		fs := w.climb(fn, func(root *ssa.Function) []*Finding {
			var out findings
			check := func(ex *Explorer, st *State, in ssa.Instruction, x ssa.Value) {
				v := ex.val(st, x)
				r.count("sends checked", 1)
				okRate, okSize := false, false
				for c, b := range st.facts {
					if c.op != "eq" || !b {
						continue
					}
					for i := 0; i < 2; i++ {
						p, q := c.args[i], c.args[1-i]
						switch srcField(p) {
						case "rx.Receiver.sampleRate":
							if !strings.HasPrefix(srcField(q), "rx.Receiver.") && !q.isConst() {
								okRate = true
							}
						case "rx.Receiver.blockSize":
							if q.op == "/" && q.args[0].op == "len" && q.args[0].args[0] == v && isIntConst(q.args[1], 2) {
								okSize = true
							}
							if q.op == ">>" && q.args[0].op == "len" && q.args[0].args[0] == v && isIntConst(q.args[1], 1) {
								okSize = true
							}
						}
						if p.op == "len" && p.args[0] == v && q.op == "*" && (srcField(q.args[0]) == "rx.Receiver.blockSize" && isIntConst(q.args[1], 2) || srcField(q.args[1]) == "rx.Receiver.blockSize" && isIntConst(q.args[0], 2)) {
							okSize = true
						}
						if p.op == "len" && p.args[0] == v && q.op == "+" && srcField(q.args[0]) == "rx.Receiver.blockSize" && q.args[0] == q.args[1] {
							okSize = true
						}
						if p.op == "len" && p.args[0] == v && q.op == "<<" && srcField(q.args[0]) == "rx.Receiver.blockSize" && isIntConst(q.args[1], 1) {
							okSize = true
						}
					}
				}
				if !okRate {
					out.add("rate-unchecked", fnKey(in.Parent()), w.ipos(in), "a block enters the sample queue on a path on which its sample rate was not found equal to the receiver's", st.traceText(12)...)
				}
				if !okSize {
					out.add("size-unchecked", fnKey(in.Parent()), w.ipos(in), "a block enters the sample queue on a path on which its size was not found equal to the receiver's block size", st.traceText(12)...)
				}
			}
			ex := newExplorer(w, &Rule{
				Interesting: isSend,
				OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
					if s, ok := in.(*ssa.Send); ok && isQ(s.Chan) {
						check(ex, st, in, s.X)
					}
				},
				OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
					if idx >= 0 && sel.States[idx].Dir == types.SendOnly && isQ(sel.States[idx].Chan) {
						check(ex, st, sel, sel.States[idx].Send)
					}
				},
			})
			ex.budget = 500_000
			ex.Run(root, nil)
			r.count("paths", ex.states)
			return out.list
		})
		r.addAll(fs)
	}
	r.count("senders", len(fns))
	// the rate that is checked is the rate of the delivered block
	r.rule("Each caller that delivers a block passes on the sample rate it received with the block, not a remembered or constant one.")
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || fnKey(c.Common().StaticCallee()) != "rx.(*Receiver).IQData" || len(c.Common().Args) < 3 {
					continue
				}
				r.count("delivering calls", 1)
				v := c.Common().Args[1]
				for {
					if cv, ok := v.(*ssa.Convert); ok {
						v = cv.X
					} else if cv, ok := v.(*ssa.ChangeType); ok {
						v = cv.X
					} else {
						break
					}
				}
				bad := false
				switch x := v.(type) {
				case *ssa.Const:
					bad = true
				case *ssa.UnOp:
					_, isF := x.X.(*ssa.FieldAddr)
					bad = isF && x.Op == token.MUL
				}
				if bad {
					r.report("rate-not-from-block", fnKey(f), w.ipos(in), "a block is delivered with a sample rate that is not the one received with it, so the check against the receiver's rate is void")
				}
			}
		}
	}
	// fresh queue
	for _, fn := range uniqFns(w.fnsWhere(func(f *ssa.Function, in ssa.Instruction) bool {
		v := storeField(in)
		return v != nil && (fieldKey(v) == "rx.Receiver.sampleRate" || fieldKey(v) == "rx.Receiver.blockSize")
	})) {
		fs := w.climb(fn, func(root *ssa.Function) []*Finding {
			var out findings
			ex := newExplorer(w, &Rule{
				Interesting: func(in ssa.Instruction) bool {
					v := storeField(in)
					return v != nil && (fieldOwner[v] == "rx.Receiver" && (fieldKey(v) == "rx.Receiver.sampleRate" || fieldKey(v) == "rx.Receiver.blockSize" || qf[v]))
				},
				OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
					v := storeField(in)
					if v == nil || fieldOwner[v] != "rx.Receiver" {
						return
					}
					val := ex.val(st, in.(*ssa.Store).Val)
					switch {
					case fieldKey(v) == "rx.Receiver.sampleRate" || fieldKey(v) == "rx.Receiver.blockSize":
						st.set("set")
						r.count("rate and size stores", 1)
						if isArith(val) {
							out.add("rate-size-value", fnKey(in.Parent())+" "+v.Name(), w.ipos(in), "the receiver's "+v.Name()+" is set to a computed value instead of the one it was started with", st.traceText(8)...)
						}
						st.setT("v:"+v.Name(), val)
						if o := st.rs["v:sampleRate"]; o != nil && o == st.rs["v:blockSize"] && !o.isConst() {
							out.add("rate-size-value", fnKey(in.Parent())+" same", w.ipos(in), "the sample rate and the block size of the receiver are set from the same value")
						}
					case qf[v]:
						if val.op == "make" {
							st.set("fresh")
						} else if val.op == "nil" {
							st.set("fresh")
						} else {
							st.unset("fresh")
						}
					}
				},
				OnExit: func(ex *Explorer, st *State, res []*Term) {
					if st.has("set") && !st.has("fresh") {
						out.add("stale-queue", fnKey(fn), w.pos(fn.Pos()), "the receiver's sample rate or block size is changed without installing a fresh sample queue: blocks checked against the old values would be processed", st.traceText(8)...)
					}
				},
			})
			ex.budget = 500_000
			ex.Run(root, nil)
			return out.list
		})
		r.addAll(fs)
	}
}

func isIntConst(t *Term, n int64) bool {
	if t.op != "const" || t.cval.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(t.cval)
	return ok && i == n
}

func isArith(t *Term) bool {
	switch t.op {
	case "+", "-", "*", "/", "%", "<<", ">>", "max", "min":
		return true
	}
	return false
}

var _ = token.NoPos
var _ = strings.HasPrefix
