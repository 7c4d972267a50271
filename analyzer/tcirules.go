package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C35"] = checkC35
	checks["C36"] = checkC36
}

// tciEvents: the functions of the repository that take the events of the TCI library.
func (w *World) tciEvents(names ...string) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range w.funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || !fnPkgIs(w, f, "tci") || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		for _, n := range names {
			if f.Name() == n {
				res = append(res, f)
			}
		}
	}
	return uniqFns(res)
}

func paramNamed(f *ssa.Function, typ string, skip int) int {
	for i, p := range f.Params {
		if i == 0 {
			continue
		}
		if typeStr(p.Type()) == typ || strings.HasSuffix(typeStr(p.Type()), typ) {
			if skip == 0 {
				return i
			}
			skip--
		}
	}
	return -1
}

func checkC35(w *World, r *Result) {
	r.rule("On every path through a TCI event function (SetDDS, SetIF, IQData): whatever influences the receiver or the process (a call into the rx package, a write to a field of the process) happens only under the condition that the event's TRX equals a field that holds the TRX the program was started for, and, for VFO events, that the VFO is not B (or is A).")
	r.rule("The events of the own TRX (and VFO A) do get through: a path that ignores a frequency event is guarded by another TRX or VFO. Center and VFO frequency reach the receiver unchanged, each by its own setter.")
	r.rule("The field that holds the own TRX is written by constructors only, with a value that comes from their parameters.")
	var out findings
	defer func() { r.addAll(out.list) }()
	in := func(g *ssa.Function) bool { return fnPkgIs(w, g, "tci") }
	fields := map[*types.Var]bool{}
	evs := w.tciEvents("SetDDS", "SetIF", "IQData")
	for _, f := range evs {
		name := f.Name()
		trxI := paramNamed(f, "int", 0)
		if trxI != 1 {
			continue
		}
		vfoI := paramNamed(f, "client.VFO", 0)
		freqI := paramNamed(f, "int", 1)
		r.count("event functions", 1)
		var ps []*Term
		var ex *Explorer
		own := func(st *State) int { // 1: known to be the own TRX, 0: known to be another one, -1: unknown
			for c, v := range st.facts {
				if c.op != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					if c.args[i] != ps[trxI] {
						continue
					}
					o := c.args[1-i]
					k := srcField(o)
					if k == "" {
						continue
					}
					if o.src != nil && o.src.op == "&" {
						if fv, ok := o.src.payload.(*types.Var); ok {
							fields[fv] = true
						}
					}
					if v {
						return 1
					}
					return 0
				}
			}
			return -1
		}
		vfoConst := func(t *Term) string {
			if !t.isConst() || t.cval == nil {
				return ""
			}
			for _, p := range w.prog.AllPackages() {
				if p.Pkg.Path() != "github.com/ftl/tci/client" {
					continue
				}
				for _, n := range []string{"VFOA", "VFOB"} {
					if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && constant.Compare(c.Val(), token.EQL, t.cval) {
						return n
					}
				}
			}
			return ""
		}
		vfo := func(st *State) int { // 1: not B, 0: B or not A, -1 unknown
			if vfoI < 0 {
				return 1
			}
			res := -1
			for c, v := range st.facts {
				if c.op != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					if c.args[i] != ps[vfoI] {
						continue
					}
					switch vfoConst(c.args[1-i]) {
					case "VFOA":
						if v {
							return 1
						}
						res = 0
					case "VFOB":
						if v {
							return 0
						}
						return 1
					}
				}
			}
			return res
		}
		influence := func(st *State, in ssa.Instruction, what string) {
			r.count("influences on paths", 1)
			st.set("I")
			switch own(st) {
			case 0:
				out.add("other-trx", "other-trx:"+name, w.ipos(in), fmt.Sprintf("%s: %s although the event belongs to another TRX", fnKey(f), what), st.traceText(8)...)
			case -1:
				out.add("other-trx", "other-trx:"+name, w.ipos(in), fmt.Sprintf("%s: %s without the condition that the event belongs to the own TRX", fnKey(f), what), st.traceText(8)...)
			}
			if vfo(st) != 1 {
				out.add("other-vfo", "other-vfo:"+name, w.ipos(in), fmt.Sprintf("%s: %s without the condition that the event concerns VFO A", fnKey(f), what), st.traceText(8)...)
			}
		}
		ex = newExplorer(w, &Rule{
			SendRuns:    true,
			Interesting: func(in ssa.Instruction) bool { return false },
			Inline:      in,
			NoInline:    func(g *ssa.Function) bool { return !in(g) },
			OnInstr: func(ex *Explorer, st *State, i ssa.Instruction) {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !freshBase(fa.X) {
						if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && strings.HasPrefix(fieldOwner[fv], "tci.") {
							influence(st, i, "writes "+fieldKey(fv))
						}
					}
				case *ssa.Go:
					for _, g := range w.pts.Callees(x) {
						for h := range w.reachableFrom([]*ssa.Function{g}, false, nil) {
							if fnPkgIs(w, h, "rx") {
								influence(st, i, "hands over to the receiver")
								return
							}
						}
					}
				}
			},
			OnCall: func(ex *Explorer, st *State, i ssa.Instruction, c calleeT, args []*Term, inlined bool) {
				o, n := methodName(c)
				if !strings.HasPrefix(o, "rx.") {
					return
				}
				influence(st, i, "calls "+fnKey(orig(c.fn)))
				want := map[string]string{"SetDDS": "SetCenterFrequency", "SetIF": "SetVFOOffset", "IQData": "IQData"}[name]
				if o == "rx.Receiver" && n == want {
					st.set("R")
					if freqI > 0 && name != "IQData" && len(args) > 1 {
						a := args[1]
						for a.op == "conv" {
							a = a.args[0]
						}
						if a != ps[freqI] {
							out.add("altered", "altered:"+name, w.ipos(i), fmt.Sprintf("%s does not pass on the frequency as it was received", fnKey(f)), st.traceText(8)...)
						}
					}
				} else if o == "rx.Receiver" && (n == "SetCenterFrequency" || n == "SetVFOOffset") {
					out.add("other-setter", "other-setter:"+name, w.ipos(i), fmt.Sprintf("%s passes the frequency on with %s instead of %s", fnKey(f), n, want), st.traceText(8)...)
				}
			},
			OnExit: func(ex *Explorer, st *State, _ []*Term) {
				r.count("paths", 1)
				if name == "IQData" || st.has("R") {
					return
				}
				if own(st) == 0 || vfo(st) == 0 {
					return
				}
				for c := range st.facts {
					if freqI > 0 && mentionsTerm(c, ps[freqI], 0) {
						return
					}
				}
				out.add("ignored", "ignored:"+name, w.pos(f.Pos()), fmt.Sprintf("%s ignores an event of the own TRX", fnKey(f)), st.traceText(8)...)
			},
		})
		ex.budget = 200_000
		ex.Run(f, func(st *State, fs *FState) {
			for i, p := range f.Params {
				ps = append(ps, fs.regs[p])
				st.setT("P"+itoa(i), fs.regs[p])
			}
		})
		if ex.over {
			r.incomplete("the exploration of " + fnKey(f) + " was given up")
		}
	}
	if r.counts["event functions"] < 3 {
		r.assume("Not all of the event functions SetDDS, SetIF and IQData were found in the tci package.")
	}
	// the own TRX
	todo := []*types.Var{}
	for fv := range fields {
		todo = append(todo, fv)
	}
	done := map[*types.Var]bool{}
	for len(todo) > 0 {
		fv := todo[0]
		todo = todo[1:]
		if done[fv] {
			continue
		}
		done[fv] = true
		r.count("fields that hold the own TRX", 1)
		r.sample("%s", "the own TRX is kept in "+fieldKey(fv))
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
						continue
					}
					for _, o := range w.originsOfInt(s.Val, 0) {
						switch x := o.(type) {
						case *types.Var:
							todo = append(todo, x)
						case *ssa.Parameter:
							if x.Parent().Name() != "New" && !freshBase(fa.X) && fieldOfEvent(x) {
								out.add("own-trx", "own-trx:"+fnKey(f), w.ipos(i), fmt.Sprintf("%s changes the TRX the program was started for", fnKey(f)))
							}
						case *ssa.Const:
							out.add("own-trx", "own-trx:"+fnKey(f), w.ipos(i), fmt.Sprintf("%s sets the own TRX to a constant", fnKey(f)))
						}
					}
				}
			}
		}
	}
}

func fieldOfEvent(p *ssa.Parameter) bool {
	switch p.Parent().Name() {
	case "SetDDS", "SetIF", "IQData":
		return true
	}
	return false
}

// originsOfInt: the fields, parameters and constants a number is.
func (w *World) originsOfInt(v ssa.Value, d int) []any {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return []any{x}
	case *ssa.Parameter:
		return []any{x}
	case *ssa.Phi:
		var res []any
		for _, e := range x.Edges {
			res = append(res, w.originsOfInt(e, d+1)...)
		}
		return res
	case *ssa.Convert:
		return w.originsOfInt(x.X, d+1)
	case *ssa.ChangeType:
		return w.originsOfInt(x.X, d+1)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
				return []any{fv}
			}
		}
	}
	return nil
}

func checkC36(w *World, r *Result) {
	r.rule("On every path through the listener and spot events of the TCI process (with the queued functions executed): a label is placed only if the flag that SetShow stores for its kind is known to be set, it is placed if that flag is set, and the label is removed on every path through the opposite event, without any condition, under the same expression of the listener's name or the callsign.")
	r.rule("Placing and removing go through the same queue, so that they keep their order; nothing is left out because the queue is full.")
	r.rule("Every path through the event of a spotted callsign passes the callsign and the frequency to the spotter exactly once, whatever the flags are, unless there is no spotter (TCI and KiwiSDR).")
	r.addAll(w.spotEvents(r))
}

// spotEvents decides what the processes do with the events of listeners and spots.
func (w *World) spotEvents(r *Result) []*Finding {
	var out findings

	in := func(g *ssa.Function) bool { return fnPkgIs(w, g, "tci") || fnPkgIs(w, g, "kiwi") }
	// the flags
	flagOf := map[int]map[string]bool{1: {}, 2: {}}
	if f := w.fn("tci.(*Process).SetShow"); f != nil && len(f.Params) >= 3 {
		for i := 1; i <= 2; i++ {
			for k := range w.paramStores(f, i, in) {
				flagOf[i][k] = true
			}
			if len(flagOf[i]) == 0 {
				out.add("not-kept", "not-kept:"+itoa(i), w.pos(f.Pos()), fmt.Sprintf("tci.(*Process).SetShow does not keep its parameter %s", f.Params[i].Name()))
			}
		}
		for k := range flagOf[1] {
			if flagOf[2][k] {
				out.add("same-flag", "same-flag:"+k, w.pos(f.Pos()), "both options are kept in "+k)
			}
		}
	} else {
		r.need(false, "tci.(*Process).SetShow")
		return nil
	}
	type use struct {
		form  string
		queue string
		pos   string
	}
	adds, dels := map[string][]use{}, map[string][]use{}
	queueOf := func(st *State) string {
		var qs []string
		for _, f := range st.frames {
			switch s := f.fr.site.(type) {
			case *ssa.Send:
				qs = append(qs, strings.Join(fieldNames(w.srcFields(s.Chan)), ","))
			case *ssa.Select:
				for _, c := range s.States {
					if c.Dir == types.SendOnly {
						qs = append(qs, strings.Join(fieldNames(w.srcFields(c.Chan)), ","))
					}
				}
			}
		}
		return strings.Join(qs, ">")
	}
	events := []struct {
		name, kind string
		flag       int
		add        bool
	}{{"ListenerActivated", "listener", 1, true}, {"ListenerDeactivated", "listener", 1, false}, {"CallsignSpotted", "spot", 2, true}, {"SpotTimeout", "spot", 2, false}}
	for _, pk := range []string{"tci", "kiwi"} {
		for _, ev := range events {
			f := w.fn(pk + ".(*Process)." + ev.name)
			if f == nil || len(f.Blocks) == 0 {
				continue
			}
			if pk == "kiwi" && ev.name != "CallsignSpotted" {
				continue
			}
			r.count("events", 1)
			idI := 1
			if ev.kind == "spot" {
				idI = 2
			}
			var ps []*Term
			var ex *Explorer
			flagVal := func(st *State) int {
				for c, v := range st.facts {
					if k := srcField(c); k != "" && flagOf[ev.flag][k] {
						if v {
							return 1
						}
						return 0
					}
				}
				return -1
			}
			wrongFlag := func(st *State) string {
				for c := range st.facts {
					if k := srcField(c); k != "" && flagOf[3-ev.flag][k] {
						return k
					}
				}
				return ""
			}
			ex = newExplorer(w, &Rule{
				SendRuns:    true,
				Interesting: func(in ssa.Instruction) bool { return false },
				Inline:      in,
				NoInline:    func(g *ssa.Function) bool { return !in(g) },
				OnResult: func(ex *Explorer, st *State, i ssa.Instruction, c calleeT, args []*Term, res *Term) {
					if call, ok := i.(*ssa.Call); ok && c.name == "fmt.Sprintf" {
						st.top().regs[call] = sprintfTerm(ex, st, i, args, call.Type())
					}
				},
				OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
					switch {
					case idx < 0:
						st.set("full")
					case sel.States[idx].Dir == types.RecvOnly:
						st.set("ended")
					}
				},
				OnCall: func(ex *Explorer, st *State, i ssa.Instruction, c calleeT, args []*Term, inlined bool) {
					if strings.HasSuffix(c.name, ".Spot") && (strings.HasPrefix(c.name, "invoke ") || !inlined) && strings.Contains(c.name, "pot") && ev.name == "CallsignSpotted" {
						if len(args) >= 3 {
							if st.has("T") {
								out.add("spotted-twice", "spotted-twice:"+pk, w.ipos(i), fmt.Sprintf("%s passes a spot on twice", fnKey(f)), st.traceText(8)...)
							}
							st.set("T")
							r.count("spots passed on", 1)
							if args[1] != ps[2] {
								out.add("spot-altered", "spot-altered:"+pk, w.ipos(i), fmt.Sprintf("%s passes a spot on with another callsign", fnKey(f)), st.traceText(8)...)
							}
							fr := args[2]
							for fr.op == "conv" {
								fr = fr.args[0]
							}
							if fr != ps[3] {
								out.add("spot-altered", "spot-altered:"+pk, w.ipos(i), fmt.Sprintf("%s passes a spot on with another frequency", fnKey(f)), st.traceText(8)...)
							}
						}
						return
					}
					if !strings.HasPrefix(c.name, "(*github.com/ftl/tci/client.Client).") || len(args) < 2 {
						return
					}
					n := c.name[strings.LastIndexByte(c.name, '.')+1:]
					if n != "AddSpot" && n != "DeleteSpot" {
						return
					}
					form := formOf(args[1], ps[idI], "N", 0)
					if form == "" {
						form = callForm(args[1], ps[idI])
					}
					if form != "" && !strings.Contains(form, "N") {
						form = "other:" + form
					}
					if form == "" {
						for j := range ps {
							if j != idI && mentionsTerm(args[1], ps[j], 0) && !mentionsTerm(args[1], ps[idI], 0) && typeStr(f.Params[j].Type()) == "string" {
								form = "other:" + f.Params[j].Type().String()
							}
						}
					}
					u := use{form, queueOf(st), w.ipos(i)}
					if n == "AddSpot" {
						adds[ev.kind] = append(adds[ev.kind], u)
						st.set("A")
						r.count("labels placed", 1)
						if !ev.add {
							out.add("placed", "placed:"+ev.name, w.ipos(i), fmt.Sprintf("%s places a label", fnKey(f)), st.traceText(8)...)
							return
						}
						if v := flagVal(st); v != 1 {
							msg := "without the condition that the option is enabled"
							if v == 0 {
								msg = "although the option is not enabled"
							}
							if k := wrongFlag(st); k != "" && v == -1 {
								msg = "under the condition of another option (" + k + ")"
							}
							out.add("not-opted-in", "not-opted-in:"+ev.kind, w.ipos(i), fmt.Sprintf("%s places a label %s", fnKey(f), msg), st.traceText(8)...)
						}
						fi := len(ps) - 1
						for j := range ps {
							if j > idI && typeStr(f.Params[j].Type()) == "int" {
								fi = j
								break
							}
						}
						if len(args) > 3 && args[3] != ps[fi] {
							out.add("label-altered", "label-altered:"+ev.kind, w.ipos(i), fmt.Sprintf("%s places the label at another frequency", fnKey(f)), st.traceText(8)...)
						}
						return
					}
					if ev.add {
						if st.has("A") {
							out.add("removed-at-once", "removed-at-once:"+ev.kind, w.ipos(i), fmt.Sprintf("%s removes the label that it has placed", fnKey(f)), st.traceText(8)...)
						}
						return
					}
					dels[ev.kind] = append(dels[ev.kind], u)
					st.set("D|" + form)
					st.set("D")
					r.count("labels removed", 1)
				},
				OnExit: func(ex *Explorer, st *State, _ []*Term) {
					r.count("paths", 1)
					if st.has("ended") && !st.has("D") && !st.has("A") && !st.has("T") {
						return
					}
					pos := w.pos(f.Pos())
					if pk == "tci" && ev.add && !st.has("A") && flagVal(st) != 0 {
						why := "on some path although the option may be enabled"
						if st.has("full") {
							why = "when its queue is full"
						}
						out.add("not-placed", "not-placed:"+ev.kind, pos, fmt.Sprintf("%s does not place the label %s", fnKey(f), why), st.traceText(8)...)
					}
					if pk == "tci" && !ev.add && !st.has("D") {
						out.add("not-removed", "not-removed:"+ev.kind, pos, fmt.Sprintf("%s does not remove the label on every path", fnKey(f)), st.traceText(8)...)
					}
					if ev.name == "CallsignSpotted" && !st.has("T") {
						for c, v := range st.facts {
							if c.op == "eq" && v && (c.args[0] == ex.ts.Nil || c.args[1] == ex.ts.Nil) {
								o := c.args[0]
								if o == ex.ts.Nil {
									o = c.args[1]
								}
								if k := srcField(o); strings.HasPrefix(k, pk+".") {
									return // there is no spotter
								}
							}
						}
						out.add("not-spotted", "not-spotted:"+pk, pos, fmt.Sprintf("%s does not pass the spot on to the spotter on every path", fnKey(f)), st.traceText(8)...)
					}
				},
			})
			ex.budget = 200_000
			ex.Run(f, func(st *State, fs *FState) {
				for i, p := range f.Params {
					ps = append(ps, fs.regs[p])
					st.setT("P"+itoa(i), fs.regs[p])
				}
			})
			if ex.over {
				r.incomplete("the exploration of " + fnKey(f) + " was given up")
			}
		}
	}
	for _, kind := range []string{"listener", "spot"} {
		for _, a := range adds[kind] {
			if len(dels[kind]) == 0 {
				continue
			}
			same, unknown, order := false, a.form == "", false
			var qs []string
			var forms []string
			for _, d := range dels[kind] {
				unknown = unknown || d.form == ""
				if d.form == a.form {
					same = true
					if d.queue == a.queue || a.queue == "" {
						order = true
					}
				}
				forms = append(forms, d.form)
				qs = append(qs, d.queue)
			}
			sort.Strings(forms)
			switch {
			case unknown:
				r.assume("A label has a form that was not interpreted.")
			case !same:
				out.add("other-label", "other-label:"+kind, a.pos, fmt.Sprintf("the label of a %s is placed as %s but removed as %s (N is its name)", kind, a.form, strings.Join(forms, ", ")))
			case !order:
				out.add("overtaken", "overtaken:"+kind, a.pos, fmt.Sprintf("the label of a %s is placed through the queue %q but removed through %q: it can be removed before it is placed", kind, a.queue, strings.Join(qs, ", ")))
			}
		}
	}
	// the labels of listeners and spots must not be the same
	for _, a := range adds["listener"] {
		for _, b := range adds["spot"] {
			if a.form != "" && a.form == b.form {
				r.assume("Listener names and callsigns do not coincide.")
			}
		}
	}
	return out.list
}

func fieldNames(m map[*types.Var]bool) []string {
	var res []string
	for f := range m {
		res = append(res, fieldKey(f))
	}
	sort.Strings(res)
	return res
}

// callForm renders a call of a pure function.
func callForm(t, p *Term) string {
	if t.op != "call" {
		return ""
	}
	var parts []string
	for _, a := range t.args {
		if a.op == "iface" {
			a = a.args[0]
		}
		x := formOf(a, p, "N", 0)
		if x == "" {
			x = callForm(a, p)
		}
		if x == "" {
			return ""
		}
		parts = append(parts, x)
	}
	name := "call"
	if s, ok := t.payload.(string); ok {
		name = s
	} else if fn, ok := t.payload.(*ssa.Function); ok && fn != nil {
		name = fn.String()
	}
	return name + "(" + strings.Join(parts, ",") + ")"
}

// paramStores: the fields that keep a parameter.
func (w *World) paramStores(f *ssa.Function, i int, enter func(g *ssa.Function) bool) map[string]bool {
	res := map[string]bool{}
	var p *Term
	ex := newExplorer(w, &Rule{
		SendRuns:    true,
		Interesting: func(in ssa.Instruction) bool { return false },
		Inline:      enter,
		NoInline:    func(g *ssa.Function) bool { return !enter(g) },
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && ex.val(st, s.Val) == p {
				st.set("S|" + fieldKey(fv))
			}
		},
		OnExit: func(ex *Explorer, st *State, _ []*Term) {
			cur := map[string]bool{}
			for k := range st.rs {
				if strings.HasPrefix(k, "S|") {
					cur[k[2:]] = true
				}
			}
			if !res["\x00"] {
				res = cur
				res["\x00"] = true
				return
			}
			for k := range res {
				if k != "\x00" && !cur[k] {
					delete(res, k)
				}
			}
		},
	})
	ex.budget = 100_000
	ex.Run(f, func(st *State, fs *FState) {
		p = fs.regs[f.Params[i]]
		st.setT("P", p)
	})
	delete(res, "\x00")
	return res
}
