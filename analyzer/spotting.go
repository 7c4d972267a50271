package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26 }

var timeOps = map[string]bool{"(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).After": true, "(time.Time).Before": true, "(time.Time).IsZero": true, "(time.Time).Compare": true, "(time.Time).Equal": true, "time.Since": true, "time.Until": true}

// returnsParam: what the function returns depends on its parameter.
func (w *World) returnsParam(fn *ssa.Function, i int) bool { return w.paramReturned(fn, i, false, 0) }

// paramReturned: what the function returns depends on its parameter; with whole, in a way that does not cut the text.
func (w *World) paramReturned(fn *ssa.Function, i int, whole bool, d int) bool {
	if i >= len(fn.Params) || len(fn.Blocks) == 0 {
		return true
	}
	tainted := map[ssa.Value]bool{fn.Params[i]: true}
	var base func(v ssa.Value) ssa.Value
	base = func(v ssa.Value) ssa.Value {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			return base(x.X)
		case *ssa.FieldAddr:
			return base(x.X)
		case *ssa.Slice:
			return base(x.X)
		}
		return v
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !tainted[v] {
				tainted[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				hit := false
				for _, o := range in.Operands(nil) {
					hit = hit || *o != nil && tainted[*o]
				}
				if !hit {
					continue
				}
				if whole && w.cuts(in, tainted, d) {
					continue
				}
				if s, ok := in.(*ssa.Store); ok {
					if tainted[s.Val] {
						mark(base(s.Addr))
					}
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					mark(v)
				}
				if c, ok := in.(*ssa.Call); ok { // what is written through the arguments
					if g := c.Common().StaticCallee(); g == nil || len(w.modsOf(g).fields) > 0 || !w.inRepo(g) {
						for _, a := range c.Common().Args {
							switch a.Type().Underlying().(type) {
							case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
								mark(base(a))
								if x, ok := a.(*ssa.MakeInterface); ok {
									mark(base(x.X))
								}
								if x, ok := a.(*ssa.ChangeInterface); ok {
									mark(base(x.X))
								}
							}
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if tainted[v] {
					return true
				}
			}
		}
	}
	return false
}

// dependsOn: the term depends on the parameter, also through the pure functions in it.
func (w *World) dependsOn(t, p *Term, d int) bool {
	if t == nil || d > 10 {
		return false
	}
	if t == p {
		return true
	}
	for i, a := range t.args {
		if !w.dependsOn(a, p, d+1) {
			continue
		}
		if t.op == "call" {
			if fn, ok := t.payload.(*ssa.Function); ok && w.inRepo(fn) && !w.returnsParam(fn, i) {
				continue
			}
		}
		return true
	}
	return false
}

// part: every way from the term t to the parameter p passes something that keeps only a part of the text (a cut, a format with a
// precision): different parameters can give the same term.
func (w *World) part(t, p *Term, d int) bool {
	if t == nil || t == p || d > 10 || !w.dependsOn(t, p, 0) {
		return false
	}
	all := func(args []*Term) bool {
		n := 0
		for _, a := range args {
			if w.dependsOn(a, p, 0) {
				n++
				if !w.part(a, p, d+1) {
					return false
				}
			}
		}
		return n > 0
	}
	switch t.op {
	case "slice":
		if !noLow(t.args[1]) || t.args[2].op != "none" {
			return true
		}
		return w.part(t.args[0], p, d+1)
	case "len", "[]", "index", "lookup":
		return true
	case "call":
		name := callOf(t)
		if t.payload == "fmt.Sprintf" && len(t.args) > 1 {
			f := t.args[0]
			if f.op != "const" || f.cval == nil || f.cval.Kind() != constant.String {
				return false
			}
			verbs := fmtVerb.FindAllString(strings.ReplaceAll(constant.StringVal(f.cval), "%%", ""), -1)
			if len(verbs) != len(t.args)-1 {
				return false
			}
			n := 0
			for i, a := range t.args[1:] {
				if !w.dependsOn(a, p, 0) {
					continue
				}
				n++
				if !(strings.Contains(verbs[i], ".") && strings.HasSuffix(verbs[i], "s")) && !w.part(a, p, d+1) {
					return false
				}
			}
			return n > 0
		}
		if strings.HasPrefix(name, "strings.") && textCuts[name[len("strings."):]] {
			return true
		}
		if fn, ok := t.payload.(*ssa.Function); ok && w.inRepo(fn) {
			n := 0
			for i, a := range t.args {
				if !w.dependsOn(a, p, 0) || !w.returnsParam(fn, i) {
					continue
				}
				n++
				if w.paramReturned(fn, i, true, 0) && !w.part(a, p, d+1) {
					return false
				}
			}
			return n > 0
		}
	}
	return all(t.args)
}

var fmtVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]*)?[a-zA-Z]`)

// cuts: the instruction keeps only a part of a text.
func (w *World) cuts(in ssa.Instruction, tainted map[ssa.Value]bool, d int) bool {
	switch x := in.(type) {
	case *ssa.Slice:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.Low == nil {
				return x.High != nil
			}
			i, ok := constInt(x.Low)
			return x.High != nil || !ok || i != 0
		}
	case *ssa.Lookup:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.If:
		return true
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		i, ok := constInt(ia.Index)
		al, isAl := ia.X.(*ssa.Alloc)
		if !ok || !isAl {
			return false
		}
		for _, ref := range *al.Referrers() {
			sl, ok := ref.(*ssa.Slice)
			if !ok || sl.Referrers() == nil {
				continue
			}
			for _, u := range *sl.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "fmt.Sprintf" {
					continue
				}
				f, ok := constStr(c.Call.Args[0])
				if !ok {
					continue
				}
				verbs := fmtVerb.FindAllString(strings.ReplaceAll(f, "%%", ""), -1)
				if int(i) < len(verbs) && strings.Contains(verbs[i], ".") && strings.HasSuffix(verbs[i], "s") {
					return true
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len"
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if w.inRepo(g) && d < 4 {
			for i, a := range x.Call.Args {
				if tainted[a] && w.paramReturned(g, i, true, d+1) {
					return false
				}
			}
			return true
		}
		if n := g.String(); strings.HasPrefix(n, "strings.") {
			return textCuts[n[len("strings."):]]
		}
	}
	return false
}

var textCuts = map[string]bool{"Split": true, "SplitN": true, "Fields": true, "Cut": true, "Trim": true, "TrimLeft": true, "TrimRight": true,
	"TrimPrefix": true, "TrimSuffix": true, "TrimFunc": true, "Replace": true, "ReplaceAll": true, "Index": true, "IndexByte": true, "Count": true,
	"HasPrefix": true, "HasSuffix": true, "Contains": true, "CutPrefix": true, "CutSuffix": true}

// sprintfTerm: the text that is formatted, as a term of the format and the operands.
func sprintfTerm(ex *Explorer, st *State, in ssa.Instruction, args []*Term, typ types.Type) *Term {
	ts := []*Term{}
	for _, a := range args {
		n := 0
		if a.op == "alloc" || a.op == "slice" || a.op == "make" {
			base := a
			if base.op == "slice" {
				base = base.args[0]
			}
			for i := int64(0); i < 16; i++ {
				for k, v := range st.mem {
					if k.op == "&[]" && k.args[0] == base && isIntConst(k.args[1], i) {
						ts = append(ts, v)
						n++
					}
				}
			}
		}
		if n == 0 {
			ts = append(ts, a)
		}
	}
	return ex.ts.App("call", "fmt.Sprintf", typ, ts...)
}

// isSpotMap: a map in the telnet package that remembers times.
func isSpotMap(w *World, v ssa.Value) *types.Var {
	m, ok := v.Type().Underlying().(*types.Map)
	if !ok || !mentionsTime(m.Elem(), 0) {
		return nil
	}
	for fv := range w.srcFields(v) {
		if strings.HasPrefix(fieldOwner[fv], "telnet.") {
			return fv
		}
	}
	return nil
}

func mentionsTime(t types.Type, d int) bool {
	if typeStr(t) == "time.Time" {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok && d < 2 {
		for i := 0; i < s.NumFields(); i++ {
			if mentionsTime(s.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func checkC26(w *World, r *Result) {
	r.rule("On every path through the spot function of the telnet server: a spot that is sent to the clients is registered, under the key that was looked up, with the spot's own time, and what is registered is sent (unless the server ends); it is sent only on paths that are guarded by \"not registered yet\" or by \"its age by the spot's time exceeds the silence period\", and left out only on paths guarded by the opposite.")
	r.rule("Key: the looked up key depends on the callsign and on the frequency of the spot (through all pure functions that build it). The sent message depends on the callsign, the frequency and the time of the spot.")
	r.rule("Looking up and registering are one critical section of the same lock. No other code writes, deletes or replaces the remembered times, except for entries whose age was compared with the silence period.")
	var out findings
	defer func() { r.addAll(out.list) }()
	root := w.fn("telnet.(*Server).Spot")
	if root == nil || len(root.Params) < 5 {
		r.need(root != nil, "telnet.(*Server).Spot")
		return
	}
	timeParam := -1
	for i, p := range root.Params {
		if typeStr(p.Type()) == "time.Time" {
			timeParam = i
		}
	}
	if timeParam < 0 {
		r.assume("The spot function has no time parameter; the property was not decided.")
		return
	}
	interesting := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isSpotMap(w, x.X) != nil
		case *ssa.MapUpdate:
			return isSpotMap(w, x.Map) != nil
		case *ssa.Send, *ssa.Select:
			return fnPkgIs(w, in.Parent(), "telnet")
		case *ssa.Call:
			if g := x.Common().StaticCallee(); g != nil {
				return timeOps[g.String()] || mutexCall(g.String()) != 0
			}
		}
		return false
	}
	seen := map[ssa.Instruction]bool{}
	lookups, updates, sends, paths := 0, 0, 0, 0
	var params []*Term
	pTime := func() *Term { return params[timeParam] }
	var spotField *types.Var
	var ex *Explorer
	isPeriod := func(t *Term) bool {
		k := srcField(t)
		return k != "" && strings.HasPrefix(k, "telnet.") && t.typ != nil && typeStr(t.typ) == "time.Duration"
	}
	isCall := func(t *Term, name string) bool {
		if t.op != "call" {
			return false
		}
		fn, ok := t.payload.(*ssa.Function)
		return ok && fn != nil && fn.String() == name
	}
	ownTime := func(t *Term) bool {
		for t.op == "call" && len(t.args) >= 1 {
			fn, ok := t.payload.(*ssa.Function)
			if !ok || fn == nil || !(strings.HasSuffix(fn.String(), ".UTC") || strings.HasSuffix(fn.String(), ".Local") || strings.HasSuffix(fn.String(), ".In")) {
				break
			}
			t = t.args[0]
		}
		return t == pTime()
	}
	isLast := func(st *State, t *Term) bool {
		for k, v := range st.rs {
			if strings.HasPrefix(k, "LAST|") && (v == t || mentionsTerm(t, v, 0)) {
				return true
			}
		}
		return false
	}
	// elapsed: 1 the fact (being true) says that the period has passed, -1 that it has not, 0 unrelated, 2 a form that is not known, 3 a comparison that leaves something out
	elapsed := func(st *State, f *Term) int {
		deadline := func(t *Term) bool { // last + period
			return isCall(t, "(time.Time).Add") && len(t.args) == 2 && isLast(st, t.args[0]) && isPeriod(t.args[1])
		}
		age := func(t *Term) bool {
			return isCall(t, "(time.Time).Sub") && len(t.args) == 2 && ownTime(t.args[0]) && isLast(st, t.args[1])
		}
		switch {
		case f.op == "lt" && isPeriod(f.args[0]) && age(f.args[1]):
			return 1
		case f.op == "lt" && age(f.args[0]) && isPeriod(f.args[1]):
			return -1
		case isCall(f, "(time.Time).After") && ownTime(f.args[0]) && deadline(f.args[1]), isCall(f, "(time.Time).Before") && deadline(f.args[0]) && ownTime(f.args[1]):
			return 1
		case isCall(f, "(time.Time).Before") && ownTime(f.args[0]) && deadline(f.args[1]), isCall(f, "(time.Time).After") && deadline(f.args[0]) && ownTime(f.args[1]):
			return -1
		}
		if isLast(st, f) && (f.op == "lt" || f.op == "call" || f.op == "eq") && !isCall(f, "(time.Time).IsZero") {
			period, own := false, mentionsTerm(f, pTime(), 0)
			var walk func(t *Term, d int)
			walk = func(t *Term, d int) {
				if t == nil || d > 8 {
					return
				}
				period = period || isPeriod(t)
				for _, a := range t.args {
					walk(a, d+1)
				}
			}
			walk(f, 0)
			if period && own && !(f.op == "lt" && (isCall(f.args[0], "(time.Time).Sub") || isCall(f.args[1], "(time.Time).Sub"))) {
				return 2
			}
			return 3
		}
		return 0
	}
	ex = newExplorer(w, &Rule{
		Interesting: interesting,
		NoInline:    func(g *ssa.Function) bool { return !ex.reach(g) },
		Inline:      func(g *ssa.Function) bool { return ex.reach(g) },
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if _, isTuple := call.Type().(*types.Tuple); isTuple {
				return
			}
			switch {
			case c.name == "fmt.Sprintf":
				st.top().regs[call] = sprintfTerm(ex, st, in, args, call.Type())
			case timeOps[c.name] || strings.HasPrefix(c.name, "(time.Time)."):
				st.top().regs[call] = ex.ts.App("call", c.fn, call.Type(), args...)
			case c.fn != nil && w.inRepo(c.fn) && !ex.reach(c.fn) && len(w.modsOf(c.fn).fields) == 0:
				st.top().regs[call] = ex.ts.App("call", c.fn, call.Type(), args...)
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			trackLocks(st, c, args, "SL|")
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Extract:
				if l, ok := x.Tuple.(*ssa.Lookup); ok && isSpotMap(w, l.X) != nil {
					t := ex.val(st, x.Tuple)
					if x.Index < len(t.args) {
						if x.Index == 0 {
							st.setT("LAST|"+w.ipos(l), t.args[0])
						} else {
							st.setT("OK|"+w.ipos(l), t.args[1])
						}
					}
				}
			case *ssa.Lookup:
				if fv := isSpotMap(w, x.X); fv != nil {
					spotField = fv
					lookups++
					st.setT("KEY|", ex.val(st, x.Index))
					for l := range heldHere(st) {
						st.set("SL|" + l)
					}
				}
			case *ssa.MapUpdate:
				fv := isSpotMap(w, x.Map)
				if fv == nil {
					return
				}
				spotField = fv
				seen[in] = true
				updates++
				st.set("U")
				k, v := ex.val(st, x.Key), ex.val(st, x.Value)
				if key := st.rs["KEY|"]; key != nil && key != k {
					out.add("other-key", "other-key:"+fnKey(in.Parent()), w.ipos(in), "a spot is registered under another key than the one that was looked up", st.traceText(10)...)
				}
				if mentionsTerm(v, pTime(), 0) || v.op == "*" || v.op == "zero" {
					if typeStr(x.Value.Type()) == "time.Time" && !ownTime(v) {
						out.add("other-time", "other-time:"+fnKey(in.Parent()), w.ipos(in), "a spot is not registered with its own time", st.traceText(10)...)
					}
				} else {
					out.add("other-time", "other-time:"+fnKey(in.Parent()), w.ipos(in), "a spot is registered with another time than its own", st.traceText(10)...)
				}
				for i := 1; i <= 2; i++ {
					if !w.dependsOn(k, params[i], 0) {
						out.add("key", "key:"+itoa(i), w.ipos(in), fmt.Sprintf("the key of a registered spot does not depend on its %s", root.Params[i].Name()), st.traceText(10)...)
					} else if i == 1 && w.part(k, params[i], 0) {
						out.add("key", "key:part:"+itoa(i), w.ipos(in), fmt.Sprintf("the key of a registered spot holds only a part of its %s: different ones suppress each other", root.Params[i].Name()), st.traceText(10)...)
					}
				}
				if st.rs["KEY|"] != nil {
					held := false
					for l := range st.rs {
						held = held || strings.HasPrefix(l, "SL|")
					}
					if !held {
						out.add("not-atomic", "not-atomic:"+fnKey(root), w.ipos(in), "looking up the last announcement and registering the new one are not one critical section: two spots at the same time are both announced", st.traceText(10)...)
					}
				}
			}
			var sent *Term
			if s, ok := in.(*ssa.Send); ok {
				sent = ex.val(st, s.X)
			}
			if sent != nil {
				sends++
				st.set("A")
				st.setT("MSG|", sent)
			}
		},
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			if idx >= 0 && sel.States[idx].Dir == types.SendOnly {
				sends++
				st.set("A")
				st.setT("MSG|", ex.val(st, sel.States[idx].Send))
			} else if idx >= 0 {
				st.set("ended")
			}
		},
		OnExit: func(ex *Explorer, st *State, _ []*Term) {
			paths++
			pos := w.pos(root.Pos())
			unseen, known, passed, notPassed, odd, partial := false, false, false, false, false, false
			for k, t := range st.rs {
				if strings.HasPrefix(k, "OK|") {
					switch ex.decide(st, t) {
					case 0:
						unseen = true
					case 1:
						known = true
					}
				}
			}
			for f, v := range st.facts {
				if isCall(f, "(time.Time).IsZero") && isLast(st, f) {
					if v {
						unseen = true
					} else {
						known = true
					}
					continue
				}
				switch e := elapsed(st, f); {
				case e == 2:
					odd = true
				case e == 3:
					partial = true
				case e == 1 && v || e == -1 && !v:
					passed = true
				case e == -1 && v || e == 1 && !v:
					notPassed = true
				}
			}
			_ = known
			a, u := st.has("A"), st.has("U")
			ended := st.has("ended")
			switch {
			case a && !u:
				out.add("unregistered", "unregistered:"+fnKey(root), pos, "a spot is announced without being registered", st.traceText(14)...)
			case u && !a && !ended:
				out.add("registered-silent", "registered-silent:"+fnKey(root), pos, "a spot that is not announced is registered: it suppresses a later one", st.traceText(14)...)
			}
			if odd {
				r.assume("A comparison of the times of two spots has a form that was not interpreted.")
				return
			}
			if a && !unseen && !passed {
				msg := "a spot is announced although neither it is new nor the silence period has passed since its last announcement"
				if partial {
					msg = "the decision to announce a spot does not compare its own age with the silence period"
				}
				out.add("announced-again", "announced-again:"+fnKey(root), pos, msg, st.traceText(14)...)
			}
			if !a && !ended && st.rs["KEY|"] != nil && (unseen || passed && !notPassed) {
				out.add("suppressed", "suppressed:"+fnKey(root), pos, "a spot is left out although it is new or its silence period has passed", st.traceText(14)...)
			}
			if a {
				if m := st.rs["MSG|"]; m != nil {
					for _, i := range []int{1, 2, timeParam} {
						if !w.dependsOn(m, params[i], 0) {
							out.add("message", "message:"+itoa(i), pos, fmt.Sprintf("the announcement does not depend on the %s of the spot", root.Params[i].Name()), st.traceText(14)...)
						}
					}
				}
			}
		},
	})
	ex.budget = 400_000
	ex.Run(root, func(st *State, f *FState) {
		for i, p := range root.Params {
			params = append(params, f.regs[p])
			st.setT("P"+itoa(i), f.regs[p])
		}
	})
	if ex.over {
		r.incomplete("the exploration of " + fnKey(root) + " was given up")
		return
	}
	r.count("paths of the spot function", paths)
	r.count("lookups on them", lookups)
	r.count("registrations on them", updates)
	r.count("announcements on them", sends)
	if spotField == nil {
		r.assume("No map of announcement times was found in the telnet server; the property was not decided.")
		return
	}
	r.sample("%s", "the announcement times are kept in "+fieldKey(spotField))
	// everything else that changes the remembered times
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if seen[in] {
					continue
				}
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isSpotMap(w, x.Map) == spotField && (len(w.callSitesOf(f)) > 0 || f.Parent() != nil || f.Object() == nil || f.Object().Exported()) {
						out.add("other-writer", "other-writer:"+fnKey(f), w.ipos(in), fnKey(f)+" registers a spot apart from announcing it")
					}
				case *ssa.Call:
					bi, ok := x.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "delete" && bi.Name() != "clear" || isSpotMap(w, x.Common().Args[0]) != spotField {
						continue
					}
					if !w.guardedByPeriod(b) {
						out.add("forgets", "forgets:"+fnKey(f), w.ipos(in), fnKey(f)+" forgets announcements without regard to the silence period")
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa.X.Type(), fa.Field) != spotField || freshBase(fa.X) {
						continue
					}
					out.add("forgets", "forgets:"+fnKey(f), w.ipos(in), fnKey(f)+" replaces the remembered announcements")
				}
			}
		}
	}
}

// guardedByPeriod: the block is only reached under a condition on a duration that is kept in a field.
func (w *World) guardedByPeriod(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == b {
			continue
		}
		found := false
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value, n int)
		walk = func(v ssa.Value, n int) {
			if v == nil || seen[v] || n > 8 {
				return
			}
			seen[v] = true
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if typeStr(deref(fa.Type())) == "time.Duration" {
						found = true
					}
				}
			}
			if in, ok := v.(ssa.Instruction); ok {
				for _, o := range in.Operands(nil) {
					if *o != nil {
						walk(*o, n+1)
					}
				}
			}
		}
		walk(iff.Cond, 0)
		if found {
			return true
		}
	}
	return false
}
