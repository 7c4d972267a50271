package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// postDominators: for each block the set of blocks that are on every way from it to the end of the function.
func postDominators(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		s := map[*ssa.BasicBlock]bool{}
		if len(b.Succs) == 0 {
			s[b] = true
		} else {
			for _, x := range f.Blocks {
				s[x] = true
			}
		}
		res[b] = s
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for x := range res[b] {
				if x == b {
					continue
				}
				for _, s := range b.Succs {
					if !res[s][x] {
						delete(res[b], x)
						changed = true
						break
					}
				}
			}
		}
	}
	return res
}

// controlled: the blocks of which it depends on the given branches whether they are executed.
func controlled(f *ssa.Function, start map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	pd := postDominators(f)
	res := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{}
	for b := range start {
		work = append(work, b)
	}
	done := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if done[a] || len(a.Succs) < 2 {
			continue
		}
		done[a] = true
		for _, x := range f.Blocks {
			if res[x] {
				continue
			}
			n := 0
			for _, s := range a.Succs {
				if pd[s][x] {
					n++
				}
			}
			if n > 0 && n < len(a.Succs) {
				res[x] = true
				work = append(work, x)
			}
		}
	}
	return res
}

type scopeMon struct {
	w       *World
	r       *Result
	regions map[*ssa.Function]map[*ssa.BasicBlock]bool
	only    map[*ssa.Function]bool // only called for an active scope
	active  map[*ssa.Function]bool // functions that tell whether the scope is active
	sources map[ssa.Value]bool
}

func isScopeType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && shortPkg(n.Obj().Pkg().Path()) == "scope"
}

func (s *scopeMon) isActiveCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name() == "Active" && isScopeType(c.Call.Value.Type())
	}
	f := c.Call.StaticCallee()
	return f != nil && (s.active[f] || f.Name() == "Active" && f.Signature.Recv() != nil && isScopeType(f.Signature.Recv().Type()))
}

// tells: the value says whether a scope is active. pol: 1 true means active, -1 false means active, 0 something else.
func (s *scopeMon) tells(v ssa.Value, seen map[ssa.Value]bool) (bool, int) {
	if seen[v] {
		return false, 0
	}
	seen[v] = true
	if s.isActiveCall(v) {
		return true, 1
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			ok, p := s.tells(v.X, seen)
			return ok, -p
		}
		if v.Op == token.MUL {
			// a local variable or a field that holds it
			for _, st := range s.w.cellStores(v) {
				if ok, p := s.tells(st, seen); ok {
					return true, p
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if ok, _ := s.tells(e, seen); ok {
				return true, 0
			}
		}
	case *ssa.BinOp:
		ok, p := s.tells(v.X, seen)
		c, isC := v.Y.(*ssa.Const)
		if ok && isC && c.Value != nil && (v.Op == token.EQL || v.Op == token.NEQ) {
			if (c.Value.String() == "true") == (v.Op == token.EQL) {
				return true, p
			}
			return true, -p
		}
	}
	return false, 0
}

func checkC25(w *World, r *Result) {
	r.rule("For each branch on whether the scope is active, the code that depends on it (control dependence, with everything it calls, function arguments resolved per call) writes nothing that other code reads: no field, no element of a shared slice or map, no variable used outside, no channel, no result.")
	r.rule("Frames are only shown where the scope is known to be active.")
	s := &scopeMon{w: w, r: r, regions: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, only: map[*ssa.Function]bool{}, active: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, f := range w.funcs {
		if p := shortPkg(fnPkg(f)); w.inRepo(f) && p != "scope" && p != "cmd" {
			fns = append(fns, f)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if s.active[f] || f.Signature.Results().Len() != 1 {
				continue
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if ok, p := s.tells(ret.Results[0], map[ssa.Value]bool{}); ok && p == 1 {
						s.active[f] = true
						changed = true
					}
				}
			}
		}
	}
	shownIn := map[*ssa.BasicBlock]bool{} // blocks where the scope is active
	for _, f := range fns {
		start := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			t, p := s.tells(iff.Cond, map[ssa.Value]bool{})
			if !t {
				continue
			}
			start[b] = true
			r.count("branches on an active scope", 1)
			r.sample(fnKey(f))
			var yes *ssa.BasicBlock
			switch p {
			case 1:
				yes = b.Succs[0]
			case -1:
				yes = b.Succs[1]
			}
			if phi, ok := iff.Cond.(*ssa.Phi); ok && p == 0 {
				// a && active, a || active
				and := true
				for _, e := range phi.Edges {
					if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
						and = false
					}
				}
				if and {
					yes = b.Succs[0]
				}
			}
			if yes != nil && len(yes.Preds) == 1 {
				for _, x := range f.Blocks {
					if yes.Dominates(x) {
						shownIn[x] = true
					}
				}
			}
		}
		if len(start) > 0 {
			s.regions[f] = controlled(f, start)
		}
	}
	// functions that only run for an active scope
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if s.only[f] {
				continue
			}
			sites := w.callSitesOf(f)
			if f.Parent() != nil {
				// a function literal: where it is made
				sites = nil
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							if s.regions[f.Parent()][b] && shownIn[b] || s.only[f.Parent()] {
								s.only[f] = true
								changed = true
							}
						}
					}
				}
				continue
			}
			if len(sites) == 0 || token.IsExported(f.Name()) {
				continue
			}
			all := true
			for _, c := range sites {
				g := c.Parent()
				if !(s.only[g] || shownIn[c.Block()]) {
					all = false
				}
			}
			if all {
				s.only[f] = true
				changed = true
			}
		}
	}
	shows := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || !isScopeType(c.Common().Value.Type()) {
					continue
				}
				if n := c.Common().Method.Name(); !strings.HasPrefix(n, "Show") {
					continue
				}
				shows++
				if !shownIn[b] && !s.only[f] {
					r.report("shown-inactive", fnKey(f), w.ipos(in), "a frame is shown although the scope is not known to be active")
				}
			}
		}
	}
	r.count("frames shown", shows)
	for _, f := range fns {
		reg := s.regions[f]
		if reg == nil {
			continue
		}
		s.region(f, reg)
	}
}

func (s *scopeMon) inRegion(in ssa.Instruction) bool {
	f := in.Parent()
	if s.only[f] {
		return true
	}
	return s.regions[f][in.Block()]
}

// scopeOnlyField: the field is only read by code that runs for the scope.
func (s *scopeMon) scopeOnlyField(f *types.Var) bool {
	for _, fn := range s.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var v *types.Var
				switch x := in.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
						v = fieldVar(fa.X.Type(), fa.Field)
					}
				case *ssa.Field:
					v = fieldVar(x.X.Type(), x.Field)
				}
				if v == f && !s.inRegion(in) {
					return false
				}
			}
		}
	}
	return true
}

// base follows an address or reference to where it comes from.
func base(v ssa.Value) (ssa.Value, *types.Var) {
	var fv *types.Var
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if fv == nil {
				fv = fieldVar(x.X.Type(), x.Field)
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, fv
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if fv == nil {
					fv = fieldVar(a.X.Type(), a.Field)
				}
				return a, fv
			case *ssa.IndexAddr:
				v = a.X
			default:
				return x.X, fv
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				v = x.Call.Args[0]
				continue
			}
			return v, fv
		default:
			return v, fv
		}
	}
}

// effect: one thing that code does to something outside of it.
type effect struct {
	in    ssa.Instruction
	what  string
	param ssa.Value // it happens to what this parameter or free variable refers to
	field *types.Var
}

// effects of the instructions (all of f, or those of the region), with the functions its parameters stand for.
func (s *scopeMon) effects(f *ssa.Function, reg map[*ssa.BasicBlock]bool, env map[ssa.Value][]*ssa.Function, stack []*ssa.Function) []effect {
	for _, g := range stack {
		if g == f {
			return nil
		}
	}
	if len(stack) > 12 {
		return nil
	}
	stack = append(stack, f)
	w := s.w
	var res []effect
	target := func(in ssa.Instruction, addr ssa.Value, what string) {
		b, fv := base(addr)
		switch x := b.(type) {
		case *ssa.Alloc:
			if reg == nil || reg[x.Block()] {
				return
			}
			// a variable of the function: is it used elsewhere
			for _, ref := range *x.Referrers() {
				if ref == in || reg[ref.Block()] {
					continue
				}
				if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
					continue
				}
				res = append(res, effect{in, what + " a variable that is used outside", nil, nil})
				return
			}
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Const:
			if i, ok := b.(ssa.Instruction); ok && reg != nil && !reg[i.Block()] {
				res = append(res, effect{in, what + " something that is used outside", nil, fv})
			}
		case *ssa.FreeVar, *ssa.Parameter:
			if fv != nil && s.scopeOnlyField(fv) {
				return
			}
			res = append(res, effect{in, what, b, fv})
		case *ssa.Phi:
			fresh := true
			for _, e := range x.Edges {
				eb, _ := base(e)
				switch eb := eb.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc, *ssa.Phi:
					fresh = fresh && (reg == nil || reg[eb.(ssa.Instruction).Block()])
				case *ssa.Const:
				default:
					fresh = false
				}
			}
			if !fresh {
				res = append(res, effect{in, what + " something shared", nil, fv})
			}
		case *ssa.Call, *ssa.Extract:
			// what a function returned: made for the caller, unless it is a part of an object
			if fv != nil && !s.scopeOnlyField(fv) {
				res = append(res, effect{in, what, nil, fv})
			}
		default:
			if fv != nil && s.scopeOnlyField(fv) {
				return
			}
			res = append(res, effect{in, what, nil, fv})
		}
	}
	for _, b := range f.Blocks {
		if reg != nil && !reg[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); ok && reg == nil {
					continue
				}
				target(in, in.Addr, "writes")
			case *ssa.MapUpdate:
				target(in, in.Map, "writes")
			case *ssa.Send:
				res = append(res, effect{in, "sends to a channel", nil, nil})
			case *ssa.Select:
				res = append(res, effect{in, "uses channels", nil, nil})
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					res = append(res, effect{in, "receives from a channel", nil, nil})
				}
			case ssa.CallInstruction:
				ci := in
				com := ci.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "clear", "delete":
						target(in, com.Args[0], "writes")
					case "append":
						target2 := com.Args[0]
						if sl, ok := target2.(*ssa.Slice); ok && sl.High != nil {
							target(in, target2, "overwrites")
						}
					case "close":
						res = append(res, effect{in, "closes a channel", nil, nil})
					}
					continue
				}
				if com.IsInvoke() && isScopeType(com.Value.Type()) {
					continue
				}
				// who is called
				var callees []*ssa.Function
				if com.IsInvoke() {
					callees = w.pts.Callees(ci)
				} else if g := com.StaticCallee(); g != nil {
					callees = []*ssa.Function{g}
				} else if fs, ok := env[com.Value]; ok {
					callees = fs
				} else if mc, ok := com.Value.(*ssa.MakeClosure); ok {
					callees = []*ssa.Function{mc.Fn.(*ssa.Function)}
				} else {
					callees = w.pts.Callees(ci)
				}
				for _, g := range callees {
					if shortPkg(fnPkg(g)) == "scope" {
						continue
					}
					if g.Blocks == nil || !w.inRepo(g) {
						name := g.String()
						if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") {
							target(in, com.Args[0], "sorts")
						}
						continue
					}
					env2 := map[ssa.Value][]*ssa.Function{}
					args := com.Args
					if com.IsInvoke() {
						args = append([]ssa.Value{com.Value}, args...)
					}
					bind := func(p ssa.Value, a ssa.Value) {
						if _, ok := p.Type().Underlying().(*types.Signature); !ok {
							return
						}
						switch a := a.(type) {
						case *ssa.MakeClosure:
							env2[p] = []*ssa.Function{a.Fn.(*ssa.Function)}
						case *ssa.Function:
							env2[p] = []*ssa.Function{a}
						default:
							if fs, ok := env[a]; ok {
								env2[p] = fs
							}
						}
					}
					for i, p := range g.Params {
						if i < len(args) {
							bind(p, args[i])
						}
					}
					for _, e := range s.effects(g, nil, env2, stack) {
						switch p := e.param.(type) {
						case *ssa.Parameter:
							done := false
							for i, q := range g.Params {
								if q == p && i < len(args) {
									done = true
									n := len(res)
									target(in, args[i], e.what)
									for j := n; j < len(res); j++ {
										res[j].in = e.in
										if e.field != nil {
											res[j].field = e.field
										}
									}
								}
							}
							if !done {
								res = append(res, effect{e.in, e.what, nil, e.field})
							}
						case *ssa.FreeVar:
							// a variable of the function that made the closure
							done := false
							for _, mb := range makersOf(w, p.Parent()) {
								for i, fv := range p.Parent().FreeVars {
									if fv != p || i >= len(mb.Bindings) {
										continue
									}
									done = true
									if mb.Parent() == f {
										n := len(res)
										target(in, mb.Bindings[i], e.what)
										for j := n; j < len(res); j++ {
											res[j].in = e.in
											if e.field != nil {
												res[j].field = e.field
											}
										}
									} else {
										// passed on from further up
										res = append(res, effect{e.in, e.what, p, e.field})
									}
								}
							}
							if !done {
								res = append(res, effect{e.in, e.what, nil, e.field})
							}
						default:
							res = append(res, e)
						}
					}
				}
			}
		}
	}
	return res
}

func makersOf(w *World, f *ssa.Function) []*ssa.MakeClosure {
	var res []*ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				res = append(res, mc)
			}
		}
	}
	return res
}

func (s *scopeMon) region(f *ssa.Function, reg map[*ssa.BasicBlock]bool) {
	w, r := s.w, s.r
	for _, e := range s.effects(f, reg, nil, nil) {
		r.count("effects looked at", 1)
		if e.param == nil && e.field == nil && strings.HasPrefix(e.what, "writes") && strings.HasSuffix(e.what, "writes") {
			// unknown target without a field: a plain local
			if st, ok := e.in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.Global); !ok {
					continue
				}
			}
		}
		name := e.what
		if e.field != nil {
			name += " " + fieldKey(e.field)
		}
		r.report("scope-changes-state", fnKey(f)+" "+name, w.ipos(e.in), fmt.Sprintf("what depends on an active scope in %s %s, which is used for decoding", fnKey(f), name))
	}
	// values that are chosen there
	for _, b := range f.Blocks {
		if reg[b] {
			continue
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			from := false
			for i := range phi.Edges {
				from = from || reg[b.Preds[i]]
			}
			if !from {
				continue
			}
			differ := false
			for i, e := range phi.Edges {
				if e != phi.Edges[0] && (reg[b.Preds[i]] || reg[b.Preds[0]]) {
					differ = true
				}
			}
			if !differ {
				continue
			}
			if t, _ := s.tells(phi, map[ssa.Value]bool{}); t {
				continue
			}
			if in := s.usedOutside(phi, reg, map[ssa.Value]bool{}); in != nil {
				r.report("scope-chooses-value", fnKey(f)+" "+phi.Comment, w.ipos(in), fmt.Sprintf("the value of %s depends on whether the scope is active, and is used for decoding", phi.Comment))
			}
		}
	}
	// results
	if f.Signature.Results().Len() > 0 && !s.active[f] {
		var vals []string
		inReg := false
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				inReg = inReg || reg[b]
				var t []string
				for _, v := range ret.Results {
					t = append(t, v.Name()+v.String())
				}
				vals = append(vals, strings.Join(t, ","))
			}
		}
		same := true
		for _, v := range vals {
			same = same && v == vals[0]
		}
		if inReg && !same {
			for _, c := range w.callSitesOf(f) {
				v, ok := c.(ssa.Value)
				if !ok {
					continue
				}
				if in := s.usedOutside(v, s.regions[c.Parent()], map[ssa.Value]bool{}); in != nil && !s.only[c.Parent()] {
					r.report("scope-chooses-value", fnKey(f)+" result", w.ipos(in), fmt.Sprintf("the result of %s depends on whether the scope is active, and is used for decoding", fnKey(f)))
				}
			}
		}
	}
}

// usedOutside: an instruction outside of the region that uses the value.
func (s *scopeMon) usedOutside(v ssa.Value, reg map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok || reg[ref.Block()] {
			continue
		}
		if x, ok := ref.(ssa.Value); ok {
			switch x := x.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.UnOp, *ssa.FieldAddr, *ssa.MakeInterface, *ssa.Slice:
				if in := s.usedOutside(x, reg, seen); in != nil {
					return in
				}
				continue
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && s.only[g] {
					continue
				}
				if s.isActiveCall(x) {
					continue
				}
			}
		}
		if iff, ok := ref.(*ssa.If); ok {
			if t, _ := s.tells(iff.Cond, map[ssa.Value]bool{}); t {
				continue
			}
		}
		return ref
	}
	return nil
}
