package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

type restrMon struct {
	w    *World
	memo map[*ssa.Function][]restr
	r    *Result
}

// restr: an instruction that moves elements of the list or map held in a field, or changes its length.
type restr struct {
	in     ssa.Instruction
	field  *types.Var
	moves  bool // elements move within the underlying array
	shrink bool // the length changes
	insert bool // a key is added to a map
	cut    bool // elements at the end are cut off
	key    ssa.Value
}

// collFields: the fields whose list the value is (the same underlying array, not a copy).
func (m *restrMon) collFields(v ssa.Value) map[*types.Var]bool {
	res := map[*types.Var]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 20 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return
			}
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				if fv := fieldVar(a.X.Type(), a.Field); fv != nil {
					res[fv] = true
				}
			case *ssa.IndexAddr: // a list in a list
				walk(a.X, d+1)
			default:
				walk(a, d+1)
			}
		case *ssa.FieldAddr:
			if fv := fieldVar(v.X.Type(), v.Field); fv != nil {
				res[fv] = true
			}
		case *ssa.Field:
			if fv := fieldVar(v.X.Type(), v.Field); fv != nil {
				res[fv] = true
			}
		case *ssa.Slice:
			walk(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, d+1)
			}
		case *ssa.ChangeType:
			walk(v.X, d+1)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					walk(s.Val, d+1)
				}
			}
		case *ssa.FreeVar:
			for _, mc := range makersOf(m.w, v.Parent()) {
				for i, fv := range v.Parent().FreeVars {
					if fv == v && i < len(mc.Bindings) {
						walk(mc.Bindings[i], d+1)
					}
				}
			}
		case *ssa.Parameter:
			fn := v.Parent()
			for i, p := range fn.Params {
				if p != v {
					continue
				}
				for _, c := range m.w.callSitesOf(fn) {
					args := c.Common().Args
					if c.Common().IsInvoke() {
						if i > 0 && i-1 < len(args) {
							walk(args[i-1], d+1)
						}
					} else if i < len(args) {
						walk(args[i], d+1)
					}
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(v.Call.Args[0], d+1)
				return
			}
			if f := v.Call.StaticCallee(); f != nil && m.w.inRepo(f) {
				for _, b := range f.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range rt.Results {
							if types.Identical(x.Type(), v.Type()) {
								walk(x, d+1)
							}
						}
					}
				}
			}
		}
	}
	walk(v, 0)
	return res
}

func isList(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// loadsElem: the value is an element of one of the lists.
func (m *restrMon) loadsElem(v ssa.Value) map[*types.Var]bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return m.collFields(ia.X)
		}
	}
	return nil
}

// direct: what the instruction itself does.
func (m *restrMon) direct(in ssa.Instruction) []restr {
	var res []restr
	add := func(fs map[*types.Var]bool, moves, shrink bool) {
		for f := range fs {
			res = append(res, restr{in: in, field: f, moves: moves, shrink: shrink})
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(a.X.Type(), a.Field)
			if fv == nil {
				return nil
			}
			if _, ok := fv.Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			switch v := x.Val.(type) {
			case *ssa.Call:
				if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if _, sl := v.Call.Args[0].(*ssa.Slice); !sl {
						return nil // only grows
					}
				}
			}
			cut := false
			if v, ok := x.Val.(*ssa.Slice); ok && v.High != nil {
				cut = m.collFields(v.X)[fv]
			}
			res = append(res, restr{in: in, field: fv, shrink: true, cut: cut})
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			to := m.collFields(a.X)
			for f := range m.loadsElem(x.Val) {
				if to[f] {
					add(map[*types.Var]bool{f: true}, true, false)
				}
			}
		}
	case *ssa.MapUpdate:
		for f := range m.collFields(x.Map) {
			res = append(res, restr{in: in, field: f, insert: true, key: x.Key})
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				from := m.collFields(x.Call.Args[1])
				for f := range m.collFields(x.Call.Args[0]) {
					if from[f] {
						add(map[*types.Var]bool{f: true}, true, false)
					}
				}
			case "append":
				if _, sl := x.Call.Args[0].(*ssa.Slice); sl && len(x.Call.Args) > 1 {
					from := m.collFields(x.Call.Args[1])
					for f := range m.collFields(x.Call.Args[0]) {
						if from[f] {
							add(map[*types.Var]bool{f: true}, true, false)
						}
					}
				}
			}
			return res
		}
		if g := x.Call.StaticCallee(); g != nil && !m.w.inRepo(g) {
			name := g.String()
			if o := g.Origin(); o != nil {
				name = o.String()
			}
			for _, p := range []string{"slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace", "slices.Compact", "slices.Reverse", "slices.Sort", "sort.", "math/rand.Shuffle"} {
				if strings.HasPrefix(name, p) && len(x.Call.Args) > 0 {
					a := x.Call.Args[0]
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					add(m.collFields(a), true, false)
					break
				}
			}
		}
	}
	return res
}

// of: everything a call of the function does, itself or by what it calls.
func (m *restrMon) of(f *ssa.Function) []restr {
	if r, ok := m.memo[f]; ok {
		return r
	}
	var res []restr
	for g := range m.w.reachableFrom([]*ssa.Function{f}, false, nil) {
		if !m.w.inRepo(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				res = append(res, m.direct(in)...)
			}
		}
	}
	m.memo[f] = res
	return res
}

// goesOn: after the instruction the loop can be continued.
func goesOn(l *Loop, in ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{in.Block()}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.Succs {
			if s == l.header {
				return true
			}
			if l.blocks[s] && !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

func checkC15(w *World, r *Result) {
	r.rule("within a loop over a list held in a field, neither the loop body nor anything it calls moves elements of that list (or shortens it while its length is looked at again), unless the loop is left then")
	r.rule("within a loop over a map held in a field, nothing adds other keys to that map")
	r.assume("lists of the same field of different objects are taken to be the same list; goroutines are covered by C04, C05 and C06")
	m := &restrMon{w: w, memo: map[*ssa.Function][]restr{}, r: r}
	var out findings
	walks, steps := 0, 0
	fieldsSeen := map[string]bool{}
	for _, f := range w.funcs {
		if !w.inRepo(f) {
			continue
		}
		for _, l := range loopsOf(f) {
			coll, idx, kind, _ := l.walk()
			back := false
			if kind == walkUnknown {
				continue
			}
			if coll == nil || !isList(coll.Type()) {
				continue
			}
			if idx != nil {
				// a walk from the end to the beginning is not disturbed by the removal of the current element
				for _, in := range l.header.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, e := range phi.Edges {
						if bo, ok := e.(*ssa.BinOp); ok && l.blocks[l.header.Preds[i]] && bo.X == phi {
							if k, ok := constInt(bo.Y); ok && (bo.Op == token.SUB && k > 0 || bo.Op == token.ADD && k < 0) {
								back = true
							}
						}
					}
				}
			}
			fs := m.collFields(coll)
			if len(fs) == 0 {
				continue
			}
			walks++
			// is the length looked at again in each iteration?
			live := false
			if hi, _ := l.headerIf(); hi != nil && idx != nil {
				if bo, ok := hi.Cond.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if _, _, lc := lenPlus(o); lc != nil {
							if in, ok := lc.(ssa.Instruction); ok && l.blocks[in.Block()] {
								live = true
							}
						}
					}
				}
			}
			// or are the elements looked up in the current list, not in the one the walk started with?
			if idx != nil {
				for b := range l.blocks {
					for _, in := range b.Instrs {
						ia, ok := in.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						if u, ok := ia.X.(*ssa.UnOp); ok && l.blocks[u.Block()] && sameIndex(ia.Index, idx) {
							for fv := range m.collFields(u) {
								live = live || fs[fv]
							}
						}
					}
				}
			}
			var names []string
			for fv := range fs {
				names = append(names, fieldKey(fv))
				fieldsSeen[fieldKey(fv)] = true
			}
			sort.Strings(names)
			check := func(at ssa.Instruction, rs []restr) {
				for _, x := range rs {
					if !fs[x.field] {
						continue
					}
					bad := ""
					switch {
					case x.moves && !back:
						bad = "moves elements of"
					case x.shrink && live && !back:
						bad = "changes the length of"
					case x.cut && !back:
						bad = "cuts off elements of"
					case x.insert:
						if x.in.Parent() == f && rangeKey(x.key) {
							continue
						}
						if _, ok := coll.Type().Underlying().(*types.Map); ok {
							bad = "adds to"
						}
					}
					if bad == "" || !goesOn(l, at) {
						continue
					}
					via := ""
					if x.in != at {
						via = " (called from " + w.ipos(at) + ")"
					}
					out.add("restructure", "restructure:"+fieldKey(x.field)+":"+fnKey(f)+":"+fnKey(x.in.Parent()), w.ipos(x.in),
						fmt.Sprintf("%s %s %s%s while %s walks it, and the walk goes on: it skips or repeats an element or runs past the end", fnKey(x.in.Parent()), bad, fieldKey(x.field), via, fnKey(f)),
						"the walk is the loop at "+w.loopPos(l))
				}
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					check(in, m.direct(in))
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := c.(*ssa.Go); ok {
						continue
					}
					if _, ok := c.(*ssa.Defer); ok {
						continue
					}
					for _, g := range w.pts.Callees(c) {
						if w.inRepo(g) {
							steps++
							check(in, m.of(g))
						}
					}
				}
			}
		}
	}
	var ns []string
	for n := range fieldsSeen {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		r.sample("walked: %s", n)
	}
	r.count("walks", walks)
	r.count("calls_during_walks", steps)
	r.count("walked_fields", len(ns))
	r.addAll(out.list)
}

// rangeKey: the key of the current element of a walk over a map.
func rangeKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.ChangeType:
		return rangeKey(x.X)
	}
	return false
}

func sameIndex(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if _, ok := constInt(bo.Y); ok {
				return bo.X
			}
		}
		return v
	}
	return a == b || strip(a) == b || a == strip(b) || strip(a) == strip(b)
}
