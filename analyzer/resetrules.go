package main

// C18: after a reset everything that processing changes is as in a new object.
//
// The state of a type is found in the code: the fields (and the contents of the fields) that a function changes which is
// not itself a constructor, a reset, a setter or a start/stop. For every reset an abstract interpretation of its body
// (calls are followed, in the context of the call) computes which parts are new on every way out.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// absV describes a value inside a reset: the part of the object it is (or is taken from), and its value if constant.
type absV struct {
	path  string // "" = not part of the object; "/" = the object itself
	c     constant.Value
	taint string // the part of the previous state it depends on
	lenOf string // it is the length of this part, plus off
	off   int64
	multi []string // one of these parts (an element of a local list)
}

type resetSum struct {
	done map[string]string // part -> constant value or "?"
	ret  absV
	dead bool // does not return
}

type resetRun struct {
	w       *World
	state   map[string]map[string]bool // type key -> parts (relative paths)
	depth   int
	stack   map[*ssa.Function]bool
	kept    map[string]string // part -> where it is written from the previous state
	keptAt  map[string]string
	atGo    func(done map[string]string)
	steps   int
	visited map[*ssa.Function]bool

	// for C29: closing a part marks it "part!"
	closing  bool
	closes   func(a *resetFn, v ssa.Value) bool
	field    *types.Var
	enter    map[*ssa.Function]bool // the functions that are followed
	atReturn func(b *ssa.BasicBlock, a *resetFn)
	atClose  func(path string, done map[string]string)
}

func lastName(path string) string {
	i := strings.LastIndex(path, ".")
	return path[i+1:]
}

// covered: the part or something that contains it is new.
func covered(done map[string]string, p string) bool {
	for {
		if _, ok := done[p]; ok {
			return true
		}
		if p == "/" || p == "" {
			return false
		}
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			return false
		}
		p = p[:i]
		if p == "" || p == "/" {
			p = "/"
		}
	}
}

func meetDone(a, b map[string]string) map[string]string {
	res := map[string]string{}
	for k, v := range a {
		if x, ok := b[k]; ok {
			if x != v {
				v = "?"
			}
			res[k] = v
		} else if covered(b, k) {
			res[k] = "?"
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && covered(a, k) {
			res[k] = "?"
		}
	}
	return res
}

func sameDone(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func copyDone(a map[string]string) map[string]string {
	res := make(map[string]string, len(a))
	for k, v := range a {
		res[k] = v
	}
	return res
}

// isStatePart: the path denotes (part of) the state of the object.
func (x *resetRun) isState(state map[string]bool, p string) string {
	for s := range state {
		if p == s || strings.HasPrefix(p, s+"[") || strings.HasPrefix(p, s+".") {
			return s
		}
	}
	return ""
}

func sub(p string, fv *types.Var) string {
	if p == "" {
		return ""
	}
	return p + "." + fv.Name()
}

type resetFn struct {
	x     *resetRun
	f     *ssa.Function
	state map[string]bool
	param map[ssa.Value]absV
	vals  map[ssa.Value]absV // values whose content was decided when they were computed (loads, calls)
	done  map[string]string
	memo  map[ssa.Value]bool
}

func (a *resetFn) taintOf(p string) string {
	if p == "" || p == "/" {
		return ""
	}
	if s := a.x.isState(a.state, p); s != "" && !covered(a.done, p) {
		return s
	}
	return ""
}

func (a *resetFn) val(v ssa.Value) absV { return a.valD(v, 0) }

func (a *resetFn) valD(v ssa.Value, d int) absV {
	if d > 30 {
		return absV{}
	}
	if r, ok := a.vals[v]; ok {
		return r
	}
	if r, ok := a.param[v]; ok {
		return r
	}
	switch y := v.(type) {
	case *ssa.Const:
		return absV{c: zeroConst(y)}
	case *ssa.FieldAddr:
		b := a.valD(y.X, d+1)
		return absV{path: sub(b.path, fieldVar(y.X.Type(), y.Field)), taint: b.taint}
	case *ssa.Field:
		b := a.valD(y.X, d+1)
		return absV{path: sub(b.path, fieldVar(y.X.Type(), y.Field)), taint: b.taint}
	case *ssa.IndexAddr:
		b := a.valD(y.X, d+1)
		if b.path == "" {
			if ps := a.localElems(y.X, d+1); len(ps) > 0 {
				return absV{multi: ps}
			}
			return absV{taint: b.taint}
		}
		if _, isArr := deref(y.X.Type()).Underlying().(*types.Array); isArr {
			if k, ok := constInt(y.Index); ok {
				return absV{path: fmt.Sprintf("%s[#%d]", b.path, k)}
			}
		}
		return absV{path: b.path + "[]"}
	case *ssa.Convert:
		r := a.valD(y.X, d+1)
		if r.c != nil && types.Identical(y.Type().Underlying(), y.X.Type().Underlying()) == false {
			if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && (r.c.Kind() == constant.Int || r.c.Kind() == constant.Float) {
				if b.Info()&types.IsInteger != 0 && r.c.Kind() == constant.Float {
					r.c = nil
				}
			} else {
				r.c = nil
			}
		}
		return r
	case *ssa.ChangeType:
		return a.valD(y.X, d+1)
	case *ssa.ChangeInterface:
		return a.valD(y.X, d+1)
	case *ssa.MakeInterface:
		return a.valD(y.X, d+1)
	case *ssa.MultiConvert:
		return a.valD(y.X, d+1)
	case *ssa.TypeAssert:
		return a.valD(y.X, d+1)
	case *ssa.Slice:
		r := a.valD(y.X, d+1)
		r.c = nil
		if k, ok := constInt(y.High); y.High != nil && ok && k == 0 {
			return absV{} // empty: nothing of the content is left
		}
		if y.Low != nil && r.path != "" {
			if k, ok := constInt(y.Low); !ok || k != 0 {
				r.path += "[~]" // a part of it
			}
		}
		return r
	case *ssa.Phi:
		var res absV
		if a.memo[v] {
			return absV{}
		}
		a.memo[v] = true
		defer delete(a.memo, v)
		for i, e := range y.Edges {
			r := a.valD(e, d+1)
			if i == 0 {
				res = r
				continue
			}
			if r.path != res.path {
				res.path = ""
			}
			if res.c == nil || r.c == nil || res.c.Kind() != r.c.Kind() || !constant.Compare(res.c, token.EQL, r.c) {
				res.c = nil
			}
			if res.taint == "" {
				res.taint = r.taint
			}
		}
		return res
	case *ssa.Alloc:
		var st *ssa.Store
		n := 0
		if y.Referrers() != nil {
			for _, in := range *y.Referrers() {
				if s, ok := in.(*ssa.Store); ok && s.Addr == y {
					st, n = s, n+1
				}
			}
		}
		if n == 1 {
			if _, ok := deref(y.Type()).Underlying().(*types.Struct); ok {
				r := a.valD(st.Val, d+1)
				return absV{taint: r.taint}
			}
			return a.valD(st.Val, d+1)
		}
		return absV{}
	case *ssa.BinOp:
		p, q := a.valD(y.X, d+1), a.valD(y.Y, d+1)
		res := absV{taint: p.taint}
		if res.taint == "" {
			res.taint = q.taint
		}
		if p.lenOf != "" && q.c != nil && q.c.Kind() == constant.Int && (y.Op == token.ADD || y.Op == token.SUB) {
			k, _ := constant.Int64Val(q.c)
			if y.Op == token.SUB {
				k = -k
			}
			res.lenOf, res.off = p.lenOf, p.off+k
		}
		if p.c != nil && q.c != nil && p.c.Kind() == q.c.Kind() {
			switch y.Op {
			case token.ADD, token.SUB, token.MUL:
				if p.c.Kind() == constant.Int || p.c.Kind() == constant.Float {
					res.c = constant.BinaryOp(p.c, y.Op, q.c)
				}
			}
		}
		return res
	case *ssa.UnOp:
		if y.Op == token.MUL || y.Op == token.ARROW {
			b := a.valD(y.X, d+1) // not yet executed (or a captured variable)
			return b
		}
		b := a.valD(y.X, d+1)
		return absV{taint: b.taint}
	case *ssa.Extract:
		return a.valD(y.Tuple, d+1)
	case *ssa.Lookup:
		b := a.valD(y.X, d+1)
		return absV{taint: b.taint}
	case *ssa.Index:
		b := a.valD(y.X, d+1)
		return absV{taint: b.taint}
	case *ssa.MakeClosure:
		var res absV
		for _, bd := range y.Bindings {
			if r := a.valD(bd, d+1); r.taint != "" {
				res.taint = r.taint
			}
		}
		return res
	}
	return absV{}
}

func zeroConst(c *ssa.Const) constant.Value { return c.Value }

func constKey(c constant.Value) string {
	if c == nil {
		return "?"
	}
	switch c.Kind() {
	case constant.Int, constant.Float:
		return constant.ToFloat(c).ExactString()
	case constant.Bool, constant.String:
		return c.ExactString()
	}
	return "?"
}

// put: the part gets the value.
func (a *resetFn) put(p string, v absV, zero bool, in ssa.Instruction) {
	if p == "" {
		return
	}
	if v.taint != "" && a.x.isState(a.state, p) != "" {
		a.x.kept[p] = v.taint
		a.x.keptAt[p] = a.x.w.ipos(in)
		// what depends on the old state stays old
		for k := range a.done {
			if k == p || strings.HasPrefix(k, p+".") {
				delete(a.done, k)
			}
		}
		return
	}
	for k := range a.done {
		if strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"[") {
			delete(a.done, k)
		}
	}
	a.done[p] = constKey(v.c)
	if zero {
		a.done[p] = "zero"
	}
}

// elements: when every element of an array is new, the array is.
func (a *resetFn) elements(arr *types.Array, p string) {
	i := strings.LastIndex(p, "[#")
	for k := int64(0); k < arr.Len(); k++ {
		if !covered(a.done, fmt.Sprintf("%s[#%d]", p[:i], k)) {
			return
		}
	}
	a.done[p[:i]] = "?"
}

// localElems: the parts of the object that are listed in a local array.
func (a *resetFn) localElems(v ssa.Value, d int) []string {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		v = s.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil || d > 20 {
		return nil
	}
	var res []string
	for _, in := range *al.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, j := range *ia.Referrers() {
			if st, ok := j.(*ssa.Store); ok && st.Addr == ia {
				p := a.valD(st.Val, d+1).path
				if p == "" {
					return nil
				}
				res = append(res, p)
			}
		}
	}
	return res
}

// analyze interprets the function: done is what is new at its start.
func (x *resetRun) analyze(f *ssa.Function, params map[ssa.Value]absV, state map[string]bool, done map[string]string) resetSum {
	if x.stack[f] || x.depth > 12 || len(f.Blocks) == 0 || x.steps > 20000 {
		return resetSum{done: done}
	}
	x.steps++
	x.stack[f] = true
	x.visited[f] = true
	x.depth++
	defer func() { delete(x.stack, f); x.depth-- }()
	a := &resetFn{x: x, f: f, state: state, param: params, vals: map[ssa.Value]absV{}, memo: map[ssa.Value]bool{}}
	in := map[*ssa.BasicBlock]map[string]string{}
	outE := map[[2]int]map[string]string{} // edge (block, successor index)
	in[f.Blocks[0]] = copyDone(done)
	rets := map[*ssa.BasicBlock]resetSum{}
	atRet := map[*ssa.BasicBlock]map[string]string{}
	order := rpo(f)
	for changed, n := true, 0; changed && n < 30; n++ {
		changed = false
		for _, b := range order {
			if in[b] == nil {
				continue
			}
			a.done = copyDone(in[b])
			dead := false
			var defers []*ssa.Defer
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.RunDefers:
					for _, bb := range f.Blocks {
						for _, j := range bb.Instrs {
							if d, ok := j.(*ssa.Defer); ok && bb.Dominates(b) {
								defers = append(defers, d)
							}
						}
					}
					for k := len(defers) - 1; k >= 0; k-- {
						a.call(defers[k])
					}
				case *ssa.Return:
					var rv absV
					for k, res := range y.Results {
						r := a.val(retVal(res))
						if k == 0 {
							rv = r
						}
						if rv.taint == "" {
							rv.taint = r.taint
						}
					}
					if len(y.Results) > 1 {
						rv = absV{taint: rv.taint}
					}
					rets[b] = resetSum{done: copyDone(a.done), ret: rv}
					if x.depth == 1 {
						atRet[b] = copyDone(a.done)
					}
				case *ssa.Panic:
					dead = true
				case *ssa.Call:
					if a.call(y) {
						dead = true
					}
				case *ssa.Go:
					if x.atGo != nil && x.depth <= 3 {
						x.atGo(a.done)
					}
				default:
					a.instr(i)
				}
				if dead {
					break
				}
			}
			if dead {
				continue
			}
			for si, s := range b.Succs {
				e := a.edge(b, si, outE)
				if old, ok := outE[[2]int{b.Index, si}]; !ok || !sameDone(old, e) {
					changed = true
				}
				outE[[2]int{b.Index, si}] = e
				in[s] = nil
				for _, p := range s.Preds {
					for pi, ps := range p.Succs {
						pe, ok := outE[[2]int{p.Index, pi}]
						if ps != s || !ok {
							continue
						}
						if in[s] == nil {
							in[s] = copyDone(pe)
						} else {
							in[s] = meetDone(in[s], pe)
						}
					}
				}
			}
		}
	}
	if x.atReturn != nil && x.depth == 1 {
		for _, b := range f.Blocks {
			if d, ok := atRet[b]; ok {
				a.done = d
				x.atReturn(b, a)
			}
		}
	}
	if len(rets) == 0 {
		return resetSum{done: done, dead: true}
	}
	var res resetSum
	first := true
	for _, b := range f.Blocks {
		r, ok := rets[b]
		if !ok {
			continue
		}
		if first {
			res, first = r, false
			continue
		}
		res.done = meetDone(res.done, r.done)
		if r.ret.path != res.ret.path {
			res.ret.path = ""
		}
		if constKey(r.ret.c) != constKey(res.ret.c) {
			res.ret.c = nil
		}
		if res.ret.taint == "" {
			res.ret.taint = r.ret.taint
		}
	}
	return res
}

// edge: what is new after the branch is taken.
func (a *resetFn) edge(b *ssa.BasicBlock, si int, outE map[[2]int]map[string]string) map[string]string {
	e := copyDone(a.done)
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return e
	}
	// a loop over all elements is left: the elements are new
	for _, l := range loopsOf(a.f) {
		if l.header != b || l.blocks[b.Succs[si]] {
			continue
		}
		coll, _, full := a.fullWalk(l)
		p := ""
		if full {
			p = a.val(coll).path
		}
		once := a.entered(l) || full && isArray(coll)
		if p == "" && !once {
			continue
		}
		var at map[string]string
		for _, pr := range b.Preds {
			if !l.blocks[pr] {
				continue
			}
			for pi, ps := range pr.Succs {
				if ps != b {
					continue
				}
				pe, ok := outE[[2]int{pr.Index, pi}]
				if !ok {
					at = map[string]string{}
				} else if at == nil {
					at = copyDone(pe)
				} else {
					at = meetDone(at, pe)
				}
			}
		}
		for k := range at {
			if p != "" && strings.HasPrefix(k, p+"[]") {
				e[p+strings.TrimPrefix(k, p+"[]")] = "?"
			}
			if once {
				if _, had := e[k]; !had {
					e[k] = at[k]
				}
			}
		}
	}
	for k := range e {
		if strings.Contains(k, "[]") && !inLoop(a.f, b.Succs[si]) {
			delete(e, k)
		}
	}
	// a condition that says the part has its initial value
	cond, pol := in.Cond, si == 0
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, pol = u.X, !pol
			continue
		}
		break
	}
	mark := func(v ssa.Value) {
		if a.x.closing {
			if p := a.val(v).path; p != "" && p != "/" {
				e[p+"!"] = "?"
			}
			return
		}
		if p := a.val(v).path; p != "" && p != "/" && a.x.isState(a.state, p) == p {
			if _, ok := e[p]; !ok {
				e[p] = "?"
			}
		} else if p != "" && p != "/" {
			// the part is missing altogether
			if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
				e[p] = "?"
			}
		}
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.MUL && !pol {
			mark(c)
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		k, ok := y.(*ssa.Const)
		if !ok {
			break
		}
		if _, isLen := lenOf(x); isLen {
			n, _ := constInt(k)
			empty := c.Op == token.EQL && pol && n == 0 || c.Op == token.NEQ && !pol && n == 0 || c.Op == token.GTR && !pol && n == 0 || c.Op == token.LEQ && pol && n == 0 || c.Op == token.LSS && pol && n == 1
			if empty {
				x, _ = lenOf(x)
				mark(x)
			}
			break
		}
		if c.Op == token.EQL && pol || c.Op == token.NEQ && !pol {
			mark(x)
		}
	}
	return e
}

func inLoop(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, l := range loopsOf(f) {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0], true
		}
	}
	return nil, false
}

// fullWalk: the loop visits every element of a slice, map or array.
func (a *resetFn) fullWalk(l *Loop) (coll, idx ssa.Value, full bool) {
	coll, idx, kind, _ := l.walk()
	if kind == walkFull {
		return coll, idx, true
	}
	if kind == walkPartial {
		return nil, nil, false
	}
	// over an array: the bound is the length of the array that is indexed
	hi, body := l.headerIf()
	if hi == nil {
		return nil, nil, false
	}
	c, ok := hi.Cond.(*ssa.BinOp)
	if !ok || body != 0 {
		return nil, nil, false
	}
	indexed := func(idx ssa.Value) (res ssa.Value, n int64) {
		bound := a.val(c.Y).lenOf
		for _, b := range l.fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == idx {
					if arr, ok := deref(ia.X.Type()).Underlying().(*types.Array); ok && (res == nil || n < 0 && bound == "") {
						res, n = ia.X, arr.Len()
					} else if !ok && (res == nil || bound != "" && a.val(ia.X).path == bound) {
						res, n = ia.X, -1
					}
				}
			}
		}
		return res, n
	}
	x, ln := indexed(c.X)
	if x == nil {
		return nil, nil, false
	}
	phi, isPhi := c.X.(*ssa.Phi)
	if isPhi && phi.Block() != l.header {
		return nil, nil, false
	}
	if start, step, ok := induction(l, c.X); ok && step == 1 && start == 0 || isPhi && a.stepOf(l, phi) == 1 && a.startsAt(l, phi, 0) {
		n := a.val(c.Y)
		if ln >= 0 && n.c != nil && n.c.Kind() == constant.Int {
			k, _ := constant.Int64Val(n.c)
			if c.Op == token.LSS && k == ln || c.Op == token.LEQ && k == ln-1 {
				return x, c.X, true
			}
		}
		if p := a.val(x).path; p != "" && n.lenOf == p && (c.Op == token.LSS && n.off == 0 || c.Op == token.LEQ && n.off == -1) {
			return x, c.X, true
		}
		return nil, nil, false
	}
	// downwards over an array
	if k, ok := constInt(c.Y); ok && isPhi && ln >= 0 && a.stepOf(l, phi) == -1 && a.startsAt(l, phi, ln-1) && (c.Op == token.GEQ && k == 0 || c.Op == token.GTR && k == -1) {
		return x, c.X, true
	}
	return nil, nil, false
}

func isArray(v ssa.Value) bool {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		v = s.X
	}
	arr, ok := deref(v.Type()).Underlying().(*types.Array)
	return ok && arr.Len() > 0
}

func (a *resetFn) stepOf(l *Loop, phi *ssa.Phi) int64 {
	for i, e := range phi.Edges {
		if !l.blocks[phi.Block().Preds[i]] {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.X == phi {
			if k, ok := constInt(b.Y); ok {
				if b.Op == token.ADD {
					return k
				}
				if b.Op == token.SUB {
					return -k
				}
			}
		}
	}
	return 0
}

func (a *resetFn) startsAt(l *Loop, phi *ssa.Phi, n int64) bool {
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			continue
		}
		c := a.val(e).c
		if c == nil || c.Kind() != constant.Int {
			return false
		}
		if k, _ := constant.Int64Val(c); k != n {
			return false
		}
	}
	return true
}

// entered: the condition of the loop holds at the first time.
func (a *resetFn) entered(l *Loop) bool {
	hi, body := l.headerIf()
	if hi == nil {
		return false
	}
	cond, pol := hi.Cond, body == 0
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, pol = u.X, !pol
			continue
		}
		break
	}
	phi, ok := cond.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return false
	}
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Bool || constant.BoolVal(c.Value) != pol {
			return false
		}
	}
	return true
}

// walkIndex: the index is the loop variable of a walk over all elements of the collection.
func (a *resetFn) walkIndex(in ssa.Instruction, x, index ssa.Value) bool {
	for _, l := range loopsOf(a.f) {
		if !l.blocks[in.Block()] {
			continue
		}
		coll, idx, full := a.fullWalk(l)
		if !full || idx != index {
			continue
		}
		if coll == x || a.val(coll).path != "" && a.val(coll).path == a.val(x).path {
			return true
		}
	}
	return false
}

func (a *resetFn) instr(in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			b := a.val(y.X)
			if _, isAlloc := y.X.(*ssa.Alloc); isAlloc {
				a.vals[y] = b
				return
			}
			r := absV{path: b.path, taint: b.taint, multi: b.multi}
			if t := a.taintOf(b.path); t != "" {
				r.taint = t
			}
			if k, ok := a.done[b.path]; ok && b.path != "" {
				if k == "zero" {
					k = "0"
				}
				if bt, ok := y.Type().Underlying().(*types.Basic); ok && k != "?" && bt.Info()&types.IsNumeric != 0 {
					r.c = constant.MakeFromLiteral(k, token.FLOAT, 0)
					if r.c.Kind() == constant.Unknown {
						r.c = nil
					}
				}
			}
			a.vals[y] = r
			return
		}
		if y.Op == token.ARROW {
			b := a.val(y.X)
			if b.path != "" && inLoop(a.f, y.Block()) {
				a.done[b.path] = "?" // the channel is emptied
			}
			a.vals[y] = absV{taint: a.taintOf(b.path)}
		}
	case *ssa.Select:
		for _, st := range y.States {
			if st.Dir == types.RecvOnly && !y.Blocking && inLoop(a.f, y.Block()) {
				if b := a.val(st.Chan); b.path != "" {
					a.done[b.path] = "?"
				}
			}
		}
	case *ssa.Store:
		t := a.val(y.Addr)
		if t.path == "" {
			// a field of a local struct: the struct depends on what is stored
			return
		}
		if _, isAlloc := y.Addr.(*ssa.Alloc); isAlloc {
			return
		}
		v := a.val(y.Val)
		zero := false
		if c, ok := y.Val.(*ssa.Const); ok && c.Value == nil {
			zero = true
		}
		if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a struct built in a local variable
			if al, ok := u.X.(*ssa.Alloc); ok {
				if tt := a.structTaint(al); tt != "" {
					v.taint = tt
				}
			}
		}
		if v.path != "" && v.taint == "" && v.path == t.path {
			return // stored back
		}
		if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
			if arr, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr && strings.HasSuffix(t.path, "]") && strings.Contains(t.path, "[#") && v.taint == "" {
				a.done[t.path] = "?"
				a.elements(arr, t.path)
				return
			}
			if !a.walkIndex(in, ia.X, ia.Index) {
				if v.taint == "" {
					// one element: decided for a window of one element only
					return
				}
			}
			p := t.path
			if v.taint != "" {
				return
			}
			a.done[p] = "?"
			return
		}
		a.put(t.path, v, zero, in)
	}
}

// structTaint: the struct in the local variable holds something of the previous state.
func (a *resetFn) structTaint(al *ssa.Alloc) string {
	if al.Referrers() == nil {
		return ""
	}
	for _, in := range *al.Referrers() {
		switch y := in.(type) {
		case *ssa.FieldAddr:
			if y.Referrers() == nil {
				continue
			}
			for _, j := range *y.Referrers() {
				if s, ok := j.(*ssa.Store); ok && s.Addr == y {
					if t := a.val(s.Val).taint; t != "" {
						return t
					}
				}
			}
		case *ssa.Store:
			if y.Addr == al {
				if t := a.val(y.Val).taint; t != "" {
					return t
				}
			}
		}
	}
	return ""
}

var resetWords = map[string]bool{"Reset": true, "Init": true, "Truncate": true, "Clear": true, "Restart": true}

// call interprets a call; it reports whether it never returns.
func (a *resetFn) call(ci ssa.CallInstruction) bool {
	c := ci.Common()
	v, _ := ci.(ssa.Value)
	var args []absV
	for _, x := range c.Args {
		args = append(args, a.val(x))
	}
	anyTaint := ""
	for _, x := range args {
		if x.taint != "" {
			anyTaint = x.taint
		}
	}
	if a.x.closing && a.closeCall(ci, args) {
		return false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			if a.x.atClose != nil && args[0].path != "" {
				a.x.atClose(args[0].path, a.done)
			}
		case "clear":
			if len(args) == 1 && args[0].path != "" {
				a.done[args[0].path] = "zero"
			}
		case "len", "cap":
			if v != nil {
				a.vals[v] = absV{lenOf: args[0].path} // the size of a part
			}
		case "min", "max":
			if v != nil {
				res := absV{taint: anyTaint}
				same, consts := true, true
				for _, x := range args {
					same = same && x.lenOf == args[0].lenOf && x.off == args[0].off && x.lenOf != ""
					consts = consts && x.c != nil && x.c.Kind() == constant.Int
				}
				if same {
					res.lenOf, res.off = args[0].lenOf, args[0].off
				}
				if consts {
					res.c = args[0].c
					for _, x := range args[1:] {
						if constant.Compare(x.c, token.LSS, res.c) == (b.Name() == "min") {
							res.c = x.c
						}
					}
				}
				a.vals[v] = res
			}
		case "delete":
			if args[0].path != "" && a.deletesAll(ci) {
				a.done[args[0].path+"[]"] = "?"
			}
		case "copy":
			if args[0].path != "" && args[1].taint == "" && args[1].path == "" {
				a.done[args[0].path] = "?"
			}
		case "append":
			if v != nil {
				r := absV{taint: anyTaint}
				if len(args) > 0 {
					r.path = args[0].path
					if args[0].path != "" {
						if t := a.taintOf(args[0].path); t != "" {
							r.taint = t
						}
					}
				}
				a.vals[v] = r
			}
		default:
			if v != nil {
				a.vals[v] = absV{taint: anyTaint}
			}
		}
		return false
	}
	var callees []*ssa.Function
	if s := c.StaticCallee(); s != nil {
		callees = []*ssa.Function{s}
	} else if a.x.w.pts != nil {
		callees = a.x.w.pts.Callees(ci)
	}
	if name, ok := neverReturns(callees); ok && name != "" {
		return true
	}
	var sum resetSum
	first := true
	for _, g := range callees {
		if !a.x.w.inRepo(g) || len(g.Blocks) == 0 || a.x.enter != nil && !a.x.enter[g] {
			if first {
				sum = resetSum{done: copyDone(a.done)}
			} else {
				sum.done = meetDone(sum.done, a.done)
			}
			// a container of the standard library
			if len(args) > 0 && args[0].path != "" && resetWords[g.Name()] && g.Signature.Recv() != nil {
				sum.done[args[0].path] = "?"
			}
			sum.ret = absV{taint: anyTaint}
			if len(callees) == 1 && a.x.w.inRepo(g) && !c.IsInvoke() {
				sum.ret.path = a.getter(g, args)
			}
			first = false
			continue
		}
		params := map[ssa.Value]absV{}
		as := args
		if c.IsInvoke() {
			as = append([]absV{a.val(c.Value)}, args...)
		}
		for i, p := range g.Params {
			if i < len(as) {
				params[p] = as[i]
			}
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for i, fv := range g.FreeVars {
				params[fv] = a.val(mc.Bindings[i])
			}
		}
		s := a.x.analyze(g, params, a.state, a.done)
		for i, p := range g.Params {
			if i < len(as) && len(as[i].multi) > 0 {
				// every element of a local list
				d := a.done
				for _, q := range as[i].multi {
					params[p] = absV{path: q}
					s = a.x.analyze(g, params, a.state, d)
					d = s.done
				}
			}
		}
		if s.dead {
			continue
		}
		if first {
			sum, first = s, false
		} else {
			sum.done = meetDone(sum.done, s.done)
			if sum.ret.path != s.ret.path {
				sum.ret.path = ""
			}
			sum.ret.c = nil
			if sum.ret.taint == "" {
				sum.ret.taint = s.ret.taint
			}
		}
	}
	if first {
		if len(callees) > 0 {
			return true
		}
		if v != nil {
			a.vals[v] = absV{taint: anyTaint}
		}
		return false
	}
	a.done = copyDone(sum.done)
	if v != nil {
		a.vals[v] = sum.ret
	}
	return false
}

// getter: the part that a function returns which is not looked into.
func (a *resetFn) getter(g *ssa.Function, args []absV) string {
	params := map[ssa.Value]absV{}
	for i, p := range g.Params {
		if i < len(args) {
			params[p] = args[i]
		}
	}
	b := &resetFn{x: a.x, f: g, state: a.state, param: params, vals: map[ssa.Value]absV{}, memo: map[ssa.Value]bool{}, done: copyDone(a.done)}
	path := ""
	for _, bl := range g.Blocks {
		ret, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
		if !ok || bl == g.Recover {
			continue
		}
		if len(ret.Results) != 1 {
			return ""
		}
		r := b.val(retVal(ret.Results[0]))
		if r.path == "" || path != "" && path != r.path {
			return ""
		}
		path = r.path
	}
	return path
}

func neverReturns(gs []*ssa.Function) (string, bool) {
	for _, g := range gs {
		if g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" && g.Name() == "Exit" || g.Pkg.Pkg.Path() == "log" && (strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic"))) {
			return g.Name(), true
		}
	}
	return "", false
}

// deletesAll: the key is the one of a walk over the same map.
func (a *resetFn) deletesAll(ci ssa.CallInstruction) bool {
	e, ok := ci.Common().Args[1].(*ssa.Extract)
	if !ok {
		return false
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	r, ok := n.Iter.(*ssa.Range)
	return ok && a.val(r.X).path == a.val(ci.Common().Args[0]).path
}

// ---------- the state of a type ----------

var resetNames = map[string]bool{"reset": true, "restart": true, "clear": true}

func bareName(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name()
}

func isSetterName(n string) bool {
	l := strings.ToLower(n)
	for _, p := range []string{"set", "preset"} {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

func recvType(f *ssa.Function) *types.Named {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if r := f.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			return n.Origin()
		}
	}
	return nil
}

func originNamed(t types.Type) *types.Named {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		return n.Origin()
	}
	return nil
}

type resetState struct {
	w       *World
	excl    map[*ssa.Function]bool // functions that set up, reset or configure
	fields  map[*types.Var]string  // state field -> where processing changes it
	elems   map[*types.Named]string
	fns     []*ssa.Function
	callers map[*ssa.Function][]*ssa.Function
	roots   map[*ssa.Function]bool
}

func (s *resetState) isConstructor(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() != nil || !strings.HasPrefix(strings.ToLower(f.Name()), "new") {
		return false
	}
	return f.Signature.Results().Len() > 0
}

func (w *World) resetState(isRoot func(f *ssa.Function) bool) *resetState {
	s := &resetState{w: w, excl: map[*ssa.Function]bool{}, fields: map[*types.Var]string{}, elems: map[*types.Named]string{}, callers: map[*ssa.Function][]*ssa.Function{}, roots: map[*ssa.Function]bool{}}
	have := map[string]bool{}
	for _, f := range w.funcs {
		have[fnKey(f)] = true
		s.fns = append(s.fns, f)
	}
	for _, f := range w.generic {
		if !have[fnKey(f)] {
			s.fns = append(s.fns, f)
		}
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var cs []*ssa.Function
				if g := ci.Common().StaticCallee(); g != nil {
					cs = append(cs, g)
				} else {
					cs = w.pts.Callees(ci)
				}
				for _, g := range cs {
					s.callers[g] = append(s.callers[g], f)
				}
			}
		}
		if f.Parent() != nil {
			s.callers[f] = append(s.callers[f], f.Parent())
		}
	}
	base := func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return false
		}
		n := strings.ToLower(f.Name())
		return isRoot(f) || s.isConstructor(f) || resetNames[n] && f.Signature.Params().Len() == 0 || isSetterName(f.Name()) || n == "start" || n == "stop" || f.Synthetic != "" && strings.Contains(f.Synthetic, "init")
	}
	for _, f := range s.fns {
		s.excl[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range s.fns {
			if !s.excl[f] || base(f) {
				continue
			}
			ok := len(s.callers[f]) > 0
			for _, c := range s.callers[f] {
				if !s.excl[c] {
					ok = false
				}
			}
			if !ok {
				s.excl[f] = false
				changed = true
			}
		}
	}
	for _, f := range s.fns {
		if s.excl[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s.change(f, in)
			}
		}
	}
	return s
}

// addrField: the field (or the element type of a receiver) whose content is behind the address; fresh objects do not count.
func (s *resetState) addrField(v ssa.Value, d int) (*types.Var, *types.Named) {
	if d > 12 {
		return nil, nil
	}
	switch y := v.(type) {
	case *ssa.FieldAddr:
		if al, ok := y.X.(*ssa.Alloc); ok && al.Comment != "" {
			_ = al
			return nil, nil
		}
		return fieldVar(y.X.Type(), y.Field), nil
	case *ssa.IndexAddr:
		if p, ok := y.X.(*ssa.Parameter); ok {
			if n := originNamed(p.Type()); n != nil {
				if _, ok := n.Underlying().(*types.Array); ok {
					return nil, n
				}
			}
		}
		return s.addrField(y.X, d+1)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if al, ok := y.X.(*ssa.Alloc); ok {
				for _, st := range s.w.cellStores(al) {
					if fv, n := s.addrField(st, d+1); fv != nil || n != nil {
						return fv, n
					}
				}
				return nil, nil
			}
			if fv, ok := y.X.(*ssa.FreeVar); ok {
				for _, st := range s.w.cellStores(fv) {
					if fv, n := s.addrField(st, d+1); fv != nil || n != nil {
						return fv, n
					}
				}
				return nil, nil
			}
			return s.addrField(y.X, d+1)
		}
	case *ssa.Slice:
		return s.addrField(y.X, d+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if e == v {
				continue
			}
			if fv, n := s.addrField(e, d+4); fv != nil || n != nil {
				return fv, n
			}
		}
	case *ssa.ChangeType:
		return s.addrField(y.X, d+1)
	}
	return nil, nil
}

func (s *resetState) note(fv *types.Var, n *types.Named, in ssa.Instruction) {
	at := fnKey(in.Parent()) + " (" + s.w.ipos(in) + ")"
	if fv != nil && fieldOwner[fv] != "" {
		if old, ok := s.fields[fv]; !ok || at < old {
			s.fields[fv] = at
		}
	}
	if n != nil {
		if old, ok := s.elems[n]; !ok || at < old {
			s.elems[n] = at
		}
	}
}

func (s *resetState) change(f *ssa.Function, in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.Store:
		switch y.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			fv, n := s.addrField(y.Addr, 0)
			s.note(fv, n, in)
		}
	case *ssa.MapUpdate:
		fv, n := s.addrField(y.Map, 0)
		s.note(fv, n, in)
	case *ssa.Send:
		s.send(y.Chan, in)
	case *ssa.Select:
		for _, st := range y.States {
			if st.Dir == types.SendOnly {
				s.send(st.Chan, in)
			}
		}
	case ssa.CallInstruction:
		c := y.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				fv, n := s.addrField(c.Args[0], 0)
				s.note(fv, n, in)
			}
			return
		}
		// containers of other packages
		if g := c.StaticCallee(); g != nil && !s.w.inRepo(g) && g.Signature.Recv() != nil && len(c.Args) > 0 {
			if g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync" || g.Pkg.Pkg.Path() == "sync/atomic") {
				return
			}
			for _, p := range []string{"Write", "Push", "Put", "Add", "Insert"} {
				if strings.HasPrefix(g.Name(), p) {
					fv, n := s.addrField(c.Args[0], 0)
					if fv != nil {
						if nn := originNamed(fv.Type()); nn != nil && nn.Obj().Pkg() != nil && !isRepoPath(nn.Obj().Pkg().Path()) {
							if _, ok := nn.Underlying().(*types.Struct); ok {
								s.note(fv, n, in)
							}
						}
					}
				}
			}
		}
	}
}

func (s *resetState) send(ch ssa.Value, in ssa.Instruction) {
	fv, _ := s.addrField(ch, 0)
	if fv == nil || !isRepoField(fv) {
		return
	}
	for _, o := range s.w.pts.FieldContent(fv) {
		if mk, ok := o.instr.(*ssa.MakeChan); ok {
			if k, ok := constInt(mk.Size); ok && k == 0 {
				continue
			}
			s.note(fv, nil, in)
		}
	}
}

// parts lists the state of a type as paths relative to the object.
func (s *resetState) parts(t types.Type, prefix string, depth int, seen map[*types.Named]bool) map[string]string {
	res := map[string]string{}
	n := originNamed(t)
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) || depth > 5 || seen[n] {
		return res
	}
	seen[n] = true
	defer delete(seen, n)
	if at, ok := s.elems[n]; ok {
		res[prefix] = at
	}
	str, ok := n.Underlying().(*types.Struct)
	if !ok {
		return res
	}
	for i := 0; i < str.NumFields(); i++ {
		fv := str.Field(i).Origin()
		p := prefix + "." + fv.Name()
		if at, ok := s.fields[fv]; ok {
			res[p] = at
			continue
		}
		ft := types.Unalias(fv.Type())
		if _, ok := ft.Underlying().(*types.Interface); ok {
			continue
		}
		for k, v := range s.parts(ft, p, depth+1, seen) {
			res[k] = v
		}
	}
	return res
}

func (w *World) partPos(f *ssa.Function) string {
	if f.Pos() != token.NoPos {
		return w.pos(f.Pos())
	}
	return ""
}

func checkC18(w *World, r *Result) {
	r.rule("the state of a type are the fields, and the contents of fields, that any function changes which is not (only used by) a constructor, a reset, a setter or Start/Stop; parts of the state that are objects of this repository are looked into")
	r.rule("on every way out of a reset (Reset, Restart, the method that gives a listener its peak), each part of the state has been given a value that does not depend on the previous state: stored, emptied (clear, a walk over all elements or keys, a drained channel), or replaced with its container")
	r.rule("a part with a constant initial value gets the value from the constructor")
	r.rule("an object with Start and Stop but without a reset replaces or resets the resettable parts it holds (the peaks table) before its goroutine starts, or when it stops")
	r.assume("the length of a buffer with a fixed size and its capacity are configuration")
	r.assume("setters (Set*, Preset*) are configuration; whether a value computed from the configuration equals the one the constructor computes is not decided")

	inScope := func(f *ssa.Function) bool { return fnPkgIs(w, f, "rx") || fnPkgIs(w, f, "cw") || fnPkgIs(w, f, "dsp") }
	isRoot := func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Signature.Recv() == nil || !inScope(f) || f.Synthetic != "" && f.Origin() == nil {
			return false
		}
		switch f.Name() {
		case "Reset", "Restart":
			return f.Signature.Params().Len() == 0
		}
		// gives a listener its peak
		if n := recvType(f); n != nil && n.Obj().Name() == "Listener" {
			for _, p := range f.Params[1:] {
				if pn := originNamed(p.Type()); pn != nil && pn.Obj().Name() == "Peak" {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok && st.Val == p {
								if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	s := w.resetState(isRoot)
	roots := map[string]*ssa.Function{}
	var keys []string
	resettable := map[*types.Named]bool{}
	for _, f := range s.fns {
		if !isRoot(f) {
			continue
		}
		k := fnKey(f)
		if _, ok := roots[k]; ok {
			continue
		}
		roots[k] = f
		keys = append(keys, k)
		if n := recvType(f); n != nil && (f.Name() == "Reset" || f.Name() == "Restart") {
			resettable[n] = true
		}
	}
	sort.Strings(keys)
	r.count("resets", len(keys))
	var fs findings
	ctor := w.initialValues(s)
	for _, k := range keys {
		f := roots[k]
		parts := s.parts(f.Params[0].Type(), "/", 0, map[*types.Named]bool{})
		st := map[string]bool{}
		for p := range parts {
			st[p] = true
		}
		x := &resetRun{w: w, stack: map[*ssa.Function]bool{}, kept: map[string]string{}, keptAt: map[string]string{}, visited: map[*ssa.Function]bool{}}
		sum := x.analyze(f, map[ssa.Value]absV{f.Params[0]: {path: "/"}}, st, map[string]string{})
		r.count("parts of the state of resettable objects", len(parts))
		r.count("functions interpreted", len(x.visited))
		if x.steps > 20000 {
			r.incomplete(k + ": too many calls")
			continue
		}
		for _, p := range sortedKeysB(st) {
			name := strings.TrimPrefix(strings.TrimPrefix(p, "/"), ".")
			if name == "" {
				name = "the content"
			}
			r.sample("%s: %s (changed by %s)", k, name, parts[p])
			if covered(sum.done, p) {
				if v, ok := sum.done[p]; ok && v != "?" {
					if init, ok := ctor[strings.TrimPrefix(p, "/")+"@"+typeOfRecv(f)]; ok && init != "?" && normConst(v) != normConst(init) && numericOrBool(v) && numericOrBool(init) {
						fs.add("other-value", k+" "+name, w.partPos(f), fmt.Sprintf("%s sets %s to %s, but a new object starts with %s", k, name, v, init))
					}
				}
				continue
			}
			if from, ok := x.kept[p]; ok {
				fs.add("kept", k+" "+name, x.keptAt[p], fmt.Sprintf("%s sets %s to a value that depends on the previous state (%s)", k, name, strings.TrimPrefix(from, "/.")), "changed by "+parts[p])
				continue
			}
			fs.add("not-reset", k+" "+name, w.partPos(f), fmt.Sprintf("%s leaves %s as it was before, on some way out", k, name), "changed by "+parts[p])
		}
	}
	// objects that are started again
	for _, f := range s.fns {
		if f.Parent() != nil || f.Name() != "Start" || !inScope(f) || f.Signature.Recv() == nil {
			continue
		}
		n := recvType(f)
		if n == nil || resettable[n] {
			continue
		}
		str, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var stop *ssa.Function
		for _, g := range s.fns {
			if g.Parent() == nil && g.Name() == "Stop" && recvType(g) == n && g.Signature.Recv() != nil {
				stop = g
			}
		}
		for i := 0; i < str.NumFields(); i++ {
			fv := str.Field(i).Origin()
			ft := originNamed(fv.Type())
			if ft == nil || !resettable[ft] {
				continue
			}
			p := "/." + fv.Name()
			parts := s.parts(fv.Type(), p, 0, map[*types.Named]bool{})
			if len(parts) == 0 {
				continue
			}
			st := map[string]bool{}
			for q := range parts {
				st[q] = true
			}
			r.count("resettable parts of restartable objects", 1)
			missing := func(done map[string]string) string {
				for _, q := range sortedKeysB(st) {
					if !covered(done, q) {
						return q
					}
				}
				return ""
			}
			bad := ""
			goes := 0
			x := &resetRun{w: w, stack: map[*ssa.Function]bool{}, kept: map[string]string{}, keptAt: map[string]string{}, visited: map[*ssa.Function]bool{}}
			at := map[string]bool{}
			x.atGo = func(done map[string]string) {
				goes++
				if m := missing(done); m != "" {
					at[m] = true
				}
			}
			x.analyze(f, map[ssa.Value]absV{f.Params[0]: {path: "/"}}, st, map[string]string{})
			if goes == 0 {
				continue
			}
			for m := range at {
				bad = m
			}
			if bad != "" && stop != nil {
				y := &resetRun{w: w, stack: map[*ssa.Function]bool{}, kept: map[string]string{}, keptAt: map[string]string{}, visited: map[*ssa.Function]bool{}}
				// a stop of an object that does not run changes nothing
				sum := y.analyzeStop(stop, st)
				if missing(sum) == "" {
					bad = ""
				}
			}
			if bad != "" {
				fs.add("old-part", fnKey(f)+" "+fv.Name(), w.partPos(f), fmt.Sprintf("%s goes on with the %s of the previous run: neither it nor Stop replaces or resets %s", fnKey(f), fv.Name(), strings.TrimPrefix(bad, "/.")))
			}
		}
	}
	r.addAll(fs.list)
}

// analyzeStop: what is new after the way out of Stop that waits for the goroutine (the last return; early returns are for objects that do not run).
func (x *resetRun) analyzeStop(f *ssa.Function, st map[string]bool) map[string]string {
	var early []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			early = append(early, b)
		}
	}
	sum := x.analyze(f, map[ssa.Value]absV{f.Params[0]: {path: "/"}}, st, map[string]string{})
	if len(early) < 2 {
		return sum.done
	}
	// the union over the ways out: an early return is taken only if nothing was started
	res := copyDone(sum.done)
	x.perReturn(f, st, func(done map[string]string) {
		if len(done) >= len(res) {
			res = copyDone(done)
		}
	})
	return res
}

func (x *resetRun) perReturn(f *ssa.Function, st map[string]bool, g func(done map[string]string)) {
	// every block with a return: interpret what dominates it
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		a := &resetFn{x: x, f: f, state: st, param: map[ssa.Value]absV{f.Params[0]: {path: "/"}}, vals: map[ssa.Value]absV{}, memo: map[ssa.Value]bool{}, done: map[string]string{}}
		var defers []*ssa.Defer
		for _, d := range f.DomPreorder() {
			if !d.Dominates(b) {
				continue
			}
			for _, in := range d.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					a.call(c)
				case *ssa.Defer:
					defers = append(defers, c)
				default:
					a.instr(in)
				}
			}
		}
		for k := len(defers) - 1; k >= 0; k-- {
			a.call(defers[k])
		}
		g(a.done)
	}
}

func typeOfRecv(f *ssa.Function) string {
	if n := recvType(f); n != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return ""
}

func numericOrBool(s string) bool {
	if s == "true" || s == "false" || s == "zero" {
		return true
	}
	return len(s) > 0 && (s[0] >= '0' && s[0] <= '9' || s[0] == '-')
}

func normConst(s string) string {
	switch s {
	case "zero", "0", "false":
		return "0"
	}
	return s
}

// initialValues: the constant values of the direct fields of a new object, as "<.field>@pkg.Type".
func (w *World) initialValues(s *resetState) map[string]string {
	res := map[string]string{}
	for _, f := range s.fns {
		if !s.isConstructor(f) || f.Parent() != nil {
			continue
		}
		n := originNamed(f.Signature.Results().At(0).Type())
		if n == nil {
			continue
		}
		str, ok := n.Underlying().(*types.Struct)
		if !ok || n.Obj().Pkg() == nil {
			continue
		}
		// the object that is returned
		var obj *ssa.Alloc
		multi := false
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			v := ret.Results[0]
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
			al, ok := v.(*ssa.Alloc)
			if !ok || obj != nil && obj != al {
				multi = true
				continue
			}
			obj = al
		}
		if obj == nil || multi {
			continue
		}
		key := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		x := &resetRun{w: w, stack: map[*ssa.Function]bool{}, kept: map[string]string{}, keptAt: map[string]string{}, visited: map[*ssa.Function]bool{}}
		done := map[string]string{}
		for i := 0; i < str.NumFields(); i++ {
			if _, ok := str.Field(i).Type().Underlying().(*types.Basic); ok {
				done["/."+str.Field(i).Name()] = "zero"
			}
		}
		sum := x.analyze(f, map[ssa.Value]absV{obj: {path: "/"}}, map[string]bool{}, done)
		for i := 0; i < str.NumFields(); i++ {
			fn := "." + str.Field(i).Name()
			if v, ok := sum.done["/"+fn]; ok {
				k := fn + "@" + key
				if old, ok := res[k]; ok && old != v {
					v = "?"
				}
				res[k] = v
			}
		}
	}
	return res
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// closeCall: for C29, a part is closed.
func (a *resetFn) closeCall(ci ssa.CallInstruction, args []absV) bool {
	c := ci.Common()
	if isCancelFunc(c.Value.Type()) && !c.IsInvoke() {
		if p := a.val(c.Value).path; p != "" {
			a.done[p+"!"] = "?"
			return true
		}
	}
	x, ok := endCall(ci)
	if ok {
		p := a.val(x).path
		if p == "" || p == "/" {
			if p == "" && a.x.closes(a, x) {
				a.done["/."+a.x.field.Name()+"!"] = "?"
				return true
			}
			return false
		}
		a.done[p+"!"] = "?"
		return true
	}
	// functions that run a closure now or at the end
	if g := c.StaticCallee(); g != nil && !a.x.w.inRepo(g) {
		for _, v := range c.Args {
			mc, ok := v.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			h := mc.Fn.(*ssa.Function)
			if g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" {
				continue
			}
			params := map[ssa.Value]absV{}
			for i, fv := range h.FreeVars {
				params[fv] = a.val(mc.Bindings[i])
			}
			s := a.x.analyze(h, params, a.state, a.done)
			a.done = copyDone(s.done)
			return true
		}
	}
	return false
}

// ownGuard: the way out was decided by the state of the object itself.
func (a *resetFn) ownGuard(b *ssa.BasicBlock) bool {
	var dep func(v ssa.Value, d int) bool
	dep = func(v ssa.Value, d int) bool {
		if v == nil || d > 10 {
			return false
		}
		if r := a.val(v); r.path != "" && r.path != "/" {
			return true
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			return dep(y.X, d+1) || dep(y.Y, d+1)
		case *ssa.UnOp:
			return dep(y.X, d+1)
		case *ssa.Extract:
			return dep(y.Tuple, d+1)
		case *ssa.Select:
			for _, st := range y.States {
				if dep(st.Chan, d+1) {
					return true
				}
			}
		case *ssa.Call:
			for _, x := range y.Call.Args {
				if r := a.val(x); r.path != "" {
					return true
				}
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				if e != v && dep(e, d+3) {
					return true
				}
			}
		}
		return false
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || isErrCond(iff.Cond) {
			continue
		}
		if dep(iff.Cond, 0) {
			return true
		}
	}
	return false
}

func isErrCond(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (isErrorType(b.X.Type()) || isErrorType(b.Y.Type()))
}
