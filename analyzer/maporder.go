package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkC21 }

// sx is a value in the summary of one pass through a loop.
type sx struct {
	op   string
	args []*sx
	typ  types.Type
	cval constant.Value
	zero bool
	key  string
	elem bool // depends on the element of this pass
	acc  bool // depends on what earlier passes left behind
}

func mkSx(op string, typ types.Type, args ...*sx) *sx {
	s := &sx{op: op, typ: typ, args: args}
	var b strings.Builder
	b.WriteString(op)
	if len(args) > 0 {
		b.WriteString("(")
		for i, a := range args {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.key)
			s.elem = s.elem || a.elem
			s.acc = s.acc || a.acc
		}
		b.WriteString(")")
	}
	s.key = b.String()
	return s
}

type sxCond struct {
	e   *sx
	pos bool
}

type sxEffect struct {
	in   ssa.Instruction
	what string
	elem bool
}

// passPath is one way through the body of a loop.
type passPath struct {
	conds   []sxCond
	end     *ssa.BasicBlock // the block that is entered in the end: the header, or a block outside
	from    *ssa.BasicBlock
	ret     []*sx // returned directly
	isRet   bool
	cells   map[string]*sx // what is stored in places that exist longer than the pass
	cellPos map[string]ssa.Instruction
	effects []sxEffect
	env     map[ssa.Value]*sx
	maps    []mapWrite
}

type mapWrite struct {
	in       ssa.Instruction
	key, val *sx
	old      *sx
}

// passWalk enumerates the ways through the body of a loop.
type passWalk struct {
	w       *World
	l       *Loop
	rng     *ssa.Next
	paths   []*passPath
	over    bool
	unknown bool
	emits   map[*ssa.Function]string
}

type passState struct {
	env     map[ssa.Value]*sx
	mem     map[string]*sx
	cellPos map[string]ssa.Instruction
	written map[string]bool
	conds   []sxCond
	effects []sxEffect
	maps    []mapWrite
	n       int
}

func (s *passState) clone() *passState {
	c := &passState{env: map[ssa.Value]*sx{}, mem: map[string]*sx{}, cellPos: map[string]ssa.Instruction{}, written: map[string]bool{}, n: s.n}
	for k, v := range s.env {
		c.env[k] = v
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.cellPos {
		c.cellPos[k] = v
	}
	for k, v := range s.written {
		c.written[k] = v
	}
	c.conds = append(c.conds, s.conds...)
	c.effects = append(c.effects, s.effects...)
	c.maps = append(c.maps, s.maps...)
	return c
}

func (p *passWalk) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Parent() == p.l.fn && in.Block() != nil && p.l.blocks[in.Block()]
}

func (p *passWalk) val(st *passState, v ssa.Value) *sx {
	if e := st.env[v]; e != nil {
		return e
	}
	switch v := v.(type) {
	case *ssa.Const:
		s := mkSx("const:"+v.String(), v.Type())
		s.cval = v.Value
		s.zero = v.Value == nil
		return s
	case *ssa.Global:
		return mkSx("&"+v.String(), v.Type())
	case *ssa.Function:
		return mkSx("func:"+v.String(), v.Type())
	case *ssa.Builtin:
		return mkSx("builtin:"+v.Name(), v.Type())
	case *ssa.Alloc:
		return mkSx(fmt.Sprintf("alloc:%s.%s", v.Parent().Name(), v.Name()), v.Type())
	}
	if p.inLoop(v) { // not on this way: an inner loop
		s := mkSx("?"+v.Name(), v.Type())
		s.elem = true
		return s
	}
	return mkSx("outer:"+v.Name(), v.Type())
}

// cellOf: an address that is not that of the element.
func isCell(a *sx) bool {
	return !a.elem
}

func (p *passWalk) load(st *passState, a *sx, typ types.Type) *sx {
	if v := st.mem[a.key]; v != nil {
		return v
	}
	if strings.HasPrefix(a.op, "&") && len(a.args) == 0 && isCallsignType(typ) { // callsign.NoCallsign
		s := mkSx("none", typ)
		s.zero = true
		return s
	}
	// a part of something that was stored as a whole
	if a.op == "fieldaddr" || strings.HasPrefix(a.op, "field:") {
		if len(a.args) == 1 {
			if v := st.mem[a.args[0].key]; v != nil {
				return mkSx(strings.Replace(a.op, "field:", "part:", 1), typ, v)
			}
		}
	}
	s := mkSx("*", typ, a)
	return s
}

const maxPassPaths = 4000

func (p *passWalk) step(st *passState, in ssa.Instruction, depth int) (next []*passState, done bool) {
	set := func(v ssa.Value, s *sx) { st.env[v] = s }
	switch in := in.(type) {
	case *ssa.Next:
		if in == p.rng {
			ok := mkSx("more", types.Typ[types.Bool])
			k := mkSx("key", nil)
			v := mkSx("value", nil)
			k.elem, v.elem = true, true
			t := mkSx("tuple", nil, ok, k, v)
			set(in, t)
			return
		}
		t := mkSx("next", nil, p.opaque(st, in, true), p.opaque(st, in, true), p.opaque(st, in, true))
		set(in, t)
	case *ssa.Extract:
		t := p.val(st, in.Tuple)
		if (t.op == "tuple" || t.op == "next") && in.Index < len(t.args) {
			set(in, t.args[in.Index])
			return
		}
		set(in, mkSx(fmt.Sprintf("#%d", in.Index), in.Type(), t))
	case *ssa.BinOp:
		set(in, mkSx(in.Op.String(), in.Type(), p.val(st, in.X), p.val(st, in.Y)))
	case *ssa.UnOp:
		x := p.val(st, in.X)
		if in.Op == token.MUL {
			set(in, p.load(st, x, in.Type()))
			return
		}
		if in.Op == token.ARROW {
			s := mkSx("recv", in.Type(), x)
			s.elem = true
			st.effects = append(st.effects, sxEffect{in: in, what: "receive", elem: x.elem})
			set(in, s)
			return
		}
		set(in, mkSx(in.Op.String(), in.Type(), x))
	case *ssa.FieldAddr:
		x := p.val(st, in.X)
		set(in, mkSx(fmt.Sprintf("field:%d", in.Field), in.Type(), x))
	case *ssa.Field:
		set(in, mkSx(fmt.Sprintf("part:%d", in.Field), in.Type(), p.val(st, in.X)))
	case *ssa.IndexAddr:
		set(in, mkSx("index", in.Type(), p.val(st, in.X), p.val(st, in.Index)))
	case *ssa.Index:
		set(in, mkSx("at", in.Type(), p.val(st, in.X), p.val(st, in.Index)))
	case *ssa.Lookup:
		l := mkSx("lookup", in.Type(), p.val(st, in.X), p.val(st, in.Index))
		l.acc = l.acc || st.written["map:"+l.args[0].key]
		set(in, l)
	case *ssa.ChangeType:
		set(in, p.val(st, in.X))
	case *ssa.Convert:
		set(in, mkSx("conv", in.Type(), p.val(st, in.X)))
	case *ssa.MakeInterface:
		set(in, mkSx("iface", in.Type(), p.val(st, in.X)))
	case *ssa.ChangeInterface:
		set(in, p.val(st, in.X))
	case *ssa.Slice:
		set(in, mkSx("slice", in.Type(), p.val(st, in.X)))
	case *ssa.Alloc:
		s := p.val(st, in)
		for k := range st.mem { // a new one in each pass
			if strings.Contains(k, s.key) {
				delete(st.mem, k)
			}
		}
		z := mkSx("zero:"+typeStr(deref(in.Type())), deref(in.Type()))
		z.zero = true
		st.mem[s.key] = z
		n := *s
		n.elem = true // belongs to this pass
		set(in, &n)
	case *ssa.Store:
		a, v := p.val(st, in.Addr), p.val(st, in.Val)
		st.mem[a.key] = v
		st.written[a.key] = true
		if isCell(a) {
			st.cellPos[a.key] = in
		}
	case *ssa.MapUpdate:
		m, k, v := p.val(st, in.Map), p.val(st, in.Key), p.val(st, in.Value)
		if !m.elem {
			st.maps = append(st.maps, mapWrite{in: in, key: k, val: v, old: m})
			st.written["map:"+m.key] = true
		}
	case *ssa.Send:
		st.effects = append(st.effects, sxEffect{in: in, what: "send", elem: p.val(st, in.Chan).elem})
	case *ssa.Go, *ssa.Defer:
		st.effects = append(st.effects, sxEffect{in: in, what: "go"})
	case *ssa.Call:
		return p.call(st, in, depth)
	case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.RunDefers, *ssa.Panic:
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, p.opaque(st, in, false))
		}
	}
	return
}

func (p *passWalk) opaque(st *passState, in ssa.Instruction, elem bool) *sx {
	st.n++
	var args []*sx
	for _, o := range in.Operands(nil) {
		if *o != nil {
			args = append(args, p.val(st, *o))
		}
	}
	s := mkSx(fmt.Sprintf("!%d", st.n), nil, args...)
	if v, ok := in.(ssa.Value); ok {
		s.typ = v.Type()
	}
	s.elem = s.elem || elem
	return s
}

func (p *passWalk) call(st *passState, in *ssa.Call, depth int) ([]*passState, bool) {
	c := in.Common()
	var args []*sx
	if c.IsInvoke() {
		args = append(args, p.val(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, p.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !args[0].elem {
				st.maps = append(st.maps, mapWrite{in: in, key: args[1], old: args[0]})
			}
			return nil, false
		case "append":
			rest := args[1:]
			if len(rest) == 1 { // the slice that holds the new elements
				for k, v := range st.mem {
					if strings.HasPrefix(k, "index(") && len(rest[0].args) == 1 && strings.HasPrefix(k, "index("+rest[0].args[0].key) {
						rest = append(rest, v)
					}
				}
			}
			st.env[in] = mkSx("append", in.Type(), append([]*sx{args[0]}, rest...)...)
			return nil, false
		case "clear", "copy", "close", "print", "println":
			if b.Name() == "clear" || b.Name() == "copy" {
				st.effects = append(st.effects, sxEffect{in: in, what: b.Name(), elem: args[0].elem})
			}
		}
		st.env[in] = mkSx(b.Name(), in.Type(), args...)
		return nil, false
	}
	if repCall(in) != "" {
		st.effects = append(st.effects, sxEffect{in: in, what: "report", elem: args[0].elem})
	}
	if c.IsInvoke() {
		name := c.Method.Name()
		switch {
		case strings.HasPrefix(name, "Write"), name == "Spot", strings.HasPrefix(name, "Report"):
			if repCall(in) == "" {
				st.effects = append(st.effects, sxEffect{in: in, what: "report", elem: args[0].elem})
			}
		}
		st.env[in] = mkSx("invoke:"+name, in.Type(), args...)
		return nil, false
	}
	g := c.StaticCallee()
	if g == nil {
		st.effects = append(st.effects, sxEffect{in: in, what: "unknown", elem: true})
		st.env[in] = p.opaque(st, in, true)
		return nil, false
	}
	if !p.w.inRepo(g) {
		full := g.String()
		if strings.HasPrefix(full, "fmt.Fprint") {
			st.effects = append(st.effects, sxEffect{in: in, what: "report", elem: args[0].elem})
		}
		name := full
		if g.Origin() != nil {
			name = g.Origin().String()
		}
		st.env[in] = mkSx("call:"+name, in.Type(), args...)
		return nil, false
	}
	// a small helper: followed
	if depth < 3 && len(g.Blocks) > 0 && len(g.Blocks) <= 24 && len(loopsOf(g)) == 0 && len(args) == len(g.Params) && p.emits[g] == "" {
		return p.inline(st, in, g, args, depth)
	}
	if why := p.emits[g]; why != "" {
		elem := len(args) > 0 && g.Signature.Recv() != nil && args[0].elem
		st.effects = append(st.effects, sxEffect{in: in, what: why, elem: elem})
	}
	s := mkSx("call:"+fnKey(g), in.Type(), args...)
	st.env[in] = s
	return nil, false
}

// inline follows a call; the result are the states after it.
func (p *passWalk) inline(st *passState, in *ssa.Call, g *ssa.Function, args []*sx, depth int) ([]*passState, bool) {
	for i, q := range g.Params {
		st.env[q] = args[i]
	}
	if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		for i, fv := range g.FreeVars {
			if i < len(mc.Bindings) {
				st.env[fv] = p.val(st, mc.Bindings[i])
			}
		}
	}
	var out []*passState
	var run func(st *passState, b, from *ssa.BasicBlock, d int)
	run = func(st *passState, b, from *ssa.BasicBlock, d int) {
		if d > 40 || len(out) > maxPassPaths {
			p.over = true
			return
		}
		p.phis(st, b, from)
		p.block(st, b, 0, depth+1, func(st *passState) {
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				var res []*sx
				for _, r := range last.Results {
					res = append(res, p.val(st, r))
				}
				switch len(res) {
				case 0:
				case 1:
					st.env[in] = res[0]
				default:
					st.env[in] = mkSx("tuple", nil, res...)
				}
				out = append(out, st)
			case *ssa.If:
				c := p.val(st, last.Cond)
				for i, s := range b.Succs {
					n := st.clone()
					if p.branch(n, c, i == 0) {
						run(n, s, b, d+1)
					}
				}
			case *ssa.Panic:
			default:
				for _, s := range b.Succs {
					run(st.clone(), s, b, d+1)
				}
			}
		})
	}
	run(st.clone(), g.Blocks[0], nil, 0)
	return out, true
}

func (p *passWalk) phis(st *passState, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, q := range b.Preds {
		if q == from {
			pi = i
		}
	}
	vals := map[ssa.Value]*sx{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			vals[phi] = p.val(st, phi.Edges[pi])
		}
	}
	for k, v := range vals {
		st.env[k] = v
	}
}

// block executes the instructions from the given one and calls what follows for each state.
func (p *passWalk) block(st *passState, b *ssa.BasicBlock, i, depth int, then func(st *passState)) {
	for ; i < len(b.Instrs); i++ {
		next, split := p.step(st, b.Instrs[i], depth)
		if split {
			for _, n := range next {
				p.block(n, b, i+1, depth, then)
			}
			return
		}
	}
	then(st)
}

// branch notes a condition; false if it contradicts an earlier one.
func (p *passWalk) branch(st *passState, c *sx, taken bool) bool {
	for c.op == "!" && len(c.args) == 1 {
		c, taken = c.args[0], !taken
	}
	if c.cval != nil && c.cval.Kind() == constant.Bool {
		return constant.BoolVal(c.cval) == taken
	}
	for _, o := range st.conds {
		if o.e.key == c.key {
			return o.pos == taken
		}
	}
	st.conds = append(st.conds, sxCond{c, taken})
	return true
}

func (p *passWalk) run() {
	l := p.l
	inner := map[*ssa.BasicBlock]bool{}
	for _, o := range loopsOf(l.fn) {
		if o.header != l.header && l.blocks[o.header] {
			inner[o.header] = true
		}
	}
	st := &passState{env: map[ssa.Value]*sx{}, mem: map[string]*sx{}, cellPos: map[string]ssa.Instruction{}, written: map[string]bool{}}
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			s := mkSx("acc:"+phi.Name(), phi.Type())
			s.acc = true
			st.env[phi] = s
		}
	}
	// places that are changed in the loop: what is there is left by earlier passes
	for _, a := range p.changedCells() {
		s := mkSx("old:"+a.key, a.typ)
		s.acc = true
		st.mem[a.key] = s
	}
	var walk func(st *passState, b, from *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, d int)
	walk = func(st *passState, b, from *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, d int) {
		if d > 200 || len(p.paths) > maxPassPaths {
			p.over = true
			return
		}
		if d > 0 && (b == l.header || !l.blocks[b]) {
			p.paths = append(p.paths, &passPath{conds: st.conds, end: b, from: from, cells: st.mem, cellPos: st.cellPos, effects: st.effects, env: st.env, maps: st.maps})
			return
		}
		if d > 0 {
			if inner[b] {
				if seen[b] {
					return
				}
				s2 := map[*ssa.BasicBlock]bool{b: true}
				for k := range seen {
					s2[k] = true
				}
				seen = s2
				for _, in := range b.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						s := mkSx("inner:"+phi.Name(), phi.Type())
						s.elem = true
						st.env[phi] = s
					}
				}
			} else {
				p.phis(st, b, from)
			}
		}
		p.block(st, b, 0, 0, func(st *passState) {
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				q := &passPath{conds: st.conds, isRet: true, from: b, cells: st.mem, cellPos: st.cellPos, effects: st.effects, env: st.env, maps: st.maps}
				for _, r := range last.Results {
					q.ret = append(q.ret, p.val(st, r))
				}
				p.paths = append(p.paths, q)
			case *ssa.If:
				c := p.val(st, last.Cond)
				for i, s := range b.Succs {
					if b == l.header && !l.blocks[s] {
						continue // the end of the walk
					}
					n := st.clone()
					if c.op == "more" {
						if i == 0 {
							walk(n, s, b, seen, d+1)
						}
						continue
					}
					if p.branch(n, c, i == 0) {
						walk(n, s, b, seen, d+1)
					}
				}
			case *ssa.Panic:
			default:
				for _, s := range b.Succs {
					walk(st.clone(), s, b, seen, d+1)
				}
			}
		})
	}
	walk(st, l.header, nil, map[*ssa.BasicBlock]bool{}, 0)
}

// changedCells: the addresses outside of the element that are stored to in the loop.
func (p *passWalk) changedCells() []*sx {
	st := &passState{env: map[ssa.Value]*sx{}, mem: map[string]*sx{}, cellPos: map[string]ssa.Instruction{}, written: map[string]bool{}}
	var res []*sx
	var addr func(v ssa.Value, d int) *sx
	addr = func(v ssa.Value, d int) *sx {
		if d > 5 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Alloc:
			if p.inLoop(v) {
				return nil
			}
			return p.val(st, v)
		case *ssa.Global:
			return p.val(st, v)
		case *ssa.FieldAddr:
			if x := addr(v.X, d+1); x != nil {
				return mkSx(fmt.Sprintf("field:%d", v.Field), v.Type(), x)
			}
		case *ssa.Parameter, *ssa.FreeVar:
			return p.val(st, v)
		case *ssa.UnOp:
			if !p.inLoop(v) {
				return p.val(st, v)
			}
			if v.Op == token.MUL {
				if x := addr(v.X, d+1); x != nil {
					return mkSx("*", v.Type(), x)
				}
			}
		}
		return nil
	}
	for b := range p.l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a := addr(s.Addr, 0); a != nil {
					t := *a
					t.typ = s.Val.Type()
					res = append(res, &t)
				}
			}
		}
	}
	return res
}

// emitters: the functions of the repository that report or write something.
func (w *World) emitters() map[*ssa.Function]string {
	direct := map[*ssa.Function]string{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if repCall(in) != "" {
					direct[f] = "report"
				}
				if c.Common().IsInvoke() && (strings.HasPrefix(c.Common().Method.Name(), "Write") || c.Common().Method.Name() == "Spot") {
					direct[f] = "report"
				}
			}
		}
	}
	res := map[*ssa.Function]string{}
	for _, f := range w.funcs {
		for g := range w.reachableFrom([]*ssa.Function{f}, false, nil) {
			if direct[g] != "" {
				res[f] = direct[g]
			}
		}
	}
	return res
}

const (
	relLt = 1
	relEq = 2
	relGt = 4
)

// decided: the conditions of a way settle strictly how the element compares with what earlier passes selected,
// or that nothing was selected yet. The second result: some condition looks at earlier passes; the third: something was not understood.
func decidedPath(conds []sxCond, init map[string]*sx) (decided, looks, unknown bool) {
	rel := map[string]int{}
	strs := map[string]bool{}
	for _, c := range conds {
		e := c.e
		if !e.acc {
			continue
		}
		looks = true
		op := e.op
		// x.Before(y), x.After(y), x.Equal(y), strings.Compare, ...
		if len(e.args) == 2 && strings.HasPrefix(op, "call:") {
			switch {
			case strings.HasSuffix(op, ").Before"):
				op = "<"
			case strings.HasSuffix(op, ").After"):
				op = ">"
			case strings.HasSuffix(op, ").Equal"):
				op = "=="
			case strings.HasSuffix(op, "cmp.Less"):
				op = "<"
			}
		}
		if op == "!=" {
			op = "=="
			c.pos = !c.pos
		}
		if len(e.args) != 2 || !strings.Contains(" < > <= >= == ", " "+op+" ") {
			switch {
			case len(e.args) == 0 && init[e.key] != nil: // a flag
				if i := init[e.key]; i.cval != nil && i.cval.Kind() == constant.Bool && constant.BoolVal(i.cval) == c.pos {
					decided = true
				}
			case len(e.args) == 0:
			case e.elem:
				unknown = true
			}
			continue
		}
		x, y := e.args[0], e.args[1]
		// the result of a comparison function
		for i, o := range []*sx{x, y} {
			k := e.args[1-i]
			if k.cval != nil && strings.HasPrefix(o.op, "call:") && len(o.args) == 2 && (strings.HasSuffix(o.op, ".Compare") || strings.HasSuffix(o.op, ".CompareFold")) && o.elem && o.acc {
				a := o.args[0]
				if isStringy(a.typ) {
					strs[o.key] = true
					decided = true
				} else {
					unknown = false
				}
				x = nil
			}
		}
		if x == nil {
			if !decided {
				unknown = true
			}
			continue
		}
		switch {
		case x.elem && y.acc && !x.acc && !y.elem, x.acc && y.elem && !x.elem && !y.acc:
			if x.elem {
				x, y = y, x
				op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}[op]
			}
			if isStringy(x.typ) || isStringy(y.typ) || isCallsignType2(x.typ) || y.key == "key" || isUniqueKey(y) {
				decided = true
				continue
			}
			k := x.key + "|" + y.key
			if _, ok := rel[k]; !ok {
				rel[k] = relLt | relEq | relGt
			}
			m := map[string]int{"<": relLt, "<=": relLt | relEq, "==": relEq, ">": relGt, ">=": relGt | relEq}[op]
			if !c.pos {
				m = 7 &^ m
			}
			rel[k] &= m
		case x.elem && x.acc || y.elem && y.acc: // e.g. a difference
			unknown = true
		default: // what was selected, compared with a constant
			a, k := x, y
			if !a.acc {
				a, k = y, x
			}
			if op == "==" && c.pos && (k.zero || k.cval != nil && init[a.key] != nil && init[a.key].cval != nil && constant.Compare(k.cval, token.EQL, init[a.key].cval)) {
				decided = true
			}
			if i := init[a.key]; i != nil && i.cval != nil && k.cval != nil && op != "==" { // e.g. best < 0 with -1 in the beginning
				o := map[string]token.Token{"<": token.LSS, ">": token.GTR, "<=": token.LEQ, ">=": token.GEQ}[op]
				l, r := i.cval, k.cval
				if a == y {
					l, r = r, l
				}
				if l.Kind() == r.Kind() && l.Kind() != constant.Bool && constant.Compare(l, o, r) == c.pos {
					decided = true
				}
			}
			if op == "==" && c.pos && a.op == "len" && k.cval != nil && k.cval.ExactString() == "0" {
				decided = true
			}
		}
	}
	for _, m := range rel {
		if m&relEq == 0 {
			decided = true
		}
	}
	return
}

func isStringy(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isCallsignType2(t types.Type) bool { return t != nil && isCallsignType(t) }

// isUniqueKey: the key of the map, converted.
func isUniqueKey(e *sx) bool {
	switch {
	case e.key == "key":
		return true
	case e.op == "conv" || e.op == "iface" || e.op == "slice":
		return len(e.args) > 0 && isUniqueKey(e.args[0])
	case strings.HasSuffix(e.op, ".String"), strings.HasPrefix(e.op, "call:fmt.Sprint"), strings.HasSuffix(e.op, ".Itoa"), strings.HasSuffix(e.op, ".FormatInt"):
		for _, a := range e.args {
			if isUniqueKey(a) {
				return true
			}
		}
	}
	return false
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// commutes: the new value is the old one combined with something of the element, in a way that does not depend on the order.
func commutes(old, n *sx) bool {
	if n.key == old.key {
		return true
	}
	switch n.op {
	case "+", "-", "|", "&", "^", "*":
		if isStringy(n.typ) {
			return false
		}
		for i, a := range n.args {
			o := n.args[1-i]
			if a.key == old.key && !o.acc && (n.op != "-" || i == 0) {
				return true
			}
			if !o.acc && commutes(old, a) && a.key != old.key && n.op == a.op {
				return true
			}
		}
	case "min", "max":
		has := false
		for _, a := range n.args {
			if a.key == old.key {
				has = true
			} else if a.acc {
				return false
			}
		}
		return has
	}
	return false
}

func checkC21(w *World, r *Result) {
	r.rule("A walk through a map, and what it leaves behind, does not depend on the order: entries are only selected by a comparison that is decided for any two of them (a strict comparison, or a tie broken by the unique text or key), sums and flags are commutative, other maps are written by the key of the walk (or the decode table, whose keys are unique by C23), lists are sorted before they are used, the walk is left early only with the same result for every element, and nothing is reported or sent in the order of the walk.")
	r.rule("Random numbers are only used for the choice of the next peak. Neither the wall clock (the input's own times come from the receiver's clock) nor the environment decides which callsign is spotted.")
	r.assume("the packages rx, cw, dsp, tci, kiwi and telnet decide what is spotted; what is drawn in the scope may depend on the order of a map")
	var out findings
	defer func() { r.addAll(out.list) }()
	emits := w.emitters()
	in := func(f *ssa.Function) bool {
		switch shortPkg(fnPkg(f)) {
		case "rx", "cw", "dsp", "tci", "kiwi", "telnet":
			return true
		}
		return false
	}
	w.clockUse(r, &out)
	for _, f := range w.funcs {
		if !in(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if rg, ok := i.(*ssa.Range); ok {
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						w.mapWalk(r, &out, f, rg, emits)
					}
				}
				if c, ok := i.(*ssa.Call); ok {
					w.unsortedKeys(r, &out, c)
					w.randomUse(r, &out, c)
				}
			}
		}
	}
}

// clockUse: what is found in a text does not depend on the time at which it is looked at, nor on anything else from outside.
func (w *World) clockUse(r *Result, out *findings) {
	own := map[*ssa.Function]bool{}
	var follow func(f *ssa.Function)
	follow = func(f *ssa.Function) {
		if own[f] || !w.inRepo(f) || shortPkg(fnPkg(f)) != "rx" {
			return
		}
		own[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
					for _, g := range w.pts.Callees(c) {
						follow(g)
					}
				}
			}
		}
	}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if repCall(in) == "spotted" && fnPkgIs(w, f, "rx") {
					follow(f)
				}
			}
		}
	}
	r.count("functions that choose the callsign to spot", len(own))
	for f := range own {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := ""
				if g := c.Call.StaticCallee(); g != nil {
					switch g.String() {
					case "time.Now", "time.Since", "time.Until":
						name = "the wall clock"
					case "os.Getenv", "os.LookupEnv", "os.Getpid", "os.Hostname", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS":
						name = g.String()
					}
				}
				if name == "" {
					continue
				}
				fl := newFlow(w)
				fl.reach = own
				fl.vals[c] = true
				fl.run()
				for g := range own {
					for _, gb := range g.Blocks {
						last, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.If)
						if !ok {
							continue
						}
						hit := fl.carries(last.Cond)
						if bo, ok := last.Cond.(*ssa.BinOp); ok {
							hit = hit || fl.carries(bo.X) || fl.carries(bo.Y)
						}
						if hit {
							out.add("clock", "clock:"+fnKey(f), w.ipos(c), fmt.Sprintf("%s lets %s decide which callsign is spotted", fnKey(f), name), "decided at "+w.ipos(last))
						}
					}
				}
			}
		}
	}
}

// randomUse: random numbers only choose peaks.
func (w *World) randomUse(r *Result, out *findings, c *ssa.Call) {
	g := c.Call.StaticCallee()
	if g == nil || g.Pkg == nil && (g.Origin() == nil || g.Origin().Pkg == nil) {
		return
	}
	p := g.Pkg
	if p == nil {
		p = g.Origin().Pkg
	}
	if pp := p.Pkg.Path(); pp != "math/rand" && pp != "math/rand/v2" && pp != "crypto/rand" {
		return
	}
	r.count("uses of random numbers", 1)
	// in what belongs to the peaks: everything on the way from callers that return peaks
	var ok func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	peaky := func(f *ssa.Function) bool {
		has := func(t types.Type) bool {
			n := namedOf(deref(t))
			return n != nil && strings.Contains(strings.ToLower(n.Obj().Name()), "peak")
		}
		if f.Signature.Recv() != nil && has(f.Signature.Recv().Type()) {
			return true
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if has(t) {
				return true
			}
		}
		return false
	}
	ok = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		if peaky(f) {
			return true
		}
		if f.Parent() != nil && peaky(f.Parent()) {
			return true
		}
		callers := w.callers().sync[f]
		if len(callers) == 0 {
			return f.Parent() == nil && f.Name() != "init" && !w.callers().spawn[f] && !isExportedFn(f)
		}
		for _, g := range callers {
			if !ok(g, seen) {
				return false
			}
		}
		return true
	}
	f := c.Parent()
	if f.Name() == "init" || ok(f, map[*ssa.Function]bool{}) {
		return
	}
	out.add("random", "random:"+fnKey(f), w.ipos(c), fmt.Sprintf("%s uses random numbers; only the choice of the next peak may be random", fnKey(f)))
}

func isExportedFn(f *ssa.Function) bool { return token.IsExported(f.Name()) }

// sortCall: the call sorts its argument; total tells whether different elements never compare as equal.
func (w *World) sortCall(c ssa.CallInstruction) (sorts bool, total int) {
	g := c.Common().StaticCallee()
	if g == nil {
		return false, 0
	}
	name := g.String()
	if g.Origin() != nil {
		name = g.Origin().String()
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true, 1
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		// does the comparison look at something unique?
		total = -1
		fns := map[*ssa.Function]bool{}
		for _, a := range c.Common().Args {
			for _, h := range w.pts.FuncsOf(a) {
				fns[h] = true
			}
			if mc, ok := a.(*ssa.MakeClosure); ok {
				fns[mc.Fn.(*ssa.Function)] = true
			}
			if h, ok := a.(*ssa.Function); ok {
				fns[h] = true
			}
		}
		for h := range fns {
			for k := range w.reachableFrom([]*ssa.Function{h}, false, nil) {
				for _, b := range k.Blocks {
					for _, in := range b.Instrs {
						switch in := in.(type) {
						case *ssa.BinOp:
							if isStringy(in.X.Type()) && (in.Op == token.LSS || in.Op == token.GTR || in.Op == token.LEQ || in.Op == token.GEQ) {
								total = 1
							}
						case *ssa.Call:
							if q := in.Call.StaticCallee(); q != nil && strings.HasSuffix(strings.Split(q.String(), "[")[0], ".Compare") && len(in.Call.Args) == 2 && isStringy(in.Call.Args[0].Type()) {
								total = 1
							}
						}
					}
				}
			}
		}
		if len(fns) == 0 {
			total = 0
		}
		return true, total
	case "sort.Sort", "sort.Stable":
		return true, 0
	}
	return false, 0
}

// unsortedKeys: slices.Collect(maps.Keys(m)) in the order of the map.
func (w *World) unsortedKeys(r *Result, out *findings, c *ssa.Call) {
	name := func(v ssa.Value) (string, *ssa.Call) {
		c, ok := v.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return "", nil
		}
		g := c.Call.StaticCallee()
		if g.Origin() != nil {
			g = g.Origin()
		}
		return g.String(), c
	}
	n, _ := name(c)
	if n != "slices.Collect" && n != "slices.AppendSeq" {
		return
	}
	for _, a := range c.Call.Args {
		if m, _ := name(a); m == "maps.Keys" || m == "maps.Values" {
			r.count("lists of the keys or values of a map", 1)
			w.mustBeSorted(r, out, c, c.Parent(), nil)
		}
	}
}

// mustBeSorted: the list is sorted before anything else looks at its elements.
func (w *World) mustBeSorted(r *Result, out *findings, v ssa.Value, f *ssa.Function, l *Loop) {
	var sorters, others []ssa.Instruction
	total := 1
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if l != nil && l.blocks[ref.Block()] {
				if p, ok := ref.(*ssa.Phi); ok && !seen[p] && p.Block() != l.header {
					continue
				}
				continue
			}
			switch ref := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				uses(ref)
			case *ssa.ChangeType:
				uses(ref)
			case *ssa.MakeInterface:
				uses(ref)
			case *ssa.Store:
				if a, ok := ref.Addr.(*ssa.Alloc); ok && ref.Val == v {
					for _, r2 := range *a.Referrers() {
						switch r2 := r2.(type) {
						case *ssa.UnOp:
							if l == nil || !l.blocks[r2.Block()] {
								uses(r2)
							}
						}
					}
					continue
				}
				others = append(others, ref)
			case ssa.CallInstruction:
				if b, ok := ref.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if s, t := w.sortCall(ref); s {
					sorters = append(sorters, ref)
					if t < total {
						total = t
					}
					continue
				}
				others = append(others, ref)
			default:
				others = append(others, ref)
			}
		}
	}
	uses(v)
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			for _, in := range a.Block().Instrs {
				if in == a {
					return true
				}
				if in == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	for _, o := range others {
		ok := false
		for _, s := range sorters {
			ok = ok || before(s, o)
		}
		if !ok {
			out.add("unsorted", "unsorted:"+fnKey(f), w.ipos(o), fmt.Sprintf("%s uses a list that is in the order of a walk through a map", fnKey(f)))
			return
		}
	}
	if len(others) > 0 && total < 0 {
		out.add("unstable", "unstable:"+fnKey(f), w.ipos(sorters[0]), fmt.Sprintf("%s sorts a list that comes from a walk through a map, but elements that compare as equal stay in the order of the map", fnKey(f)))
	}
	if total == 0 {
		r.assume("how " + fnKey(f) + " sorts was not understood")
	}
}

func (w *World) mapWalk(r *Result, out *findings, f *ssa.Function, rg *ssa.Range, emits map[*ssa.Function]string) {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	l := loopWithHeader(next.Block())
	if l == nil {
		// the body always leaves: one element only
		used := false
		for _, ref := range *next.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index > 0 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
				used = true
			}
		}
		if used {
			out.add("first", "first:"+fnKey(f), w.ipos(next), fmt.Sprintf("%s takes the first entry of a map: which one is that depends on the order of the map", fnKey(f)))
		}
		return
	}
	r.count("walks through maps", 1)
	p := &passWalk{w: w, l: l, rng: next, emits: emits}
	p.run()
	r.count("ways through the body of such a walk", len(p.paths))
	if p.over {
		r.incomplete("too many ways through the walk in " + fnKey(f))
		return
	}
	name := fnKey(f)
	add := func(rule string, in ssa.Instruction, pos, msg string) {
		if pos == "" && in != nil {
			pos = w.ipos(in)
		}
		if pos == "" {
			pos = w.loopPos(l)
		}
		out.add(rule, rule+":"+name, pos, name+": "+msg)
	}
	// what the passes leave behind
	type accum struct {
		name string
		old  *sx
		val  func(q *passPath) *sx
		pos  func(q *passPath) (ssa.Instruction, string)
		phi  *ssa.Phi
		init *sx
		cell string
	}
	init := map[string]*sx{}
	var accs []*accum
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a := &accum{name: phi.Comment, phi: phi}
		a.old = &sx{key: "acc:" + phi.Name(), typ: phi.Type()}
		for i, e := range phi.Edges {
			if !l.blocks[l.header.Preds[i]] {
				a.init = p.val(&passState{env: map[ssa.Value]*sx{}, mem: map[string]*sx{}}, e)
				init[a.old.key] = a.init
			}
		}
		a.val = func(q *passPath) *sx {
			for i, pr := range l.header.Preds {
				if pr == q.from {
					return p.val(&passState{env: q.env}, phi.Edges[i])
				}
			}
			return nil
		}
		a.pos = func(q *passPath) (ssa.Instruction, string) { return nil, w.pos(phi.Pos()) }
		accs = append(accs, a)
	}
	cells := map[string]types.Type{}
	for _, q := range p.paths {
		for k, in := range q.cellPos {
			cells[k] = in.(*ssa.Store).Val.Type()
		}
	}
	var cellKeys []string
	for k := range cells {
		cellKeys = append(cellKeys, k)
	}
	sort.Strings(cellKeys)
	for _, k := range cellKeys {
		k := k
		a := &accum{name: k, cell: k}
		a.old = &sx{key: "old:" + k, typ: cells[k]}
		init[a.old.key] = cellInit(w, l, k)
		a.val = func(q *passPath) *sx {
			if q.cellPos[k] == nil {
				return a.old
			}
			return q.cells[k]
		}
		a.pos = func(q *passPath) (ssa.Instruction, string) { return q.cellPos[k], "" }
		accs = append(accs, a)
	}
	var lists []*accum
	selected := map[string]bool{}
	for _, a := range accs {
		isList := true
		for _, q := range p.paths {
			if q.end != l.header {
				continue
			}
			v := a.val(q)
			if v == nil {
				continue
			}
			if v.key != a.old.key && !(v.op == "append" && v.args[0].key == a.old.key) {
				isList = false
			}
		}
		if _, sl := a.old.typ.Underlying().(*types.Slice); sl && isList {
			lists = append(lists, a)
			continue
		}
		for _, q := range p.paths {
			if q.end != l.header {
				continue
			}
			if v := a.val(q); v != nil && v.key != a.old.key && v.elem && !commutes(a.old, v) {
				selected[a.old.key] = true
			}
		}
	}
	// a running maximum may be part of a selection
	for _, q := range p.paths {
		if q.end != l.header {
			continue
		}
		decided, looks, unknown := decidedPath(q.conds, init)
		changed := ""
		var at ssa.Instruction
		pos := ""
		for _, a := range accs {
			v := a.val(q)
			if v == nil || v.key == a.old.key {
				continue
			}
			if selected[a.old.key] {
				changed = a.name
				at, pos = a.pos(q)
			} else if looks && !decided && !unknown && !v.elem && len(selected) == 0 && v.acc {
				// counted under a condition on earlier passes only
				continue
			}
		}
		switch {
		case len(selected) == 0:
		case unknown && !decided:
			r.assume("how " + name + " compares the entries of the map was not understood completely")
		case changed != "" && !decided && looks:
			add("tie", at, pos, "when two entries of the map are equally good, the one that comes last in the walk is taken: the result depends on the order of the map")
		case changed != "" && !decided:
			add("last", at, pos, "the last entry of the walk through the map is taken: the result depends on the order of the map")
		case changed == "" && !decided && looks:
			// running maximum only: no identity is selected
			onlyMax := true
			for k := range selected {
				onlyMax = onlyMax && maxOnly(p, l, k, accs2(accs, func(a *accum) (string, func(*passPath) *sx) { return a.old.key, a.val }))
			}
			if !onlyMax {
				add("tie", nil, "", "when two entries of the map are equally good, the one that comes first in the walk is taken: the result depends on the order of the map")
			}
		}
		if len(selected) == 0 && looks && !decided && !unknown {
			// what is collected depends on how many came before
			for _, a := range lists {
				differs := false
				for _, q2 := range p.paths {
					if q2.end == l.header && (a.val(q2) != nil && a.val(q2).key != a.old.key) != (a.val(q) != nil && a.val(q).key != a.old.key) {
						differs = true
					}
				}
				if differs {
					add("limit", nil, "", "which entries of the map are collected depends on the order of the map")
				}
			}
		}
	}
	// leaving early
	for _, q := range p.paths {
		if q.end == l.header {
			continue
		}
		bad := ""
		if q.isRet {
			for _, v := range q.ret {
				if v.elem || v.acc {
					bad = "it returns what the walk found until then"
				}
			}
		} else {
			for _, in := range q.end.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range q.end.Preds {
					if pr == q.from {
						if v := p.val(&passState{env: q.env}, phi.Edges[i]); v.elem || v.acc {
							bad = "it keeps what the walk found until then"
						}
					}
				}
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || v.Referrers() == nil {
						continue
					}
					for _, ref := range *v.Referrers() {
						if ref.Block() == nil || l.blocks[ref.Block()] {
							continue
						}
						if _, isPhi := ref.(*ssa.Phi); isPhi {
							continue
						}
						if e := q.env[v]; e != nil && (e.elem || e.acc) && reachesBlock(q.end, ref.Block()) {
							bad = "it keeps what the walk found until then"
						}
					}
				}
			}
		}
		for k := range q.cellPos {
			if v := q.cells[k]; v != nil && (v.elem || v.acc) {
				bad = "it keeps what the walk found until then"
			}
		}
		if len(q.maps) > 0 {
			bad = "it changes a map for this entry only"
		}
		for _, e := range q.effects {
			if e.what == "report" {
				bad = "it reports this entry only"
			}
		}
		if d, _, u := decidedPath(q.conds, init); bad != "" && !d && !u || bad != "" && !u && len(q.conds) == 0 {
			// a unique entry is looked for by its key or text
			unique := false
			for _, c := range q.conds {
				if c.e.op == "==" && c.pos && len(c.e.args) == 2 && !c.e.acc {
					for i, x := range c.e.args {
						if x.elem && !c.e.args[1-i].elem && (isStringy(x.typ) || isCallsignType2(x.typ) || isUniqueKey(x)) {
							unique = true
						}
					}
				}
			}
			if !unique {
				add("early", q.from.Instrs[len(q.from.Instrs)-1], "", "the walk through the map is left early and "+bad+": the result depends on the order of the map")
			}
		}
	}
	// other maps
	for _, q := range p.paths {
		for _, m := range q.maps {
			if m.val == nil { // deleted
				continue
			}
			if isUniqueKey(m.key) || !m.val.elem && !m.val.acc {
				continue
			}
			if m.val.op == "+" && len(m.val.args) == 2 && !isStringy(m.val.typ) {
				continue
			}
			if mu, ok := m.in.(*ssa.MapUpdate); ok {
				if mt, ok := mu.Map.Type().Underlying().(*types.Map); ok && isCharType(mt.Key()) {
					r.assume("two characters never have the same symbols (C23)")
					continue
				}
			}
			if isStringy(m.key.typ) && m.key.elem && !strings.HasPrefix(m.key.op, "call:strings.") && !strings.HasPrefix(m.key.op, "slice") || isCallsignType2(m.key.typ) && m.key.elem {
				continue // the text of the entry
			}
			add("overwritten", m.in, "", "two entries of the map may be stored under the same key: which one stays depends on the order of the map")
		}
	}
	// reports
	for _, q := range p.paths {
		for _, e := range q.effects {
			switch {
			case e.what == "report" && !e.elem:
				add("reported", e.in, "", "it reports in the order of a walk through a map")
			case e.what == "unknown":
				r.assume("what " + name + " calls in a walk through a map was not followed")
			case e.what == "send" && !e.elem:
				add("reported", e.in, "", "it sends in the order of a walk through a map")
			}
		}
	}
	// lists
	for _, a := range lists {
		grows := false
		for _, q := range p.paths {
			if v := a.val(q); q.end == l.header && v != nil && v.key != a.old.key {
				grows = true
			}
		}
		if !grows {
			continue
		}
		r.count("lists collected in a walk through a map", 1)
		if a.phi != nil {
			w.mustBeSorted(r, out, a.phi, f, l)
			continue
		}
		// a variable
		var al *ssa.Alloc
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Alloc); ok && p.val(&passState{}, x).key == a.cell {
					al = x
				}
			}
		}
		if al == nil {
			add("unsorted", nil, "", "it collects entries in the order of a walk through a map where they are used later")
			continue
		}
		w.cellMustBeSorted(r, out, al, f, l)
	}
}

// cellMustBeSorted: like mustBeSorted, for a variable that a closure refers to.
func (w *World) cellMustBeSorted(r *Result, out *findings, al *ssa.Alloc, f *ssa.Function, l *Loop) {
	var sorters, others []ssa.Instruction
	total := 1
	for _, ref := range *al.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok || l.blocks[u.Block()] || !reachesBlock(l.header, u.Block()) {
			continue
		}
		var uses func(v ssa.Value, d int)
		uses = func(v ssa.Value, d int) {
			if d > 4 || v.Referrers() == nil {
				return
			}
			for _, x := range *v.Referrers() {
				switch x := x.(type) {
				case *ssa.DebugRef:
				case *ssa.MakeInterface:
					uses(x, d+1)
				case ssa.CallInstruction:
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						continue
					}
					if s, t := w.sortCall(x); s {
						sorters = append(sorters, x)
						if t < total {
							total = t
						}
						continue
					}
					others = append(others, x)
				default:
					others = append(others, x)
				}
			}
		}
		uses(u, 0)
	}
	for _, o := range others {
		ok := false
		for _, s := range sorters {
			if s.Block() == o.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == o {
						break
					}
				}
			} else {
				ok = ok || s.Block().Dominates(o.Block())
			}
		}
		if !ok {
			out.add("unsorted", "unsorted:"+fnKey(f), w.ipos(o), fmt.Sprintf("%s uses a list that is in the order of a walk through a map", fnKey(f)))
			return
		}
	}
	if len(others) > 0 && total < 0 {
		out.add("unstable", "unstable:"+fnKey(f), w.ipos(sorters[0]), fmt.Sprintf("%s sorts a list that comes from a walk through a map, but elements that compare as equal stay in the order of the map", fnKey(f)))
	}
	if total == 0 {
		r.assume("how " + fnKey(f) + " sorts was not understood")
	}
}

func accs2[T any](accs []T, get func(T) (string, func(*passPath) *sx)) map[string]func(*passPath) *sx {
	res := map[string]func(*passPath) *sx{}
	for _, a := range accs {
		k, v := get(a)
		res[k] = v
	}
	return res
}

// maxOnly: a selected value is a plain running maximum or minimum: it is replaced only by what it was compared with.
func maxOnly(p *passWalk, l *Loop, key string, vals map[string]func(*passPath) *sx) bool {
	for _, q := range p.paths {
		if q.end != l.header {
			continue
		}
		v := vals[key](q)
		if v == nil || v.key == key {
			continue
		}
		compared := false
		for _, c := range q.conds {
			if len(c.e.args) == 2 && strings.Contains(" < > <= >= ", " "+c.e.op+" ") {
				x, y := c.e.args[0].key, c.e.args[1].key
				if x == key && y == v.key || y == key && x == v.key {
					compared = true
				}
			}
		}
		if !compared {
			return false
		}
	}
	return true
}

// cellInit: the constant that is stored in a variable before the loop.
func cellInit(w *World, l *Loop, key string) *sx {
	var res *sx
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if fmt.Sprintf("alloc:%s.%s", in.Parent().Name(), in.Name()) == key {
					for _, ref := range *in.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(in) && !l.blocks[s.Block()] && s.Block().Dominates(l.header) {
							if c, ok := s.Val.(*ssa.Const); ok {
								res = &sx{key: "const:" + c.String(), cval: c.Value, zero: c.Value == nil, typ: c.Type()}
							}
						}
					}
					if res == nil {
						res = &sx{key: "zero", zero: true}
						if b, ok := deref(in.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
							res.cval = constant.MakeBool(false)
						}
					}
				}
			}
		}
	}
	return res
}

// reachesBlock: there is a way from one block to the other.
func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}
