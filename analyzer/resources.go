package main

// C29: what is opened is closed.
//
// Acquisitions are calls of other packages whose result can be closed (Close, Stop), and calls of functions of this
// repository that hand such a thing out. From each acquisition the paths to the exits of the function are followed until
// the resource is closed, handed to something that closes it, or returned; what is stored in a field must be closed by
// the owner of the field: on every way out of its goroutine or of its end methods.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C29"] = checkC29 }

var endNames = map[string]bool{"Close": true, "Stop": true, "Shutdown": true, "GracefulStop": true, "CloseNow": true, "Disconnect": true, "Release": true, "close": true, "stop": true, "shutdown": true}

func hasEnd(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
				return false
			}
		}
	}
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Close", "Stop"} {
		if s := ms.Lookup(nil, n); s != nil {
			sig := s.Obj().Type().(*types.Signature)
			if sig.Params().Len() == 0 {
				return true
			}
		}
	}
	return false
}

func isCancelFunc(t types.Type) bool { return typeKey(t) == "context.CancelFunc" }

// extResource: the result of a call of another package is a resource.
func extResource(t types.Type) bool {
	if isCancelFunc(t) {
		return true
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || isRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/ftl/tci") {
		return false // its Stop is a command of the protocol
	}
	return hasEnd(t)
}

type ownSum struct {
	leaks    []ownLeak
	results  map[int]bool
	params   map[int]bool
	released bool
}

type ownLeak struct {
	at   ssa.Instruction
	why  string
	path []string
}

type ownership struct {
	w       *World
	memo    map[string]*ownSum
	active  map[string]bool
	acqMemo map[*ssa.Function]*acqSum
	relMemo map[*types.Var][]ssa.Instruction
	puts    map[*types.Var]string // resource fields -> example of what is put
	kinds   map[*types.Var]map[string]bool
	visited map[*ssa.Function]bool
	fns     []*ssa.Function
}

// acqSum: what a function of this repository hands out.
type acqSum struct {
	results map[int]string
	params  map[int]string
	groups  []map[int]bool // results that give access to the same thing
}

func (o *ownership) callees(ci ssa.CallInstruction) []*ssa.Function {
	if g := ci.Common().StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
		return nil
	}
	return o.w.pts.Callees(ci)
}

func endCall(ci ssa.CallInstruction) (ssa.Value, bool) {
	c := ci.Common()
	if c.IsInvoke() {
		if endNames[c.Method.Name()] {
			return embedder(c.Value), true
		}
		return nil, false
	}
	if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && endNames[g.Name()] && len(c.Args) > 0 {
		return embedder(c.Args[0]), true
	}
	return nil, false
}

// embedder: the value whose embedded field provides the method.
func embedder(v ssa.Value) ssa.Value {
	for d := 0; d < 4; d++ {
		x := v
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			x = u.X
		}
		fa, ok := x.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		if fv == nil || !fv.Embedded() || isRepoField(fv) {
			return v
		}
		v = fa.X
	}
	return v
}

// lastStore: what the cell holds at the load, if the block of the load says so.
func lastStore(u *ssa.UnOp) ssa.Value {
	var last ssa.Value
	for _, in := range u.Block().Instrs {
		if in == u {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
			last = st.Val
		}
	}
	return last
}

// aliases: the values that are, or hold, the resource.
func (o *ownership) aliases(f *ssa.Function, seeds []ssa.Value) (al map[ssa.Value]bool, lost map[ssa.Instruction]string, fields map[*types.Var]bool) {
	al = map[ssa.Value]bool{}
	lost = map[ssa.Instruction]string{}
	fields = map[*types.Var]bool{}
	for _, s := range seeds {
		al[s] = true
	}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if v != nil && !al[v] {
				al[v] = true
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Phi:
					for _, e := range y.Edges {
						if al[e] {
							add(y)
						}
					}
				case *ssa.MakeInterface:
					if al[y.X] {
						add(y)
					}
				case *ssa.ChangeInterface:
					if al[y.X] {
						add(y)
					}
				case *ssa.ChangeType:
					if al[y.X] {
						add(y)
					}
				case *ssa.TypeAssert:
					if al[y.X] {
						add(y)
					}
				case *ssa.Extract:
					if ta, ok := y.Tuple.(*ssa.TypeAssert); ok && al[ta] && y.Index == 0 {
						add(y)
					}
				case *ssa.Slice:
					if al[y.X] {
						add(y)
					}
				case *ssa.UnOp:
					if y.Op == token.MUL && al[y.X] {
						switch y.X.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
							if st := lastStore(y); st == nil || al[st] {
								add(y)
							}
						}
					}
				case *ssa.MakeClosure:
					for i, b := range y.Bindings {
						if al[b] {
							if sub := o.followFree(y.Fn.(*ssa.Function), i); sub != nil && len(sub.leaks) == 0 {
								add(y)
							}
						}
					}
				case *ssa.Store:
					if !al[y.Val] {
						continue
					}
					switch a := y.Addr.(type) {
					case *ssa.Alloc:
						add(a)
					case *ssa.IndexAddr:
						switch a.X.(type) {
						case *ssa.Alloc, *ssa.MakeSlice:
							add(a.X)
						}
					case *ssa.FieldAddr:
						fv := fieldVar(a.X.Type(), a.Field)
						if base := a.X; o.isFresh(base, 0) {
							if o.releasedSomewhere(fv) || fieldOwner[fv] == "" || !isRepoField(fv) {
								add(base)
								if u, ok := base.(*ssa.UnOp); ok {
									add(u.X)
								}
							} else {
								lost[in] = shortField(fv)
							}
						}
					}
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); ok {
						if b.Name() == "append" {
							for _, a := range y.Call.Args {
								if al[a] {
									add(y)
								}
							}
						}
						continue
					}
					for i, a := range y.Call.Args {
						if !al[a] {
							continue
						}
						for _, g := range o.callees(y) {
							if !o.w.inRepo(g) {
								// a wrapper that closes what it wraps
								if y.Type() != nil && extResource(y.Type()) && g.Signature.Recv() == nil {
									add(y)
								}
								continue
							}
							s := o.summary(g, paramOf(g, y.Common(), i))
							if s == nil {
								continue
							}
							for j := range s.results {
								add(resultOf(y, j))
							}
							for j := range s.params {
								k := argIndex(g, y.Common(), j)
								if k >= 0 && k < len(y.Call.Args) {
									if _, ok := y.Call.Args[k].(*ssa.Alloc); ok {
										add(y.Call.Args[k])
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

func shortField(fv *types.Var) string { return fieldKey(fv) }

func paramOf(g *ssa.Function, c *ssa.CallCommon, i int) int {
	if c.IsInvoke() {
		return i + 1
	}
	return i
}

func argIndex(g *ssa.Function, c *ssa.CallCommon, j int) int {
	if c.IsInvoke() {
		return j - 1
	}
	return j
}

func resultOf(c ssa.CallInstruction, j int) ssa.Value {
	v, ok := c.(ssa.Value)
	if !ok {
		return nil
	}
	if _, ok := v.Type().(*types.Tuple); !ok {
		if j == 0 {
			return v
		}
		return nil
	}
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == j {
			return e
		}
	}
	return nil
}

// errOf: the error (or ok) result of the call.
func errOf(c ssa.CallInstruction) (errV, okV ssa.Value) {
	v, ok := c.(ssa.Value)
	if !ok {
		return nil, nil
	}
	sig := c.Common().Signature()
	n := sig.Results().Len()
	if n == 0 {
		return nil, nil
	}
	last := sig.Results().At(n - 1).Type()
	var x ssa.Value
	if n == 1 {
		x = v
	} else {
		x = resultOf(c, n-1)
	}
	if isErrorType(last) {
		return x, nil
	}
	if typeStr(last) == "bool" {
		return nil, x
	}
	return nil, nil
}

// fromField: the value is (an element of) the content of the field.
func fromField(v ssa.Value, fv *types.Var, d int) bool {
	if v == nil || d > 12 {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		return fromField(y.X, fv, d+1)
	case *ssa.FieldAddr:
		return fieldVar(y.X.Type(), y.Field) == fv
	case *ssa.Field:
		return fieldVar(y.X.Type(), y.Field) == fv
	case *ssa.IndexAddr:
		return fromField(y.X, fv, d+1)
	case *ssa.Index:
		return fromField(y.X, fv, d+1)
	case *ssa.Slice:
		return fromField(y.X, fv, d+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if fromField(e, fv, d+3) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return fromField(y.X, fv, d+1)
	case *ssa.ChangeInterface:
		return fromField(y.X, fv, d+1)
	case *ssa.ChangeType:
		return fromField(y.X, fv, d+1)
	case *ssa.TypeAssert:
		return fromField(y.X, fv, d+1)
	case *ssa.Extract:
		return fromField(y.Tuple, fv, d+1)
	case *ssa.Next:
		if r, ok := y.Iter.(*ssa.Range); ok {
			return fromField(r.X, fv, d+1)
		}
	case *ssa.Lookup:
		return fromField(y.X, fv, d+1)
	case *ssa.Alloc:
		if y.Referrers() != nil {
			for _, r := range *y.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == y && fromField(s.Val, fv, d+3) {
					return true
				}
			}
		}
	case *ssa.Call:
		// an accessor
		if g := y.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && len(g.Blocks) < 6 {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						if fromField(x, fv, d+4) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// releasedSomewhere: some function closes the content of the field.
func (o *ownership) releasedSomewhere(fv *types.Var) bool {
	if fv == nil {
		return false
	}
	if _, ok := o.relMemo[fv]; !ok {
		o.relMemo[fv] = nil
		var res []ssa.Instruction
		for _, f := range o.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if x, ok := endCall(ci); ok && fromField(x, fv, 0) {
						res = append(res, in)
						continue
					}
					if isCancelFunc(fv.Type()) && fromField(ci.Common().Value, fv, 0) {
						res = append(res, in)
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil && o.w.inRepo(g) {
						for i, a := range ci.Common().Args {
							if i < len(g.Params) && fromField(a, fv, 0) && endsParam(g, g.Params[i], 0) {
								res = append(res, in)
							}
						}
					}
				}
			}
		}
		o.relMemo[fv] = res
	}
	return len(o.relMemo[fv]) > 0
}

// endsParam: the function closes its parameter or its elements somewhere.
func endsParam(g *ssa.Function, p *ssa.Parameter, d int) bool {
	if d > 3 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if x, ok := endCall(ci); ok && fromParam(x, p, 0) {
				return true
			}
			if h := ci.Common().StaticCallee(); h != nil && h != g {
				for i, a := range ci.Common().Args {
					if i < len(h.Params) && fromParam(a, p, 0) && endsParam(h, h.Params[i], d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func fromParam(v ssa.Value, p *ssa.Parameter, d int) bool {
	if v == p {
		return true
	}
	if d > 8 {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		return fromParam(y.X, p, d+1)
	case *ssa.IndexAddr:
		return fromParam(y.X, p, d+1)
	case *ssa.MakeInterface:
		return fromParam(y.X, p, d+1)
	case *ssa.ChangeInterface:
		return fromParam(y.X, p, d+1)
	case *ssa.Extract:
		return fromParam(y.Tuple, p, d+1)
	case *ssa.Next:
		if r, ok := y.Iter.(*ssa.Range); ok {
			return fromParam(r.X, p, d+1)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if fromParam(e, p, d+3) {
				return true
			}
		}
	case *ssa.TypeAssert:
		return fromParam(y.X, p, d+1)
	}
	return false
}

// summary of what a function does with its parameter i.
func (o *ownership) summary(g *ssa.Function, i int) *ownSum {
	if i < 0 || i >= len(g.Params) || len(g.Blocks) == 0 {
		return nil
	}
	k := fmt.Sprintf("%p/%d", g, i)
	if s, ok := o.memo[k]; ok {
		return s
	}
	if o.active[k] || len(o.active) > 12 {
		return nil
	}
	o.active[k] = true
	defer delete(o.active, k)
	s := o.follow(g, nil, []ssa.Value{g.Params[i]}, nil, nil)
	o.memo[k] = s
	return s
}

// isOwnerObject: a type of this repository.
func repoType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// follow walks from the acquisition to the exits.
func (o *ownership) follow(f *ssa.Function, start ssa.Instruction, seeds []ssa.Value, errV, okV ssa.Value) *ownSum {
	o.visited[f] = true
	al, lost, _ := o.aliases(f, seeds)
	s := &ownSum{results: map[int]bool{}, params: map[int]bool{}}
	lostIn := ""
	for _, l := range lost {
		lostIn = l
	}
	owner := false
	for _, x := range seeds {
		owner = owner || repoType(x.Type())
	}
	isErr := func(v ssa.Value) bool {
		if errV == nil {
			return false
		}
		return v == errV || o.sameErr(v, errV, start)
	}
	seen := map[*ssa.BasicBlock]bool{}
	type item struct {
		b    *ssa.BasicBlock
		from int
		path []string
	}
	var work []item
	if start == nil {
		work = append(work, item{f.Blocks[0], 0, nil})
	} else {
		for i, in := range start.Block().Instrs {
			if in == start {
				work = append(work, item{start.Block(), i + 1, nil})
			}
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		open := true
		for i := it.from; i < len(it.b.Instrs) && open; i++ {
			in := it.b.Instrs[i]
			if in == start && start != nil {
				s.leaks = append(s.leaks, ownLeak{at: in, why: "is opened again without being closed", path: it.path})
				open = false
				break
			}
			switch y := in.(type) {
			case *ssa.Return:
				returned := false
				for j, r := range y.Results {
					if al[r] {
						s.results[j] = true
						returned = true
					}
				}
				if !returned {
					s.leaks = append(s.leaks, ownLeak{at: in, why: "is not closed on this way out", path: it.path})
				}
				open = false
			case *ssa.Panic:
				open = false
			case *ssa.Store:
				if !al[y.Val] {
					continue
				}
				switch a := y.Addr.(type) {
				case *ssa.FieldAddr:
					fv := fieldVar(a.X.Type(), a.Field)
					if al[a.X] && o.isFresh(a.X, 0) {
						o.put(fv, y.Val)
						continue
					}
					if !isRepoField(fv) {
						open = false
						continue
					}
					if o.releasedSomewhere(fv) {
						o.put(fv, y.Val)
						if p := o.paramUnder(a.X); p != nil {
							s.params[paramPos(f, p)] = true
						}
						open = false
					} else {
						lostIn = shortField(fv)
					}
				case *ssa.IndexAddr:
					if _, ok := y.Val.(*ssa.MakeClosure); ok {
						open = false // a list of functions that end it
						continue
					}
					for _, fv := range fieldsUnder(a.X) {
						if o.releasedSomewhere(fv) {
							o.put(fv, y.Val)
							open = false
						}
					}
				case *ssa.Global:
					open = false
				case *ssa.FreeVar:
					open = false // the variable of the enclosing function
				case *ssa.Parameter, *ssa.UnOp:
					open = false
				}
			case *ssa.MapUpdate:
				if al[y.Value] || al[y.Key] {
					open = false
					for _, fv := range fieldsUnder(y.Map) {
						if o.releasedSomewhere(fv) {
							o.put(fv, y.Value)
						}
					}
				}
			case *ssa.Send:
				if al[y.X] {
					open = false
				}
			case *ssa.UnOp:
				// waiting for a timer ends it
				if y.Op == token.ARROW {
					for a := range al {
						if strings.HasSuffix(typeStr(a.Type()), "time.Timer") {
							open = false
						}
					}
				}
			case *ssa.Select:
				for _, st := range y.States {
					if st.Dir == types.SendOnly && al[st.Send] {
						open = false
					}
				}
			case ssa.CallInstruction:
				if o.noReturn(y) {
					open = false
					break
				}
				if o.discharges(f, y, al, owner, s) {
					open = false
				}
			case *ssa.If:
			}
		}
		if !open {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for si, nx := range it.b.Succs {
			if iff, ok := last.(*ssa.If); ok && o.excluded(iff.Cond, si == 0, al, isErr, okV) {
				continue
			}
			if nx == startBlock(start) && !seen[nx] || !seen[nx] {
				seen[nx] = true
				p := it.path
				if iff, ok := last.(*ssa.If); ok && len(p) < 12 {
					dir := "holds"
					if si == 1 {
						dir = "does not hold"
					}
					if pos := o.w.ipos(iff); pos != "" {
						p = append(append([]string{}, p...), fmt.Sprintf("%s: the condition %s", pos, dir))
					}
				}
				work = append(work, item{nx, 0, p})
			}
		}
	}
	if lostIn != "" {
		for i := range s.leaks {
			s.leaks[i].why = "is kept in " + lostIn + ", which nothing closes"
		}
	}
	return s
}

func startBlock(in ssa.Instruction) *ssa.BasicBlock {
	if in == nil {
		return nil
	}
	return in.Block()
}

func paramPos(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if p == q {
			return i
		}
	}
	return -1
}

func fieldsUnder(v ssa.Value) []*types.Var {
	for d := 0; d < 10; d++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			return []*types.Var{fieldVar(y.X.Type(), y.Field)}
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.Slice:
			v = y.X
		default:
			return nil
		}
	}
	return nil
}

func (o *ownership) put(fv *types.Var, v ssa.Value) {
	if fv == nil || !isRepoField(fv) || fieldOwner[fv] == "" {
		return
	}
	if _, ok := o.puts[fv]; !ok {
		o.puts[fv] = typeStr(v.Type())
	}
	if o.kinds[fv] == nil {
		o.kinds[fv] = map[string]bool{}
	}
	o.kinds[fv][typeStr(v.Type())] = true
}

// sameErr: the value is loaded from the variable the error was just stored in.
func (o *ownership) sameErr(v, errV ssa.Value, start ssa.Instruction) bool {
	if phi, ok := v.(*ssa.Phi); ok {
		// err from one of several ways of opening
		for _, e := range phi.Edges {
			if e == errV {
				return true
			}
		}
		return false
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	var last *ssa.Store
	for _, in := range u.Block().Instrs {
		if in == u {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
			last = st
		}
	}
	if last != nil {
		return last.Val == errV
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	n := 0
	hit := false
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			n++
			hit = hit || st.Val == errV
		}
	}
	return hit && n == 1
}

// excluded: on this branch there is no resource.
func (o *ownership) excluded(cond ssa.Value, taken bool, al map[ssa.Value]bool, isErr func(ssa.Value) bool, okV ssa.Value) bool {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, taken = u.X, !taken
			continue
		}
		break
	}
	if okV != nil && cond == okV {
		return !taken
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return false
		}
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		isNil := (c.Op == token.EQL) == taken
		if isNilConst(y) {
			if isErr(x) {
				return !isNil
			}
			if al[x] {
				return isNil
			}
			return false
		}
		// err == io.EOF
		if (isErr(x) || isErr(y)) && isNil {
			return true
		}
	case *ssa.Call:
		if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "errors" && (g.Name() == "Is" || g.Name() == "As") && isErr(c.Call.Args[0]) {
			return taken
		}
		// a helper that asks for the error
		if g := c.Call.StaticCallee(); g != nil && o.w.inRepo(g) && taken {
			for _, a := range c.Call.Args {
				if isErr(a) {
					return true
				}
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func (o *ownership) noReturn(ci ssa.CallInstruction) bool {
	if _, ok := ci.(*ssa.Call); !ok {
		return false
	}
	_, ok := neverReturns(o.callees(ci))
	return ok
}

// discharges: the call closes the resource or takes it over.
func (o *ownership) discharges(f *ssa.Function, ci ssa.CallInstruction, al map[ssa.Value]bool, owner bool, s *ownSum) bool {
	c := ci.Common()
	if x, ok := endCall(ci); ok && al[x] {
		s.released = true
		return true
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	if _, isFunc := c.Value.Type().Underlying().(*types.Signature); isFunc && al[c.Value] && !c.IsInvoke() {
		return true
	}
	_, isGo := ci.(*ssa.Go)
	// a closure that takes it over
	closures := func(v ssa.Value) bool {
		mc, ok := v.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		g := mc.Fn.(*ssa.Function)
		hit := false
		for i, b := range mc.Bindings {
			if !al[b] {
				continue
			}
			if o.methodOfSeed(g, al) {
				continue
			}
			sub := o.followFree(g, i)
			if sub != nil && len(sub.leaks) == 0 {
				hit = true
			}
		}
		return hit
	}
	if closures(c.Value) {
		return true
	}
	for _, a := range c.Args {
		if closures(a) {
			// the closure is called by the callee, once (sync.Once, errgroup, time.AfterFunc, context.AfterFunc)
			return true
		}
	}
	for i, a := range c.Args {
		if !al[a] {
			continue
		}
		if isCancelFunc(a.Type()) {
			return true
		}
		gs := o.callees(ci)
		if len(gs) == 0 {
			return false
		}
		all := true
		for _, g := range gs {
			if !o.w.inRepo(g) {
				if strings.HasPrefix(g.Name(), "Serve") {
					continue
				}
				all = false
				continue
			}
			k := paramOf(g, c, i)
			if isGo && (owner || repoType(a.Type())) && g.Signature.Recv() != nil && k == 0 {
				all = false // the object works for itself until somebody ends it
				continue
			}
			sub := o.summary(g, k)
			if sub == nil || len(sub.leaks) > 0 || len(sub.results) > 0 {
				all = false
				continue
			}
			if len(sub.params) > 0 {
				for j := range sub.params {
					x := argIndex(g, c, j)
					if x >= 0 && x < len(c.Args) {
						if _, local := c.Args[x].(*ssa.Alloc); local {
							all = false // moved into a local object
						} else if p, ok := c.Args[x].(*ssa.Parameter); ok {
							s.params[paramPos(f, p)] = true
						}
					}
				}
			}
		}
		if all {
			return true
		}
	}
	// bound method value: go func / defer x.Close
	return false
}

func (o *ownership) methodOfSeed(g *ssa.Function, al map[ssa.Value]bool) bool { return false }

func (o *ownership) followFree(g *ssa.Function, i int) *ownSum {
	if i >= len(g.FreeVars) || len(g.Blocks) == 0 {
		return nil
	}
	if strings.HasSuffix(g.Name(), "$bound") {
		m := strings.TrimSuffix(g.Name(), "$bound")
		if k := strings.LastIndex(m, "."); k >= 0 {
			m = m[k+1:]
		}
		if endNames[m] {
			return &ownSum{}
		}
		return nil
	}
	k := fmt.Sprintf("%p/f%d", g, i)
	if s, ok := o.memo[k]; ok {
		return s
	}
	if o.active[k] {
		return nil
	}
	o.active[k] = true
	defer delete(o.active, k)
	s := o.follow(g, nil, []ssa.Value{g.FreeVars[i]}, nil, nil)
	o.memo[k] = s
	return s
}

// acquires: what the function hands out to its caller (by its results or inside of a parameter).
func (o *ownership) acquires(f *ssa.Function) *acqSum {
	if s, ok := o.acqMemo[f]; ok {
		return s
	}
	s := &acqSum{results: map[int]string{}, params: map[int]string{}}
	o.acqMemo[f] = s
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, a := range o.acquisitions(ci) {
				if o.isLocalObject(a.v) || a.result {
					sum := o.follow(f, in, a.seeds, a.errV, a.okV)
					for j := range sum.results {
						s.results[j] = a.what
					}
					if len(sum.results) > 1 {
						s.groups = append(s.groups, sum.results)
					}
					for j := range sum.params {
						s.params[j] = a.what
					}
				} else if p, ok := a.v.(*ssa.Parameter); ok {
					s.params[paramPos(f, p)] = a.what
				}
			}
		}
	}
	return s
}

type acquisition struct {
	v      ssa.Value
	what   string
	result bool
	seeds  []ssa.Value
	errV   ssa.Value
	okV    ssa.Value
}

// paramUnder: the parameter the value is (also if closures share it).
func (o *ownership) paramUnder(v ssa.Value) *ssa.Parameter {
	if p, ok := v.(*ssa.Parameter); ok {
		return p
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if sts := o.w.cellStores(al); len(sts) == 1 {
				p, _ := sts[0].(*ssa.Parameter)
				return p
			}
		}
	}
	return nil
}

// isFresh: the object was made by this function or by a constructor it called.
func (o *ownership) isFresh(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	made := func(ci *ssa.Call, j int) bool {
		gs := o.callees(ci)
		if len(gs) != 1 || !o.w.inRepo(gs[0]) || len(gs[0].Blocks) == 0 {
			return false
		}
		n := 0
		for _, b := range gs[0].Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || j >= len(ret.Results) {
				continue
			}
			x := ret.Results[j]
			if u, ok := x.(*ssa.UnOp); ok {
				if st := lastStore(u); st != nil {
					x = st
				}
			}
			if isNilConst(x) {
				continue
			}
			if !o.isFresh(x, d+2) {
				return false
			}
			n++
		}
		return n > 0
	}
	switch y := v.(type) {
	case *ssa.Alloc:
		_, isPtr := y.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer)
		return !isPtr
	case *ssa.Call:
		return made(y, 0)
	case *ssa.Extract:
		c, ok := y.Tuple.(*ssa.Call)
		return ok && made(c, y.Index)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			n := 0
			for _, st := range o.w.cellStores(al) {
				if isNilConst(st) {
					continue
				}
				if !o.isFresh(st, d+1) {
					return false
				}
				n++
			}
			return n > 0
		}
	}
	return false
}

// isLocalObject: the object was made by this function.
func (o *ownership) isLocalObject(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		return true
	case *ssa.Extract:
		_, ok := y.Tuple.(*ssa.Call)
		return ok
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			for _, st := range o.w.cellStores(al) {
				if o.isLocalObject(st) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if c, ok := e.(*ssa.Call); ok && c != nil {
				return true
			}
		}
	}
	return false
}

func (o *ownership) acquisitions(ci *ssa.Call) []acquisition {
	if _, ok := ci.Call.Value.(*ssa.Builtin); ok {
		return nil
	}
	var res []acquisition
	errV, okV := errOf(ci)
	seen := map[string]bool{}
	for _, g := range o.callees(ci) {
		sig := g.Signature
		if !o.w.inRepo(g) {
			if getter(g.Name()) {
				continue
			}
			for j := 0; j < sig.Results().Len(); j++ {
				t := sig.Results().At(j).Type()
				if !extResource(t) {
					continue
				}
				// a wrapper of a resource is no resource of its own
				v := resultOf(ci, j)
				what := shortType(typeStr(t))
				if seen[fmt.Sprint(j)] {
					continue
				}
				seen[fmt.Sprint(j)] = true
				if v == nil {
					res = append(res, acquisition{what: what, result: true, errV: errV, okV: okV})
					continue
				}
				res = append(res, acquisition{v: v, what: what, result: true, seeds: []ssa.Value{v}, errV: errV, okV: okV})
			}
			continue
		}
		s := o.acquires(g)
		for j, what := range s.results {
			if seen[fmt.Sprint(j)] {
				continue
			}
			seen[fmt.Sprint(j)] = true
			v := resultOf(ci, j)
			var seeds []ssa.Value
			if v != nil {
				seeds = append(seeds, v)
			}
			for _, gr := range s.groups {
				if !gr[j] {
					continue
				}
				for k := range gr {
					seen[fmt.Sprint(k)] = true
					if u := resultOf(ci, k); u != nil && u != v {
						seeds = append(seeds, u)
						if v == nil {
							v = u
						}
					}
				}
			}
			if v == nil {
				res = append(res, acquisition{what: what, result: true, errV: errV, okV: okV})
				continue
			}
			res = append(res, acquisition{v: v, what: what, result: true, seeds: seeds, errV: errV, okV: okV})
		}
		for j, what := range s.params {
			k := argIndex(g, ci.Common(), j)
			if k < 0 || k >= len(ci.Call.Args) {
				continue
			}
			v := ci.Call.Args[k]
			seeds := []ssa.Value{v}
			if u, ok := v.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					seeds = append(seeds, al)
				}
			}
			res = append(res, acquisition{v: v, what: what + " of " + shortType(typeStr(v.Type())), seeds: seeds, errV: errV, okV: okV})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].what < res[j].what })
	return res
}

// getter: the function gives access to something that somebody else owns.
func getter(name string) bool {
	for _, p := range []string{"Get", "Underlying", "With", "Default", "Context", "NetConn"} {
		if strings.HasPrefix(name, p) && name != "WithCancel" && name != "WithTimeout" && name != "WithDeadline" {
			return true
		}
	}
	return false
}

func checkC29(w *World, r *Result) {
	r.rule("a call that opens something (its result, of a type of another package, has Close or Stop; or a function of this repository hands such a thing out) is followed on every path: until it is closed, deferred to be closed, returned, given to a function that closes it on every way out, or put into an object that closes it; ways on which opening failed and process exits do not count")
	r.rule("a field that holds something open is closed on every way out of a goroutine of its owner or of the owner's end methods (ways that the owner's own state decides, as already closed, excepted)")
	r.rule("a goroutine that reads from or writes to a connection of its owner closes it on every way out: nobody else notices that the peer went away")
	r.rule("a server whose listener is closed by its goroutine reports its end after the listener is closed, and Stop waits for that")
	r.assume("closing is the methods Close, Stop, Shutdown, GracefulStop, Disconnect, Release, and calling a cancel function; the TCI library's client offers none that is safe and is out of reach")
	r.assume("what ends the process needs no closing")
	o := &ownership{w: w, memo: map[string]*ownSum{}, active: map[string]bool{}, acqMemo: map[*ssa.Function]*acqSum{}, relMemo: map[*types.Var][]ssa.Instruction{}, puts: map[*types.Var]string{}, kinds: map[*types.Var]map[string]bool{}, visited: map[*ssa.Function]bool{}}
	for _, f := range w.funcs {
		if !fnPkgIs(w, f, "pb") {
			o.fns = append(o.fns, f)
		}
	}
	var fs findings
	n := 0
	for _, f := range o.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if g := ci.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && g.Name() == "Tick" {
					if returns(f) {
						fs.add("leaked", fnKey(f)+" time.Tick", w.ipos(in), fnKey(f)+" starts a ticker that cannot be stopped, and returns")
					}
				}
				for _, a := range o.acquisitions(ci) {
					if os.Getenv("SDCHECK_OWN") != "" {
						fmt.Fprintln(os.Stderr, fnKey(f), a.what, w.ipos(in), a.v, a.result)
					}
					if !a.result && !o.isLocalObject(a.v) {
						// opened for an object of somebody else; the field rules apply
						continue
					}
					n++
					r.sample("%s opens %s at %s", fnKey(f), a.what, w.ipos(in))
					if len(a.seeds) == 0 {
						fs.add("leaked", fnKey(f)+" "+a.what, w.ipos(in), fmt.Sprintf("%s opens %s and drops it", fnKey(f), a.what))
						continue
					}
					sum := o.follow(f, in, a.seeds, a.errV, a.okV)
					for _, l := range sum.leaks {
						fs.add("leaked", fnKey(f)+" "+a.what, w.ipos(in), fmt.Sprintf("%s opens %s, which %s (%s)", fnKey(f), a.what, l.why, w.ipos(l.at)), l.path...)
						break
					}
				}
			}
		}
	}
	r.count("calls that open something", n)
	o.ownerRules(r, &fs)
	r.count("functions followed", len(o.visited))
	r.addAll(fs.list)
}

func returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// ---------- the owners of fields ----------

func (o *ownership) ownerRules(r *Result, fs *findings) {
	w := o.w
	var fields []*types.Var
	for fv := range o.puts {
		fields = append(fields, fv)
	}
	sort.Slice(fields, func(i, j int) bool { return fieldKey(fields[i]) < fieldKey(fields[j]) })
	r.count("fields that hold something open", len(fields))
	for _, fv := range fields {
		n := ownerNamed(w, fv)
		if n == nil {
			continue
		}
		part := "/." + fv.Name() + "!"
		r.sample("%s holds %s", fieldKey(fv), shortType(o.puts[fv]))
		// the goroutines of the owner
		var gos []*ssa.Function
		paths := map[*ssa.Function]map[ssa.Value]absV{}
		for _, f := range o.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					for _, h := range o.callees(g) {
						ps := ownerParams(h, n)
						if len(ps) == 0 || len(h.Blocks) == 0 || paths[h] != nil {
							continue
						}
						gos = append(gos, h)
						paths[h] = ps
					}
				}
			}
		}
		releases := func(f *ssa.Function, ps map[ssa.Value]absV, at func(b *ssa.BasicBlock, a *resetFn), closed func(path string, done bool)) (bool, *resetRun) {
			x := o.newRun(fv)
			x.atReturn = at
			x.atClose = func(p string, done map[string]string) {
				if closed != nil {
					closed(p, covered(done, part))
				}
			}
			sum := x.analyze(f, ps, map[string]bool{"/." + fv.Name(): true}, map[string]string{})
			return sum.dead || covered(sum.done, part), x
		}
		byGo := []*ssa.Function{}
		for _, g := range gos {
			ok, _ := releases(g, paths[g], nil, nil)
			if ok && returns(g) {
				byGo = append(byGo, g)
				continue
			}
			// does it do I/O with it?
			if io := o.doesIO(g, fv); io != nil && returns(g) && fv.Type() != nil {
				fs.add("peer-gone", fieldKey(fv)+" "+fnKey(g), w.pos(g.Pos()), fmt.Sprintf("%s uses %s (%s) and can end without closing it", fnKey(g), fieldKey(fv), w.ipos(io)))
			}
		}
		// the end methods
		var ends []*ssa.Function
		for _, f := range o.fns {
			if f.Parent() == nil && f.Signature.Recv() != nil && recvType(f) == n && endNames[f.Name()] && token.IsExported(f.Name()) && f.Synthetic == "" {
				ends = append(ends, f)
			}
		}
		if len(ends) == 0 {
			for _, f := range o.fns {
				if f.Parent() == nil && f.Signature.Recv() != nil && recvType(f) == n && endNames[f.Name()] {
					ends = append(ends, f)
				}
			}
		}
		r.count("end methods and goroutines of owners", len(ends)+len(gos))
		for _, e := range ends {
			bad := ""
			okWay := false
			waits := map[string]bool{}
			releases(e, map[ssa.Value]absV{e.Params[0]: {path: "/"}}, func(b *ssa.BasicBlock, a *resetFn) {
				if covered(a.done, part) {
					okWay = true
					return
				}
				if !a.ownGuard(b) {
					bad = w.ipos(b.Instrs[len(b.Instrs)-1])
				}
			}, nil)
			for p := range o.waits(e) {
				waits[p] = true
			}
			if bad == "" && okWay {
				continue
			}
			if len(byGo) > 0 {
				if !o.isListener(fv) {
					continue
				}
				// Stop has to wait until the goroutine closed the listener
				if len(waits) == 0 {
					fs.add("port-not-free", fieldKey(fv)+" "+fnKey(e), w.pos(e.Pos()), fmt.Sprintf("%s does not wait until %s is closed", fnKey(e), fieldKey(fv)))
				}
				for _, g := range byGo {
					releases(g, paths[g], nil, func(p string, done bool) {
						if !done && waits[strings.TrimPrefix(p, "/.")] {
							fs.add("port-not-free", fieldKey(fv)+" "+fnKey(g), w.pos(g.Pos()), fmt.Sprintf("%s reports its end (%s), for which %s waits, before it closes %s", fnKey(g), strings.TrimPrefix(p, "/."), fnKey(e), fieldKey(fv)))
						}
					})
				}
				continue
			}
			if bad == "" {
				bad = w.pos(e.Pos())
			}
			fs.add("not-closed", fieldKey(fv)+" "+fnKey(e), bad, fmt.Sprintf("%s can end without closing %s (%s)", fnKey(e), fieldKey(fv), shortType(o.puts[fv])))
		}
		if len(ends) == 0 && len(byGo) == 0 {
			r.assume(fieldKey(fv) + " is closed somewhere, but its owner has no end method and no goroutine that closes it")
		}
	}
}

// waits: the channels of the owner the end method receives from.
func (o *ownership) waits(f *ssa.Function) map[string]bool {
	res := map[string]bool{}
	for _, g := range append([]*ssa.Function{f}, anonWithin(f)...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					for _, fv := range fieldsUnder(u.X) {
						res[fv.Name()] = true
					}
				}
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && h.Name() == "Wait" && h.Pkg != nil && h.Pkg.Pkg.Path() == "sync" {
						res["(wait group)"] = true
					}
					if h := c.Call.StaticCallee(); h != nil && o.w.inRepo(h) && h.Signature.Recv() != nil && recvType(h) == recvType(f) && h != f {
						for k := range o.waits1(h) {
							res[k] = true
						}
					}
				}
			}
		}
	}
	return res
}

func (o *ownership) waits1(f *ssa.Function) map[string]bool {
	res := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				for _, fv := range fieldsUnder(u.X) {
					res[fv.Name()] = true
				}
			}
		}
	}
	return res
}

func (o *ownership) isListener(fv *types.Var) bool {
	for k := range o.kinds[fv] {
		if strings.Contains(k, "Listener") {
			return true
		}
	}
	return strings.Contains(typeStr(fv.Type()), "Listener")
}

func ownerNamed(w *World, fv *types.Var) *types.Named {
	for _, p := range w.pkgs {
		if p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == fv {
					return n
				}
			}
		}
	}
	return nil
}

// ownerParams: the parameters and captured variables of the function that are the owner.
func ownerParams(f *ssa.Function, n *types.Named) map[ssa.Value]absV {
	res := map[ssa.Value]absV{}
	is := func(t types.Type) bool {
		for i := 0; i < 2; i++ {
			if m, ok := types.Unalias(t).(*types.Named); ok {
				return m.Origin() == n
			}
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			t = p.Elem()
		}
		m, ok := types.Unalias(t).(*types.Named)
		return ok && m.Origin() == n
	}
	for _, p := range f.Params {
		if is(p.Type()) {
			res[p] = absV{path: "/"}
		}
	}
	for _, p := range f.FreeVars {
		if is(p.Type()) {
			res[p] = absV{path: "/"}
		}
	}
	return res
}

// newRun: an interpretation that collects what is closed ("part!").
func (o *ownership) newRun(fv *types.Var) *resetRun {
	x := &resetRun{w: o.w, stack: map[*ssa.Function]bool{}, kept: map[string]string{}, keptAt: map[string]string{}, visited: o.visited}
	x.closing = true
	x.closes = func(a *resetFn, v ssa.Value) bool { return fromField(v, fv, 0) }
	x.field = fv
	x.enter = o.closers(fv)
	return x
}

// doesIO: the goroutine reads from or writes to the content of the field.
func (o *ownership) doesIO(g *ssa.Function, fv *types.Var) ssa.Instruction {
	content := map[*Obj]bool{}
	for _, ob := range o.w.pts.FieldContent(fv) {
		content[ob] = true
	}
	for f := range o.w.reachableFrom([]*ssa.Function{g}, false, nil) {
		if fnPkg(f) != fnPkg(g) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				name, recv := "", ssa.Value(nil)
				if c.IsInvoke() {
					name, recv = c.Method.Name(), c.Value
				} else if h := c.StaticCallee(); h != nil && h.Signature.Recv() != nil && !o.w.inRepo(h) && len(c.Args) > 0 {
					name, recv = h.Name(), c.Args[0]
				}
				if recv == nil || !(strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Accept") || strings.HasPrefix(name, "Recv")) {
					continue
				}
				if fromField(recv, fv, 0) {
					return in
				}
				for _, ob := range o.w.pts.Objs(recv) {
					if content[ob] {
						return in
					}
				}
			}
		}
	}
	return nil
}

// closers: the functions that can close the content of the field, or close a channel (directly or by what they call).
func (o *ownership) closers(fv *types.Var) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !res[f] {
			res[f] = true
			work = append(work, f)
		}
	}
	for _, f := range o.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := endCall(ci); ok || isCancelFunc(ci.Common().Value.Type()) {
					add(f)
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					add(f)
				}
			}
		}
	}
	cs := o.w.callers()
	n := ownerNamed(o.w, fv)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		add(f.Parent())
		for _, c := range cs.sync[f] {
			// only what works on the owner
			if n != nil && len(ownerParams(c, n)) == 0 && fnPkg(c) != fnPkg(f) {
				continue
			}
			add(c)
		}
	}
	return res
}
