package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// C11: buffers that were handed to another goroutine (sent on a channel, captured by a closure that is sent, given to
// a started goroutine) are not written by their producer afterwards. The analysis follows the buffers along every path of every
// goroutine root; buffers that are kept in fields are compared with all writes through that field.

type handMon struct {
	w        *World
	r        *Result
	f        *findings
	ex       *Explorer
	fieldOut map[*types.Var]string // fields that hold a handed buffer: where it is handed over
	fieldW   map[*types.Var]string // fields whose buffer is written: where
	writesP  map[*ssa.Function]map[int]bool
	sends    map[ssa.Instruction]bool
	root     *ssa.Function
	shared   map[string]string // channel class -> where one buffer is sent several times
	recvW    map[string]string
}

// dataType: values of this type share memory that may be overwritten.
func dataType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		// components are not data
		n := namedOf(u.Elem())
		if n == nil {
			return dataType(u.Elem())
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isChanType(st.Field(i).Type()) || strings.HasPrefix(typeStr(st.Field(i).Type()), "sync.") {
					return false
				}
			}
			return true
		}
		return false
	}
	return false
}

func isWriterMethod(f *ssa.Function) bool {
	if f.Name() != "Write" || f.Signature.Recv() == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 2 {
		return false
	}
	s, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	return ok && typeStr(s.Elem()) == "byte"
}

// contentWrites calls f for each value whose content an instruction writes.
func (h *handMon) contentWrites(in ssa.Instruction, f func(v ssa.Value)) {
	switch in := in.(type) {
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			f(ia.X)
		} else if fa, ok := in.Addr.(*ssa.FieldAddr); ok && dataType(fa.X.Type()) {
			f(fa.X)
		}
	case *ssa.MapUpdate:
		f(in.Map)
	case ssa.CallInstruction:
		com := in.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "clear", "delete":
				f(com.Args[0])
			case "append":
				// appending to a part of a buffer overwrites the rest of it
				if inPlace(com.Args[0]) {
					f(com.Args[0])
				}
			}
			return
		}
		if com.IsInvoke() {
			n := com.Method.Name()
			if strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Put") || n == "Decode" || n == "Encode" || n == "RecvMsg" || n == "Unmarshal" {
				for _, a := range com.Args {
					if dataType(a.Type()) {
						f(a)
						break
					}
				}
			}
		}
		for _, c := range h.w.pts.Callees(in) {
			if h.w.inRepo(c) {
				off := 0
				if com.IsInvoke() {
					off = 1
				}
				for i := range h.writesParam(c) {
					if i-off >= 0 && i-off < len(com.Args) {
						f(com.Args[i-off])
					}
				}
			}
		}
		if s := com.StaticCallee(); s != nil && !h.w.inRepo(s) {
			if i := extWrites(s.String()); i >= 0 && i < len(com.Args) {
				f(com.Args[i])
			}
		}
	}
}

// inPlace: the slice may have room behind its end that belongs to another slice.
func inPlace(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Slice:
		return v.Max == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, ok := e.(*ssa.Slice); ok && inPlace(e) {
				return true
			}
		}
		return false
	}
	return false
}

// extWrites: the index of the argument whose content an external function writes, -1 if none.
func extWrites(name string) int {
	short := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "encoding/json.Unmarshal"):
		if short == "Unmarshal" {
			return 1
		}
		return 0
	case strings.HasPrefix(name, "slices."):
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact"} {
			if strings.HasPrefix(short, p) {
				return 0
			}
		}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return 1
	case strings.HasPrefix(name, "(encoding/binary.") && strings.HasPrefix(short, "Put"):
		return 1
	case strings.HasPrefix(name, "encoding/hex.Encode"), strings.HasPrefix(name, "encoding/hex.Decode"), name == "crypto/rand.Read", name == "math/rand.Read":
		return 0
	case strings.HasPrefix(short, "Read") && strings.HasPrefix(name, "("):
		return 1
	case strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"), strings.HasPrefix(name, "unicode/utf8.AppendRune"):
		return 0
	}
	return -1
}

// writesParam: the parameters whose content a function of the repository writes.
func (h *handMon) writesParam(f *ssa.Function) map[int]bool {
	if m, ok := h.writesP[f]; ok {
		return m
	}
	m := map[int]bool{}
	h.writesP[f] = m
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			h.contentWrites(in, func(v ssa.Value) {
				for i, p := range f.Params {
					if derivedFromValue(v, p, map[ssa.Value]bool{}) {
						m[i] = true
					}
				}
			})
		}
	}
	return m
}

// derivedFromValue: v is p or a part of it.
func derivedFromValue(v, p ssa.Value, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		return derivedFromValue(v.X, p, seen)
	case *ssa.ChangeType:
		return derivedFromValue(v.X, p, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if derivedFromValue(e, p, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && derivedFromValue(s.Val, p, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (h *handMon) base(st *State, t *Term) *Term {
	for i := 0; i < 40 && t != nil; i++ {
		switch t.op {
		case "&":
			if x := t.args[0]; x.op == "&" || x.op == "&[]" || x.op == "alloc" || fieldOwner[payloadVar(t)] == "" {
				t = x
				continue
			}
			if _, isArr := deref(payloadVar(t).Type()).Underlying().(*types.Array); isArr {
				return t
			}
			t = t.args[0]
		case "slice", "iface", "&[]":
			t = t.args[0]
		case "append":
			a := st.rs["al:"+t.args[0].name]
			if a == nil || a.args[0] != t.args[0] {
				return t
			}
			t = a.args[1]
		default:
			return t
		}
	}
	return t
}

// fieldOf: the field a term was loaded from.
func loadedFrom(t *Term) *types.Var {
	if t != nil && t.op == "&" {
		return payloadVar(t)
	}
	if t == nil || t.op != "sym" || t.src == nil || t.src.op != "&" {
		return nil
	}
	v, _ := t.src.payload.(*types.Var)
	return v
}

func (h *handMon) site(in ssa.Instruction) string { return h.w.ipos(in) }

func (h *handMon) handOver(ex *Explorer, st *State, in ssa.Instruction, t *Term, typ types.Type, depth int) {
	if t == nil || depth > 6 {
		return
	}
	if t.op == "iface" {
		h.handOver(ex, st, in, t.args[0], t.payload.(types.Type), depth+1)
		return
	}
	if t.op == "closure" {
		for _, b := range t.args {
			bt := b.typ
			if b.op == "alloc" && bt != nil {
				if el := deref(bt); dataType(el) {
					if v := st.mem[b]; v != nil {
						h.handOver(ex, st, in, v, el, depth+1)
					}
					h.mark(st, in, b)
				}
			} else if bt != nil && dataType(bt) {
				h.handOver(ex, st, in, b, bt, depth+1)
			}
		}
		return
	}
	if typ == nil || !dataType(typ) {
		return
	}
	b := h.base(st, t)
	if b == nil || b.op == "nil" || b.op == "const" || b.op == "any" {
		return
	}
	if st.has("bo:"+b.s) && st.rs["bo:"+b.s] == b {
		h.report("borrowed", in, st, "a buffer that belongs to the caller of Write is handed to another goroutine; the caller may overwrite it as soon as Write returns")
	}
	if fv := loadedFrom(b); fv != nil && isRepoField(fv) {
		st.set("rf:" + fieldKey(fv))
	} else if b.op == "global" {
		// package level buffers
	} else {
		for a, v := range st.mem {
			if a.op == "&" && v != nil && h.base(st, v) == b {
				if fv, ok := a.payload.(*types.Var); ok && isRepoField(fv) && a.args[0].op != "alloc" {
					st.set("rf:" + fieldKey(fv))
				}
			}
		}
	}
	h.mark(st, in, b)
	// what it refers to
	for a, v := range st.mem {
		if v != nil && (a.op == "&" || a.op == "&[]") && h.base(st, a) == b && v.typ != nil && v != t {
			if tt := v.typ; tt != nil && (dataType(tt) || types.IsInterface(tt)) {
				h.handOver(ex, st, in, v, tt, depth+1)
			}
		}
	}
}

func (h *handMon) mark(st *State, in ssa.Instruction, b *Term) {
	for i := 0; i < 6; i++ {
		k := fmt.Sprintf("h:%p:%d", in, i)
		if x, ok := st.rs[k]; ok && x != b {
			continue
		}
		st.setT(k, b)
		return
	}
}

func (h *handMon) handedAt(st *State, b *Term) bool {
	if b == nil || b.op == "nil" || b.op == "const" {
		return false
	}
	for k, t := range st.rs {
		if t == b && strings.HasPrefix(k, "h:") {
			return true
		}
	}
	return false
}

func (h *handMon) unhand(st *State, b *Term) {
	for k, t := range st.rs {
		if t == b && strings.HasPrefix(k, "h:") {
			delete(st.rs, k)
		}
	}
}

func (h *handMon) report(rule string, in ssa.Instruction, st *State, msg string) {
	h.f.add(rule, fnKey(in.Parent()), h.site(in), msg, st.traceText(12)...)
}

func (h *handMon) write(ex *Explorer, st *State, in ssa.Instruction, t *Term) {
	b := h.base(st, t)
	if h.handedAt(st, b) {
		h.report("overwritten", in, st, "a buffer is written after it was handed to another goroutine, which may still be working on it")
	}
}

func (h *handMon) rule() *Rule {
	w := h.w
	retData := map[*ssa.Function]int{}
	returnsData := func(f *ssa.Function) bool {
		if x, ok := retData[f]; ok {
			return x == 1
		}
		retData[f] = 0
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if dataType(rs.At(i).Type()) && shortPkg(fnPkg(f)) != "dsp" && numInstrs(f) < 150 {
				retData[f] = 1
			}
		}
		return retData[f] == 1
	}
	return &Rule{
		NoNumbers: true,
		Volatile: func(v *types.Var) bool {
			if v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "/pb") {
				return false
			}
			if !isRepoField(v) {
				return true
			}
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				return false
			}
			return true
		},
		Interesting: func(in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Select:
				return selSends(in)
			case *ssa.Go:
				return true
			}
			return false
		},
		Inline: func(f *ssa.Function) bool { return returnsData(f) },
		// buffers only pass through functions that take or return them; the others are explored on their own
		NoInline: func(f *ssa.Function) bool { return !passesData(f) },
		Weak:     func(k string) bool { return strings.HasPrefix(k, "h:") || strings.HasPrefix(k, "al:") },
		OnAlloc: func(ex *Explorer, st *State, in *ssa.Alloc, t *Term) {
			h.unhand(st, t)
		},
		OnInstr: func(ex *Explorer, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Convert:
				if dataType(in.Type()) {
					h.unhand(st, ex.ts.App("conv", in.Type(), in.Type(), ex.val(st, in.X)))
				}
			case *ssa.Send:
				h.sends[in] = true
				h.handOver(ex, st, in, ex.val(st, in.X), in.X.Type(), 0)
			case *ssa.Go:
				com := in.Common()
				for _, a := range com.Args {
					if _, isPtr := a.Type().Underlying().(*types.Pointer); !isPtr && dataType(a.Type()) {
						h.handOver(ex, st, in, ex.val(st, a), a.Type(), 0)
					}
				}
				t := ex.val(st, com.Value)
				if t != nil && t.op == "closure" {
					h.sends[in] = true
					for _, b := range t.args {
						if b.op == "alloc" && b.typ != nil {
							if el := deref(b.typ); dataType(el) {
								if _, isPtr := el.Underlying().(*types.Pointer); !isPtr {
									if v := st.mem[b]; v != nil {
										h.handOver(ex, st, in, v, el, 1)
									}
								}
							}
						}
					}
				}
			case *ssa.Store:
				a := ex.val(st, in.Addr)
				switch a.op {
				case "&[]":
					h.write(ex, st, in, a)
				case "&":
					root := a
					for root.op == "&" || root.op == "&[]" {
						root = root.args[0]
					}
					h.write(ex, st, in, root)
					if fv, ok := a.payload.(*types.Var); ok && isRepoField(fv) && dataType(fv.Type()) && root.op != "alloc" {
						v := h.base(st, ex.val(st, in.Val))
						if h.handedAt(st, v) {
							st.set("rf:" + fieldKey(fv))
						} else if loadedFrom(v) != fv {
							st.unset("rf:" + fieldKey(fv))
						}
						if st.has("bo:"+v.s) && st.rs["bo:"+v.s] == v {
							h.report("borrowed", in, st, "a buffer that belongs to the caller of Write is kept; the caller may overwrite it as soon as Write returns")
						}
					}
				case "alloc":
					if dataType(deref(a.typ)) || a.typ != nil && isStruct(deref(a.typ)) {
						h.write(ex, st, in, a)
					}
				}
			default:
				if _, ok := in.(ssa.CallInstruction); ok {
					if _, isDefer := in.(*ssa.Defer); isDefer {
						return
					}
				}
				h.contentWrites(in, func(v ssa.Value) {
					if ci, ok := in.(ssa.CallInstruction); ok {
						// calls that are followed report the write inside
						for _, c := range w.pts.Callees(ci) {
							if ex.shouldInline(c) {
								return
							}
						}
					}
					h.write(ex, st, in, ex.val(st, v))
				})
			}
		},
		OnSelect: func(ex *Explorer, st *State, sel *ssa.Select, idx int) {
			if idx < 0 {
				return
			}
			s := sel.States[idx]
			if s.Dir == types.SendOnly {
				h.sends[sel] = true
				h.handOver(ex, st, sel, ex.val(st, s.Send), s.Send.Type(), 0)
			} else {
				h.received(st, ex.val(st, s.Chan))
			}
		},
		OnCall: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, inlined bool) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || c.fn == nil || !ci.Common().IsInvoke() || !isWriterMethod(c.fn) || len(args) != 2 || !inlined {
				return
			}
			b := h.base(st, args[1])
			if b != nil && b.op != "nil" {
				st.setT("bo:"+b.s, b)
			}
		},
		OnReturn: func(ex *Explorer, st *State, fr *Frame, res []*Term) {
			if isWriterMethod(fr.fn) {
				for k := range st.rs {
					if strings.HasPrefix(k, "bo:") {
						delete(st.rs, k)
					}
				}
			}
		},
		OnResult: func(ex *Explorer, st *State, in ssa.Instruction, c calleeT, args []*Term, res *Term) {
			if c.name == "builtin.append" && res != nil && res.op == "append" && len(args) > 0 {
				// the result may share the memory of the argument
				k := "al:" + res.args[0].name
				if b := h.base(st, args[0]); b != nil && b.op != "nil" && b.op != "const" && !lenZeroFresh(args[0]) {
					st.setT(k, ex.ts.App("shares", nil, nil, res.args[0], b))
				} else {
					st.unset(k)
				}
			}
		},
		OnExit: func(ex *Explorer, st *State, res []*Term) {
			h.kept(st)
		},
		OnPanic: func(ex *Explorer, st *State, in ssa.Instruction, what string) {
			h.kept(st)
		},
	}
}

func lenZeroFresh(t *Term) bool { return t.op == "nil" }

// received: the answer to an operation has arrived, so the operation no longer works on what it captured.
func (h *handMon) received(st *State, ch *Term) {}

func (h *handMon) kept(st *State) {
	for k := range st.rs {
		if strings.HasPrefix(k, "rf:") {
			if fv := h.w.field(k[3:]); fv != nil {
				if _, ok := h.fieldOut[fv]; !ok {
					h.fieldOut[fv] = h.root.String()
				}
			}
		}
	}
}

func checkC11(w *World, r *Result) {
	r.rule("A buffer that was sent to another goroutine, captured by an operation that was sent, or given to a started goroutine is not written by its producer afterwards, on any path of any goroutine or API entry; a buffer that stays in a field when it is handed over is never written through that field; a buffer received through io.Writer is not handed over or kept without a copy.")
	r.assume("Callbacks of external libraries deliver buffers they do not reuse.")
	c := conc(w, r)
	h := &handMon{w: w, r: r, f: &findings{}, fieldOut: map[*types.Var]string{}, fieldW: map[*types.Var]string{}, writesP: map[*ssa.Function]map[int]bool{}, sends: map[ssa.Instruction]bool{}}
	// writes through fields, anywhere
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				h.contentWrites(in, func(v ssa.Value) {
					for fv := range fieldRoots(v) {
						if isRepoField(fv) {
							if _, ok := h.fieldW[fv]; !ok {
								h.fieldW[fv] = w.ipos(in)
							}
						}
					}
				})
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	for _, q := range c.roots {
		roots[q.fn] = true
	}
	usedAsWriter := map[string]bool{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if it, ok := mi.Type().Underlying().(*types.Interface); ok && typeStr(mi.Type()) == "io.Writer" && it != nil {
						if n := namedOf(deref(mi.X.Type())); n != nil {
							usedAsWriter[typeKey(deref(mi.X.Type()))] = true
						}
					}
				}
			}
		}
	}
	for _, f := range w.funcs {
		if !passesData(f) {
			roots[f] = true
		}
		if isWriterMethod(f) && f.Signature.Recv() != nil && usedAsWriter[typeKey(deref(f.Signature.Recv().Type()))] {
			roots[f] = true
		}
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return fnKey(list[i]) < fnKey(list[j]) })
	for _, f := range list {
		h.root = f
		ex := newExplorer(w, h.rule())
		if !ex.reach(f) {
			continue
		}
		ex.budget = 600_000
		ex.Run(f, func(st *State, fs *FState) {
			if isWriterMethod(f) && usedAsWriter[typeKey(deref(f.Signature.Recv().Type()))] {
				b := fs.regs[f.Params[1]]
				if b != nil {
					st.setT("bo:"+b.s, b)
				}
			}
		})
		if ex.over {
			if os.Getenv("SDCHECK_DEBUG") != "" {
				ex.dumpKeys()
			}
			r.incomplete("exploration of " + fnKey(f) + " exceeded its budget")
		}
		r.count("explored roots", 1)
		r.count("explored states", ex.states)
	}
	for fv, where := range h.fieldOut {
		if wr, ok := h.fieldW[fv]; ok {
			h.f.add("kept", fieldKey(fv), wr, fmt.Sprintf("the buffer in %s is handed to another goroutine (in %s) and stays in the field, through which it is written here", fieldKey(fv), where))
		}
	}
	r.count("hand-overs", len(h.sends))
	for in := range h.sends {
		r.sample(fmt.Sprintf("%s %s", fnKey(in.Parent()), w.ipos(in)))
	}
	r.addAll(h.f.list)
}

// fieldRoots: the fields whose content (not the field itself) a value is a part of.
func fieldRoots(v ssa.Value) map[*types.Var]bool {
	res := map[*types.Var]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				switch a := v.X.(type) {
				case *ssa.FieldAddr:
					res[fieldVar(a.X.Type(), a.Field)] = true
				case *ssa.Alloc:
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							walk(s.Val)
						}
					}
				}
			}
		case *ssa.Slice:
			walk(v.X)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.FieldAddr:
			// an array in a struct
			res[fieldVar(v.X.Type(), v.Field)] = true
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(v.Call.Args[0])
			}
		}
	}
	walk(v)
	return res
}

func payloadVar(t *Term) *types.Var {
	v, _ := t.payload.(*types.Var)
	return v
}

// passesData: the function takes, returns or captures buffers or functions.
func passesData(f *ssa.Function) bool {
	data := func(t types.Type) bool {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
		return dataType(t)
	}
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if data(sig.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if data(sig.Results().At(i).Type()) {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		if data(fv.Type()) || data(deref(fv.Type())) {
			return true
		}
	}
	return false
}
