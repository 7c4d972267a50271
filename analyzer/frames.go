package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C30"] = checkC30 }

// structFields: the exported fields of a struct type, those of embedded structs included.
func structFieldsOf(t types.Type) []*types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var res []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			res = append(res, structFieldsOf(f.Type())...)
			continue
		}
		if f.Exported() {
			res = append(res, f)
		}
	}
	return res
}

func (w *World) namedType(pkg, name string) types.Type {
	for _, p := range w.pkgs {
		if shortPkg(p.PkgPath) == pkg || strings.HasSuffix(p.PkgPath, "/"+pkg) {
			if o := p.Types.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func roleless(k string) string {
	return strings.TrimSuffix(strings.TrimSuffix(k, ".key"), ".val")
}

func checkC30(w *World, r *Result) {
	r.rule("on the server, every field of the transferred message comes from exactly one field of the shown frame, unchanged (only converted), for every element, with its key or position")
	r.rule("on the client, every field of the delivered frame comes from exactly one field of the transferred message, in the same way")
	r.rule("put together, every field of a frame comes from the field of the same name, and nothing is kept between frames")
	var out findings
	nf := 0
	type conv struct {
		root *ssa.Function
		of   map[*types.Var]map[string]bool
		pos  map[*types.Var]string
	}
	for _, kind := range []string{"TimeFrame", "SpectralFrame"} {
		frame, msg := w.namedType("scope", kind), w.namedType("scope/pb", kind)
		if frame == nil || msg == nil {
			r.assume("there is no frame type " + kind + " in scope and scope/pb")
			continue
		}
		ff, mf := structFieldsOf(frame), structFieldsOf(msg)
		isF, isM := map[*types.Var]bool{}, map[*types.Var]bool{}
		for _, f := range ff {
			isF[f] = true
		}
		for _, f := range mf {
			isM[f] = true
		}
		// direction: fields of dst come from fields of src
		run := func(dstT types.Type, dst []*types.Var, src map[*types.Var]bool) *conv {
			var res *conv
			for _, root := range w.convRoots(dstT, src) {
				b := newBackslice(w, root, func(fv *types.Var) bool { return src[fv] })
				c := &conv{root: root, of: map[*types.Var]map[string]bool{}, pos: map[*types.Var]string{}}
				any := false
				for _, f := range dst {
					items := map[string]bool{}
					found := false
					for _, s := range b.stores {
						if s.field == f && b.storesTo(s, dstT) {
							found = true
							addAllB(items, b.of(s.val, s.ctx))
							c.pos[f] = w.ipos(s.in)
						}
					}
					if found || len(b.fieldContents(f)) > 0 {
						any = true
						addAllB(items, b.fieldContents(f))
						c.of[f] = items
					} else if b.vagueStore(dstT) {
						c.of[f] = one("?struct copied")
						any = true
					}
				}
				if any && (res == nil || len(c.of) > len(res.of)) {
					res = c
				}
			}
			return res
		}
		out1 := run(msg, mf, isF)
		in1 := run(frame, ff, isM)
		if out1 == nil || in1 == nil {
			r.assume("the conversion of " + kind + " is not found")
			continue
		}
		judge := func(c *conv, f *types.Var, what string) (src string, known bool) {
			items := c.of[f]
			pos := c.pos[f]
			if pos == "" {
				pos = w.pos(c.root.Pos())
			}
			nf++
			vague := false
			srcs := map[string]bool{}
			var bad []string
			for k := range items {
				switch k[0] {
				case '?':
					vague = true
				case '!':
					bad = append(bad, k[1:])
				case '=':
				default:
					srcs[k] = true
				}
			}
			sort.Strings(bad)
			r.sample("%s", fmt.Sprintf("%s: %s <- {%s}", fnKey(c.root), fieldName(f), itemList(items)))
			if vague {
				r.assume("the conversion of " + fieldName(f) + " is not understood")
				return "", false
			}
			if len(bad) > 0 {
				out.add("changed", "changed:"+fieldName(f), pos, fmt.Sprintf("%s does not arrive as it is: %s", fieldName(f), strings.Join(bad, "; ")))
				return "", false
			}
			if len(srcs) == 0 {
				out.add("dropped", "dropped:"+fieldName(f), pos, fmt.Sprintf("%s %s is not set", what, fieldName(f)))
				return "", false
			}
			if len(srcs) > 1 {
				out.add("mixed", "mixed:"+fieldName(f), pos, fmt.Sprintf("%s comes from several fields: %s", fieldName(f), itemList(srcs)))
				return "", false
			}
			for k := range srcs {
				src = k
			}
			if roleless(src) != src {
				out.add("part", "part:"+fieldName(f), pos, fmt.Sprintf("%s comes from a part of %s only", fieldName(f), roleless(src)))
				return "", false
			}
			return src, true
		}
		from := map[string]string{}
		skip := map[string]bool{}
		for _, f := range mf {
			if _, ok := out1.of[f]; !ok {
				continue
			}
			if s, ok := judge(out1, f, "the message field"); ok {
				from[fieldName(f)] = s
			} else {
				skip[fieldName(f)] = true
			}
		}
		for _, f := range ff {
			if _, ok := in1.of[f]; !ok {
				out.add("dropped", "dropped:"+fieldName(f), w.pos(in1.root.Pos()), fmt.Sprintf("the field %s of a %s that is delivered is never set", fieldName(f), kind))
				continue
			}
			s, ok := judge(in1, f, "the frame field")
			if !ok || skip[s] {
				continue
			}
			if from[s] == "" {
				out.add("dropped", "dropped:"+fieldName(f), in1.pos[f], fmt.Sprintf("%s is taken from %s, which the server does not set", fieldName(f), s))
			} else if from[s] != fieldName(f) {
				out.add("swapped", "swapped:"+fieldName(f), in1.pos[f], fmt.Sprintf("%s arrives with the value of %s (via %s)", fieldName(f), from[s], s))
			}
		}
	}
	r.count("fields_followed", nf)
	r.addAll(out.list)
}

// convRoots: functions that may hold a complete conversion: those that make the destination, and their callers within
// the package.
func (w *World) convRoots(dst types.Type, src map[*types.Var]bool) []*ssa.Function {
	var makers []*ssa.Function
	for _, f := range w.funcs {
		if !w.inRepo(f) || !strings.HasSuffix(w.fnPkg(f), "/scope") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), deref(dst)) {
					makers = append(makers, f)
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if seen[f] || d > 4 {
			return
		}
		seen[f] = true
		res = append(res, f)
		for _, c := range w.callSitesOf(f) {
			if w.fnPkg(c.Parent()) == w.fnPkg(f) {
				up(c.Parent(), d+1)
			}
		}
	}
	for _, f := range makers {
		up(f, 0)
	}
	res = uniqFns(res)
	sort.Slice(res, func(i, j int) bool { return fnKey(res[i]) < fnKey(res[j]) })
	return res
}

// storesTo: the field belongs to an object of this type (embedded structs are shared by several types).
func (b *backslice) storesTo(s *bstore, t types.Type) bool {
	st, ok := s.in.(*ssa.Store)
	if !ok {
		return false
	}
	var base func(v ssa.Value, c *bctx, d int) bool
	base = func(v ssa.Value, c *bctx, d int) bool {
		if types.Identical(deref(v.Type()), deref(t)) {
			return true
		}
		if d > 8 {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return base(x.X, c, d+1)
		case *ssa.Parameter:
			if c.call == nil {
				return true
			}
			for i, p := range c.fn.Params {
				if p == x && i < len(c.call.Common().Args) {
					return base(c.call.Common().Args[i], c.parent, d+1)
				}
			}
		case *ssa.Alloc:
			// a part that is copied into the whole
			for _, ref := range *x.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok {
					for _, r2 := range *u.Referrers() {
						switch y := r2.(type) {
						case *ssa.Store:
							if y.Val == u && base(y.Addr, c, d+1) {
								return true
							}
						case *ssa.Return:
							cv, ok := c.call.(ssa.Value)
							if !ok || cv.Referrers() == nil {
								return true
							}
							for _, r3 := range *cv.Referrers() {
								if st, ok := r3.(*ssa.Store); !ok || st.Val != cv || base(st.Addr, c.parent, d+1) {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		return true
	}
	return base(st.Addr.(*ssa.FieldAddr).X, s.ctx, 0)
}

// vagueStore: whole structs of this type are copied.
func (b *backslice) vagueStore(t types.Type) bool {
	for _, s := range b.stores {
		if s.field != nil && isStruct(s.field.Type()) && s.field.Embedded() && types.Identical(deref(s.field.Type()), deref(t)) {
			return true
		}
	}
	return false
}
