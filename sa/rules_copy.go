package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C09", title: "Copied state is complete and independent",
		rule: "Every Set and Copy operation of the point groups, triangulations, grids and point and polygon tables, interpreted on an arbitrary destination and source that share nothing: on return every field and element of the destination equals the source's, no array of the destination is an array of the source (apart from polygons, which are never written once filed), and the source is not written.",
		run:  checkCopies})
}

// scratch names the fields that hold no state between two operations: every
// method that uses them empties them first (checked by scratchReset).
var scratchFields = map[string]bool{
	"Delaunay.edges": true, "Delaunay.hull": true, "Delaunay.ears": true,
	"IVoronoi.points": true, "IVoronoi.newPolygon": true, "IVoronoi.pointsToUpdate": true, "IVoronoi.i": true,
	// fixed at construction to the same values for all triangulations that are copied to each other
	"CircumcircleGrid.cols": true, "CircumcircleGrid.rows": true,
}

type copyPair struct {
	what string
	dst  Value // destination's value on return
	src  Value // source's value on entry
	t    types.Type
}

func checkCopies(c *Ctx) {
	L := c.L
	n := 0
	for _, f := range L.sourceFuncs() {
		sg := f.Signature
		if sg.Recv() == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if x := os.Getenv("TRISA_ONLY"); x != "" && !strings.Contains(f.String(), x) {
			continue
		}
		if f.Name() == "Set" && sg.Params().Len() == 1 && sg.Results().Len() == 0 && types.Identical(elemOf(sg.Recv().Type()), elemOf(sg.Params().At(0).Type())) {
			n++
			c.guard(shortFn(f), func() { checkSetOp(c, f) })
		}
		if f.Name() == "Copy" && sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(elemOf(sg.Recv().Type()), elemOf(sg.Results().At(0).Type())) {
			n++
			c.guard(shortFn(f), func() { checkSetOp(c, f) })
		}
	}
	c.need("copy operations", n, 6)
	c.guard("filed polygons", func() { checkFiled(c) })
}

// checkFiled: a polygon is filed in a freshly made array of its own, and arrays
// handed out by the table are never written; so copies may share them.
func checkFiled(c *Ctx) {
	L := c.L
	pt := L.typ("triangulation/incrdelaunay", "FloatPoint")
	isPoly := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), pt)
	}
	tr := newOriginTracer(L)
	filed, writes := 0, 0
	for _, f := range L.sourceFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isPoly(x.Val.Type()) {
						os := tr.origins(x.Val)
						if isScratch(placeName(fa)) {
							c.ob("scratch arrays are not filed polygons", shortFn(f), ownArrays(os, true), L.posOf(in.Pos()), "%s receives an array from %v", placeName(fa), os)
						} else {
							filed++
							good := ownArrays(os, false)
							c.ob("a filed polygon has an array of its own", shortFn(f), good, L.posOf(in.Pos()), "%s receives an array from %v", placeName(fa), os)
						}
						continue
					}
					// a write to an element
					a := x.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					ia, ok := a.(*ssa.IndexAddr)
					if !ok || !isPoly(ia.X.Type()) {
						continue
					}
					writes++
					os := tr.origins(ia.X)
					good := ownArrays(os, true)
					c.ob("filed polygons are not written", shortFn(f), good, L.posOf(in.Pos()), "writes an element of an array from %v", os)
				case *ssa.Call:
					bi, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || len(x.Call.Args) == 0 || !isPoly(x.Call.Args[0].Type()) {
						continue
					}
					if bi.Name() != "append" && bi.Name() != "copy" {
						continue
					}
					writes++
					os := tr.origins(x.Call.Args[0])
					good := ownArrays(os, true)
					c.ob("filed polygons are not written", shortFn(f), good, L.posOf(in.Pos()), "%ss to an array from %v", bi.Name(), os)
				}
			}
		}
	}
	c.need("polygons filed", filed, 1)
	c.need("writes to polygon arrays", writes, 1)
}

// copyOps are the operations that checkCopies decides one by one.
func isCopyOp(f *ssa.Function) bool {
	sg := f.Signature
	return f.Name() == "Set" && sg.Recv() != nil && inModule(f) && sg.Params().Len() == 1 && sg.Results().Len() == 0 && types.Identical(elemOf(sg.Recv().Type()), elemOf(sg.Params().At(0).Type()))
}

func checkSetOp(c *Ctx, f *ssa.Function) {
	L := c.L
	nm := shortFn(f)
	e := newEngine(L)
	e.eager = true
	st := newState()
	isCopy := f.Name() == "Copy"
	var args []Value
	var dst, src Value
	rt := f.Params[0].Type()
	d := sym("copy:"+nm+":dst", rt)
	if isCopy {
		args, src = []Value{d}, d
	} else {
		src = sym("copy:"+nm+":src", f.Params[1].Type())
		args, dst = []Value{d, src}, d
	}
	srcFam := "*copy:" + nm + ":src"
	if isCopy {
		srcFam = "*copy:" + nm + ":dst"
	}
	fromSrc := func(o *Obj) bool { return o != nil && strings.HasPrefix(o.family, srcFam) }
	e.onStore = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		e.obligation("the source is not written", nm, e.at(at), !fromSrc(o), "writes %s of the source", p.Key())
		for _, k := range sortedKeys(st.vals) {
			if strings.HasPrefix(k, "set:") {
				e.obligation("copied parts stay as copied", nm, e.at(at), !strings.HasPrefix(k, "set:"+o.key) || o.kind == "alloc" || !strings.HasPrefix(p.Key(), strings.TrimPrefix(k, "set:"+o.key)), "%s%s is written after it was copied", o.key, p.Key())
			}
		}
		for _, w := range st.watch {
			if w.obj == o && strings.HasPrefix(w.name, "hdr:") {
				if r, _ := st.pathAlias(p, w.path); r != -1 {
					st.tags[w.name] = "set"
				}
			}
		}
	}
	e.onRange = func(e *Engine, st *State, at ssa.Instruction, d *Obj, lo, n *Poly, src *Obj, so *Poly) {
		e.obligation("the source is not written", nm, e.at(at), !fromSrc(d), "copies into %s", d.key)
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.callee == nil || ci.callee == f || !isCopyOp(ci.callee) {
			return nil, false
		}
		a, ok1 := ci.args[0].(*Ptr)
		b, ok2 := ci.args[1].(*Ptr)
		if !ok1 || !ok2 || a.obj == nil || fromSrc(a.obj) {
			return nil, false
		}
		e.counts["nested copies"]++
		st.vals["set:"+a.obj.key+a.path.Key()] = b
		return []Outcome{{st: st}}, true
	}
	// equal lengths of fixed tables, and of point groups
	base := newState()
	if !isCopy {
		fixedLens(st, dst, src, elemOf(rt), typeLast(elemOf(rt)), 0)
	}
	if !isCopy {
		copyWatch(st, rewriteTo(st, dst), "hdr:", typeLast(elemOf(rt)), elemOf(rt))
		copyWatch(st, rewriteTo(st, src), "src:", typeLast(elemOf(rt)), elemOf(rt))
	}
	for i, a := range args {
		args[i] = rewriteTo(st, a)
	}
	// element kk of a list is followed, however the list is copied
	kk := skolem("k:element")
	_, group := rt.Underlying().(*types.Slice)
	plain := func(o *Obj) bool {
		if !group || o == nil || !o.array || o.typ == nil {
			return false
		}
		_, nested := o.typ.Underlying().(*types.Slice)
		return !nested
	}
	e.onAlloc = func(e *Engine, s *State, o *Obj, zero bool) {
		if plain(o) {
			watchCell(s, "el:"+o.key, o, Path{{idx: kk}}, o.typ)
		}
	}
	if l, ok := args[len(args)-1].(*Slice); ok && group {
		st.assume(cGT(sub(l.len, kk)))
	}
	offs := func(s *State, o *Obj) *Poly {
		for _, a := range args {
			if l, ok := rewriteTo(s, a).(*Slice); ok && l.obj != nil && l.obj.key == o.key {
				return l.off
			}
		}
		return constInt(0)
	}
	if l, ok := args[0].(*Slice); ok && !isCopy && plain(l.obj) {
		watchCell(st, "el:"+l.obj.key, l.obj, Path{{idx: add(l.off, kk)}}, l.obj.typ)
	}
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		if !fromSrc(o) || !plain(o) || len(p) == 0 || p[0].idx == nil {
			return
		}
		off := offs(s, o)
		if s.ask(cEQ(sub(sub(p[0].idx, off), kk))) {
			s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(off, kk)}}, p[1:]...), t)
		}
	}
	mark := e.onStore
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !fromSrc(o) && plain(o) && len(p) > 0 && p[0].idx != nil && !isVarargs(at) {
			s.ask(cEQ(sub(sub(p[0].idx, offs(s, o)), kk)))
		}
		mark(e, s, at, o, p, t, v)
	}
	if !isCopy {
		dst, src = args[0], args[1]
	} else {
		src = args[0]
	}
	rets := 0
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked {
			e.obligation("no panic", nm, L.posOf(f.Pos()), false, "may panic although the sizes agree")
			continue
		}
		rets++
		dv := dst
		if isCopy {
			dv = o.res
		}
		var walk func(s *State, what string, dl, sl *Ptr, d, sv Value, t types.Type)
		walk = func(s *State, what string, dl, sl *Ptr, d, sv Value, t types.Type) {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ds, ok1 := d.(*Struct)
				ss, ok2 := sv.(*Struct)
				if !ok1 || !ok2 {
					panic(undecided("record expected at " + what))
				}
				if dl != nil && sl != nil {
					if v, ok := s.vals["set:"+dl.obj.key+dl.path.Key()]; ok {
						b := v.(*Ptr)
						e.obligation("copied from its counterpart", nm+": "+what, L.posOf(f.Pos()), b.obj == sl.obj && b.path.Key() == sl.path.Key(), "%s is copied from %s%s", what, b.obj.key, b.path.Key())
						return
					}
				}
				for i := 0; i < u.NumFields(); i++ {
					fn := typeLast(t) + "." + u.Field(i).Name()
					if scratchFields[fn] {
						continue
					}
					walk(s, what+"."+u.Field(i).Name(), sub1(dl, i), sub1(sl, i), ds.fs[i], ss.fs[i], u.Field(i).Type())
				}
			case *types.Pointer:
				dp, ok1 := d.(*Ptr)
				sp, ok2 := sv.(*Ptr)
				if !ok1 || !ok2 {
					panic(undecided("pointer expected at " + what))
				}
				e.obligation("nothing is shared", nm+": "+what, L.posOf(f.Pos()), !fromSrc(dp.obj), "the destination points to the source's %s", what)
				walk(s, what, dp, sp, s.read(dp.obj, dp.path, u.Elem()), rewriteTo(s, base.read(sp.obj, sp.path, u.Elem())), u.Elem())
			case *types.Slice:
				ds, ok1 := d.(*Slice)
				ss, ok2 := sv.(*Slice)
				if !ok1 || !ok2 {
					panic(undecided("slice expected at " + what))
				}
				e.obligation("lengths agree", nm+": "+what, L.posOf(f.Pos()), s.facts.entails(cEQ(sub(ds.len, ss.len))), "%s has length %s, the source's %s", what, ds.len.key, ss.len.key)
				if sharedOK(t) && fromSrc(ds.obj) {
					e.obligation("elements agree", nm+": "+what, L.posOf(f.Pos()), sameVal(s, ds, ss), "%s is not the source's", what)
					return
				}
				e.obligation("nothing is shared", nm+": "+what, L.posOf(f.Pos()), !fromSrc(ds.obj), "the destination holds the source's array %s", what)
				k := skolem("k:" + what)
				if plain(ss.obj) {
					k = kk
				}
				x := s
				if !x.assume(cGT(sub(ss.len, k))) {
					return
				}
				if ds.obj == nil {
					e.obligation("elements agree", nm+": "+what, L.posOf(f.Pos()), false, "%s is nil", what)
					return
				}
				walk(x, what+"[]", nil, nil, x.read(ds.obj, Path{{idx: add(ds.off, k)}}, u.Elem()), rewriteTo(s, base.read(ss.obj, Path{{idx: add(ss.off, k)}}, u.Elem())), u.Elem())
			default:
				e.obligation("elements agree", nm+": "+what, L.posOf(f.Pos()), sameVal(s, d, sv), "%s is %s, the source has %s", what, showVal(d), showVal(sv))
			}
		}
		for _, s := range e.leafWalk(o.st, func(s *State) { walk(s, typeLast(elemOf(rt)), nil, nil, rewriteTo(s, dv), rewriteTo(s, src), rt) }) {
			_ = s
		}
	}
	c.need("returns of "+nm, rets, 1)
	c.take(e)
}

func sub1(p *Ptr, i int) *Ptr {
	if p == nil {
		return nil
	}
	return &Ptr{obj: p.obj, path: p.path.with(Step{field: i})}
}

func typeLast(t types.Type) string {
	if n, ok := elemOf(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// sharedOK reports slices that copies may share because they are never written
// once filed (see checkFiledPolygons).
func sharedOK(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && typeLast(sl.Elem()) == "FloatPoint"
}

// fixedLens assumes that tables whose size is chosen at construction have the
// same size in both.
func fixedLens(st *State, d, s Value, t types.Type, what string, depth int) {
	_ = fmt.Sprint
	base := newState()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		dp, ok1 := d.(*Ptr)
		sp, ok2 := s.(*Ptr)
		if !ok1 || !ok2 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch fu := ft.Underlying().(type) {
			case *types.Slice:
				if _, nested := fu.Elem().Underlying().(*types.Slice); nested {
					a := base.read(dp.obj, dp.path.with(Step{field: i}), ft).(*Slice)
					b := base.read(sp.obj, sp.path.with(Step{field: i}), ft).(*Slice)
					fixedSlice(st, a, b, ft, what+"."+u.Field(i).Name())
				}
			case *types.Struct:
				fixedLens(st, &Ptr{obj: dp.obj, path: dp.path.with(Step{field: i})}, &Ptr{obj: sp.obj, path: sp.path.with(Step{field: i})}, ft, what+"."+u.Field(i).Name(), depth+1)
			case *types.Pointer:
				a, ok1 := base.read(dp.obj, dp.path.with(Step{field: i}), ft).(*Ptr)
				b, ok2 := base.read(sp.obj, sp.path.with(Step{field: i}), ft).(*Ptr)
				if ok1 && ok2 {
					fixedLens(st, a, b, fu.Elem(), what+"."+u.Field(i).Name(), depth+1)
				}
			}
		}
	case *types.Slice:
		st.assume(cEQ(sub(d.(*Slice).len, s.(*Slice).len)))
	}
}

func fixedSlice(st *State, a, b *Slice, t types.Type, what string) {
	st.assume(cEQ(sub(a.len, b.len)))
	et := t.Underlying().(*types.Slice).Elem()
	if in, ok := et.Underlying().(*types.Slice); ok {
		if _, nested := in.Elem().Underlying().(*types.Slice); nested {
			k := skolem("k:" + what)
			base := newState()
			x := base.read(a.obj, Path{{idx: add(a.off, k)}}, et).(*Slice)
			y := base.read(b.obj, Path{{idx: add(b.off, k)}}, et).(*Slice)
			fixedSlice(st, x, y, et, what+"[]")
		}
	}
}

// copyWatch makes the slice headers inside nested tables explicit, so that loops
// over the table keep track of an arbitrary one.
func copyWatch(st *State, d Value, pre, what string, t types.Type) {
	class := func(v Value) string {
		sl, ok := v.(*Slice)
		if !ok || sl.obj == nil {
			return "nil"
		}
		if sl.obj.kind == "alloc" {
			return "alloc"
		}
		return sl.obj.family
	}
	base := newState()
	var inSlice func(sl *Slice, what string, t types.Type)
	inSlice = func(sl *Slice, what string, t types.Type) {
		et := t.Underlying().(*types.Slice).Elem()
		if _, ok := et.Underlying().(*types.Slice); !ok {
			return
		}
		k := skolem("k:" + what)
		if !st.assume(cGT(sub(rewriteTo(st, sl).(*Slice).len, k))) {
			panic(undecided("impossible sizes"))
		}
		n := len(st.watch)
		pa := Path{{idx: add(sl.off, k)}}
		watchCell(st, pre+what, sl.obj, pa, et)
		for i := n; i < len(st.watch); i++ {
			st.watch[i].class = class
		}
		in := base.read(sl.obj, pa, et).(*Slice)
		inSlice(in, what+"[]", et)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		p, ok := d.(*Ptr)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fp := p.path.with(Step{field: i})
			nm := what + "." + u.Field(i).Name()
			switch fu := ft.Underlying().(type) {
			case *types.Slice:
				if sl, ok := base.read(p.obj, fp, ft).(*Slice); ok {
					inSlice(sl, nm, ft)
				}
			case *types.Struct:
				copyWatch(st, &Ptr{obj: p.obj, path: fp}, pre, nm, ft)
			case *types.Pointer:
				if q, ok := base.read(p.obj, fp, ft).(*Ptr); ok {
					copyWatch(st, q, pre, nm, fu.Elem())
				}
			}
		}
	}
}

// leafWalk is leaf for a function that only reads and reports.
func (e *Engine) leafWalk(st *State, f func(*State)) []*State {
	for _, s := range e.leafQuiet(st, f) {
		f(s.clone())
	}
	return nil
}

func (e *Engine) leafQuiet(st *State, f func(*State)) []*State {
	e.mute++
	defer func() { e.mute-- }()
	return e.leaf(st, func(s *State) { f(s.clone()) })
}

func isScratch(place string) bool {
	return strings.HasPrefix(place, "field ") && scratchFields[place[6:]]
}

// ownArrays reports that an array is new, or (if scratch) kept for scratch use only.
func ownArrays(os []string, scratch bool) bool {
	for _, o := range os {
		if o != "new" && o != "nil" && !(scratch && isScratch(o)) {
			return false
		}
	}
	return len(os) > 0
}
