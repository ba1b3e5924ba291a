package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C12", title: "Image data holds exactly the colours of the picture it was made from",
		rule: "The function that turns a picture into image data is interpreted for an arbitrary picture, with bounds anywhere, and one picked pixel: the table is made for the size of the bounds, every channel stored anywhere is the channel of the picture there, reduced to eight bits and divided by 255, and on every path the picked pixel gets all of its channels. The function that makes empty data is interpreted with one picked row: every row is a list of its own of the right length and the data knows its size. The methods are interpreted to return the pixel at the given place and the size.",
		run:  checkImages})
}

func isPicture(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "image" && n.Obj().Name() == "Image"
}

func checkImages(c *Ctx) {
	n, m := 0, 0
	rts := map[string]bool{}
	for _, f := range exportedFuncs(c.L) {
		f := f
		if fnPkgPath(f) != modPath+"/image" || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		if ps := f.Signature.Params(); ps.Len() == 1 && isPicture(ps.At(0).Type()) {
			n++
			rts[f.Signature.Results().At(0).Type().String()] = true
			c.guard("data of "+f.Name(), func() { pictureData(c, f) })
		}
	}
	for _, f := range exportedFuncs(c.L) {
		f := f
		if fnPkgPath(f) != modPath+"/image" || f.Signature.Recv() == nil {
			continue
		}
		t := f.Signature.Recv().Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if rts[t.String()] {
			m++
			c.guard("data read by "+f.Name(), func() { readData(c, f, t) })
		}
	}
	c.need("functions that convert pictures", n, 1)
	c.need("methods of image data", m, 2)
}

// cover follows whether the picked entry of a table gets all of its parts.
type cover struct {
	e    *Engine
	list func() *Slice
	x, y *Poly
	w    *Poly
	et   types.Type
}

func newCover(e *Engine, st *State, nm string, w, h *Poly, et types.Type, list func() *Slice) *cover {
	k := &cover{e: e, list: list, x: skolem("column:" + nm), y: skolem("row:" + nm), w: w, et: et}
	for i, z := range []*Poly{k.x, k.y} {
		st.assume(cGE(z))
		st.assume(cGT(sub([]*Poly{w, h}[i], z)))
	}
	st.tags["inrow"], st.tags["incol"] = "", ""
	e.onBack = func(e *Engine, s *State, id string) {
		if e.outer {
			s.tags["inrow"], s.tags["incol"] = "", ""
		}
	}
	for i := 0; i < leaves(et); i++ {
		st.tags[fmt.Sprint("part", i)] = ""
	}
	return k
}

// load reads the picked row under one name.
func (k *cover) load(s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
	l := k.list()
	if l == nil || o.key != l.obj.key || len(p) != 1 || p[0].idx == nil {
		return
	}
	l = rewriteTo(s, l).(*Slice)
	i := p[0].idx
	s.tags["inrow"] = "0"
	k.e.hint(cGE(sub(k.y, sub(i, l.off))))
	if s.ask(cEQ(sub(sub(i, l.off), k.y))) {
		s.tags["inrow"] = "1"
		i = add(rewriteTo(s, l).(*Slice).off, k.y)
		s.top().env[at.(ssa.Value)] = s.read(o, Path{{idx: i}}, t)
	}
	// the rows are as long as the table is wide, which bareTable decides
	if r, ok := s.read(o, Path{{idx: i.rw(s)}}, t).(*Slice); ok {
		s.assume(cEQ(sub(r.len, k.w.rw(s))))
	}
}

// store marks part i of the entry at x, y.
func (k *cover) store(s *State, x, y *Poly, i int) {
	s.tags["incol"] = "0"
	k.e.hint(cGE(sub(k.x, x)))
	if s.ask(cEQ(sub(x, k.x))) {
		s.tags["incol"] = "1"
		if s.ask(cEQ(sub(y.rw(s), k.y))) {
			s.tags[fmt.Sprint("part", i)] = "1"
		}
	}
}

func (k *cover) all(s *State) bool {
	for i := 0; i < leaves(k.et); i++ {
		if s.tags[fmt.Sprint("part", i)] != "1" {
			return false
		}
	}
	return true
}

// rowOf is the row of l that o is.
func rowOf(l *Slice, o *Obj) *Poly {
	if l == nil || o.atom == nil || o.atom.op != "sel" || o.atom.obj != l.obj || len(o.atom.path) != 1 {
		return nil
	}
	return sub(o.atom.path[0].idx, l.off)
}

// oneOf is an atom of v that is t, an application to numbers, by the facts.
func oneOf(s *State, v Value, t *Poly) *Poly {
	var want *Atom
	t.atoms(func(a *Atom) { want = a })
	out := t
	deepAtoms(v, func(a *Atom) {
		if a.op != want.op || len(a.args) != len(want.args) {
			return
		}
		for i, x := range a.args {
			p, ok1 := x.(*Poly)
			q, ok2 := want.args[i].(*Poly)
			if !ok1 || !ok2 || !sameNum(s, p, q) {
				return
			}
		}
		out = atomPoly(a)
	})
	return out
}

func pictureData(c *Ctx, f *ssa.Function) {
	L := c.L
	nm := f.Name()
	e := newEngine(L)
	e.eager = true
	e.noIdle = func(*State) bool { return true }
	idealConv = true
	st := newState()
	pic := sym("picture:"+nm, f.Params[0].Type())
	num := func(n string) *Poly { return skolem(n + ":" + nm) }
	w, h, bx, by := num("pw"), num("ph"), num("bx"), num("by")
	st.assume(cGT(w))
	st.assume(cGT(h))
	rt := f.Signature.Results().At(0).Type()
	_, et := tableTypes(rt)
	if leaves(et) != 3 {
		panic(undecided("a pixel does not have three channels"))
	}
	var bare *ssa.Function
	var list *Slice
	k := newCover(e, st, nm, w, h, et, func() *Slice { return list })
	bounds := func() *Struct {
		pt := func(x, y *Poly) *Struct { return mkStruct([]Value{x, y}) }
		return mkStruct([]Value{pt(bx, by), pt(add(bx, w), add(by, h))})
	}
	rw := func(s *State, p *Poly) *Poly { return rewriteTo(s, p).(*Poly) }
	channel := func(x, y Value, i int) *Poly {
		a := appAtom(fmt.Sprint("channel", i), true, x, y)
		a.lo = ratZero
		return atomPoly(a)
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		at := e.at(ci.instr)
		one := func(v Value) ([]Outcome, bool) { return []Outcome{{st: st, res: v}}, true }
		if g := ci.callee; g != nil && fnPkgPath(g) == "image" && g.Signature.Recv() != nil && len(ci.args) == 1 {
			if b := flatNums(ci.args[:1]); len(b) == 4 {
				switch g.Name() {
				case "Dx":
					return one(sub(b[2], b[0]))
				case "Dy":
					return one(sub(b[3], b[1]))
				case "Size":
					return one(mkStruct([]Value{sub(b[2], b[0]), sub(b[3], b[1])}))
				}
			}
		}
		if g := ci.callee; g != nil && g.Signature.Recv() == nil && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), rt) {
			ok := len(ci.args) == 2
			for i, want := range []*Poly{w, h}[:min(len(ci.args), 2)] {
				q, isN := ci.args[i].(*Poly)
				ok = ok && isN && sameNum(st, q, rw(st, want))
			}
			e.obligation("the data is made for the size of the picture", nm, at, ok && (bare == nil || bare == g), "%s is called with other sizes", g.Name())
			bare = g
			tab := sym("bare:"+nm, rt)
			list = tableList(tab, rt)
			list.len = rw(st, h)
			if i := fieldIdxOK(rt, "width"); i >= 0 {
				tab.(*Struct).fs[i], tab.(*Struct).fs[fieldIdx(rt, "height")] = rw(st, w), rw(st, h)
			}
			return one(tab)
		}
		if ci.method == nil {
			return nil, false
		}
		switch {
		case ci.method.Name() == "Bounds" && sameVal(st, ci.args[0], rewriteTo(st, pic)):
			return one(bounds())
		case ci.method.Name() == "At" && sameVal(st, ci.args[0], rewriteTo(st, pic)):
			return one(symValue(appAtom("colour", false, ci.args[1], ci.args[2]), ci.method.Type().(*types.Signature).Results().At(0).Type()))
		case ci.method.Name() == "RGBA":
			var a *Atom
			switch v := ci.args[0].(type) {
			case *Opaque:
				a = v.a
			}
			if a == nil || a.op != "colour" {
				panic(undecided("a colour that is not one of the picture"))
			}
			x, y := a.args[0], a.args[1]
			var out []Value
			for i := 0; i < 4; i++ {
				out = append(out, channel(x, y, i))
			}
			return one(mkStruct(out))
		}
		return nil, false
	}
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) { k.load(s, at, o, p, t) }
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !o.array || o.typ == nil || isVarargs(at) {
			return
		}
		if list != nil && o.key == list.obj.key {
			e.obligation("the rows stay as they were made", nm, e.at(at), false, "one is replaced")
			return
		}
		if !types.Identical(o.typ, et) || len(p) != 2 || p[0].idx == nil {
			return
		}
		y := rowOf(list, o)
		if y == nil {
			e.obligation("a pixel has the colour of the picture at its place", nm, e.at(at), false, "%s is stored in an unknown row", showVal(v))
			return
		}
		i, x := p[1].field, p[0].idx
		g, ok := v.(*Poly)
		hit := false
		if ok {
			ch := channel(add(rw(s, bx), x), add(rw(s, by), y), i)
			ch = oneOf(s, v, ch)
			for _, q := range []*Poly{app("shr", true, ch, constInt(8)), s.idiv(ch, constInt(256))} {
				hit = hit || sameNum(s, g, mul(q, recip(constInt(255))))
			}
		}
		e.obligation("a pixel has the colour of the picture at its place", fmt.Sprint(nm, " channel ", i), e.at(at), hit, "%s is stored at %s, %s", showVal(v), x.key, y.key)
		k.store(s, x, y, i)
	}
	rets := 0
	for _, o := range e.execFunc(st, f, []Value{pic}, nil, nm, nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		s, at := o.st, L.posOf(f.Pos())
		got := tableList(o.res, rt)
		ok := list != nil && got.obj == list.obj && sameNum(s, got.len, rw(s, h)) && sameNum(s, got.off, rw(s, list.off))
		for n, want := range map[string]*Poly{"width": w, "height": h} {
			if i := fieldIdxOK(rt, n); ok && i >= 0 {
				q, isN := o.res.(*Struct).fs[i].(*Poly)
				ok = isN && sameNum(s, q, rw(s, want))
			}
		}
		e.obligation("the filled data is returned", nm, at, ok, "%s is returned", showVal(o.res))
		e.obligation("every pixel gets all of its channels", nm, at, k.all(s), "a pixel may be left out")
	}
	c.need("returns of "+nm, rets, 1)
	c.take(e)
	if bare == nil {
		panic(undecided("the data is not made by a function of its own"))
	}
	bareTable(c, bare, rt, w, h)
}

// readData: the methods give back what the data holds.
func readData(c *Ctx, f *ssa.Function, t types.Type) {
	e := newEngine(c.L)
	e.eager = true
	st := newState()
	var args []Value
	for i, p := range f.Params {
		args = append(args, sym(fmt.Sprint("read:", f.Name(), i), p.Type()))
	}
	held := func(s *State, n string) Value {
		i := fieldIdx(t, n)
		if p, ok := args[0].(*Ptr); ok {
			p = rewriteTo(s, p).(*Ptr)
			return s.read(p.obj, p.path.with(Step{field: i}), t.Underlying().(*types.Struct).Field(i).Type())
		}
		return rewriteTo(s, args[0]).(*Struct).fs[i]
	}
	sg := f.Signature
	rets := 0
	at := c.L.posOf(f.Pos())
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, vt types.Type, v Value) {
		if o.kind == "sym" || o.atom != nil {
			e.obligation("reading leaves the data as it is", f.Name(), e.at(at), false, "%s is stored", showVal(v))
		}
	}
	rowT, et := tableTypes(t)
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		s := o.st
		switch {
		case sg.Params().Len() == 0 && sg.Results().Len() == 2:
			ok := sameVal(s, o.res, mkStruct([]Value{held(s, "width"), held(s, "height")}))
			e.obligation("the size is that of the data", f.Name(), at, ok, "%s is returned", showVal(o.res))
		case sg.Params().Len() == 2 && types.Identical(sg.Results().At(0).Type(), et):
			l := held(s, "pixels").(*Slice)
			row, ok := s.read(l.obj, Path{{idx: add(l.off, rewriteTo(s, args[2]).(*Poly))}}, rowT).(*Slice)
			if ok && row.obj != nil {
				ok = sameVal(s, o.res, s.read(row.obj, Path{{idx: add(row.off, rewriteTo(s, args[1]).(*Poly))}}, et))
			}
			e.obligation("the pixel at the place asked for is returned", f.Name(), at, ok, "%s is returned", showVal(o.res))
		default:
			rets--
		}
	}
	if strings.HasPrefix(f.Name(), "RGBAt") || f.Name() == "Size" {
		c.need("returns of "+f.Name(), rets, 1)
	}
	c.take(e)
}
