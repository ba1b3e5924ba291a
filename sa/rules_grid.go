package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C10", title: "The triangle list, the grid and the free list stay in step",
		rule: "Interpreted on an arbitrary grid, triangle and cell: removing a triangle undoes exactly what adding it did to every cell and leaves the other indexes alone, no cell outside the grid is touched, and every point in the circumcircle is looked up in a cell that holds the triangle. A triangle is filed in the list and the grid under the same index, which comes off the free list or extends the list; freeing marks it and puts it on the free list. Each search reports exactly the triangles of the cell of the point that satisfy its condition, once each, and the removing ones take exactly those out of the grid.",
		run:  checkGrid})
}

type gridSetup struct {
	L          *Loaded
	gT, tT, pT types.Type
	tabT       types.Type // [][][]uint16
	colT       types.Type
	cellT      types.Type
	iTab       int
	g          *Ptr
	cols, rows *Poly
}

func newGridSetup(L *Loaded) *gridSetup {
	s := &gridSetup{L: L, gT: L.typ(incr, "CircumcircleGrid"), tT: L.typ(incr, "Triangle"), pT: L.typ(incr, "Point")}
	s.iTab = fieldIdx(s.gT, "triangles")
	s.tabT = s.gT.Underlying().(*types.Struct).Field(s.iTab).Type()
	s.colT = s.tabT.Underlying().(*types.Slice).Elem()
	s.cellT = s.colT.Underlying().(*types.Slice).Elem()
	s.g = sym("grid", types.NewPointer(s.gT)).(*Ptr)
	return s
}

func (g *gridSetup) fld(name string) (Path, types.Type) {
	i := fieldIdx(g.gT, name)
	return g.g.path.with(Step{field: i}), g.gT.Underlying().(*types.Struct).Field(i).Type()
}

// entry is a state with a well-formed grid: cols x rows cells of positive size.
func (g *gridSetup) entry() *State {
	st := newState()
	rd := func(n string) *Poly {
		p, t := g.fld(n)
		return st.read(g.g.obj, p, t).(*Poly)
	}
	g.cols, g.rows = rd("cols"), rd("rows")
	lenHook = func(t types.Type) *Poly {
		if types.Identical(t, g.colT) {
			return g.cols
		}
		if types.Identical(t, g.cellT) {
			return g.rows
		}
		return nil
	}
	st.assume(cGT(g.cols))
	st.assume(cGT(g.rows))
	for _, n := range []string{"colPixels", "rowPixels"} {
		st.assume(cGT(rd(n)))
		st.assume(cGT(recip(rd(n))))
	}
	return st
}

// cell is the place of the header of cell (x,y).
func (g *gridSetup) cell(st *State, x, y *Poly) (*Obj, Path) {
	p, t := g.fld("triangles")
	tab := st.read(g.g.obj, p, t).(*Slice)
	col := st.read(tab.obj, Path{{idx: add(tab.off, x)}}, g.colT).(*Slice)
	return col.obj, Path{{idx: add(col.off, y)}}
}

func checkGrid(c *Ctx) {
	L := c.L
	addF, remF := L.method(L.typ(incr, "CircumcircleGrid"), "AddTriangle"), L.method(L.typ(incr, "CircumcircleGrid"), "RemoveTriangle")
	c.guard("adding and removing a triangle", func() { gridAddRemove(c, addF, remF, false) })
	c.guard("cells of adding and removing a triangle", func() { gridAddRemove(c, addF, remF, true) })
	c.guard("triangle list", func() { gridList(c, addF) })
	for _, n := range []string{"HasPoint", "RemoveCircumcirclesThatContain", "IterCircumcirclesThatContain", "RemoveThatHasVertex", "IterThatHasVertex"} {
		f := L.method(L.typ(incr, "CircumcircleGrid"), n)
		c.guard("cells looked up by "+n, func() { gridCover(c, f, addF) })
		c.guard("search by "+n, func() { gridSearch(c, f, remF) })
	}
	c.guard("construction of the grid", func() { gridNew(c) })
}

// gridNew: a new grid has cols columns of rows cells and covers the image.
func gridNew(c *Ctx) {
	L := c.L
	g := newGridSetup(L)
	f := L.fn(incr, "NewCircumcircleGrid")
	nm := shortFn(f)
	e := newEngine(L)
	st := newState()
	args := symParams(f)
	for _, a := range args {
		st.assume(cGT(a.(*Poly)))
	}
	k := skolem("col")
	st.assume(cGT(sub(args[0].(*Poly), k)))
	e.eager = true
	e.onAlloc = func(e *Engine, st *State, o *Obj, zero bool) {
		if o.array && types.Identical(o.typ, g.colT) {
			watchCell(st, "column", o, Path{{idx: k}}, g.colT)
		}
	}
	us := g.gT.Underlying().(*types.Struct)
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked {
			e.obligation("a grid can be made", nm, L.posOf(f.Pos()), false, "may panic")
			continue
		}
		n++
		var r *Struct
		switch x := o.res.(type) {
		case *Struct:
			r = x
		case *Ptr:
			r = o.st.read(x.obj, x.path, g.gT).(*Struct)
		}
		at := func(n string) Value { return r.fs[fieldIdx(g.gT, n)] }
		eq := func(a, b *Poly) bool { return o.st.facts.entails(cEQ(sub(a, b))) }
		cols, rows := at("cols").(*Poly), at("rows").(*Poly)
		w, h := args[2].(*Poly), args[3].(*Poly)
		pos := L.posOf(f.Pos())
		e.obligation("the grid has the size asked for", nm, pos, eq(cols, args[0].(*Poly)) && eq(rows, args[1].(*Poly)), "it has %s columns and %s rows", cols.key, rows.key)
		e.obligation("the cells cover the width", nm, pos, eq(at("colPixels").(*Poly), mul(w, recip(cols))), "a column is %s wide", at("colPixels").Key())
		e.obligation("the cells cover the height", nm, pos, eq(at("rowPixels").(*Poly), mul(h, recip(rows))), "a row is %s high", at("rowPixels").Key())
		tab, ok := at(us.Field(g.iTab).Name()).(*Slice)
		e.obligation("one list of cells per column", nm, pos, ok && tab.obj != nil && eq(tab.len, cols), "there are %s columns", showVal(tab))
		if !ok || tab.obj == nil {
			continue
		}
		s := o.st
		if !s.assume(cGT(sub(tab.len, k))) {
			continue
		}
		for _, s := range e.leaf(s, func(s *State) { s.read(tab.obj, Path{{idx: add(tab.off, k)}}, g.colT) }) {
			col, ok := s.read(tab.obj, Path{{idx: add(tab.off, k)}}, g.colT).(*Slice)
			e.obligation("every column has all rows", nm, pos, ok && col.obj != nil && s.facts.entails(cEQ(sub(col.len, rewriteTo(s, rows).(*Poly)))), "a column has %s cells", showVal(col))
		}
	}
	c.need("returns of "+nm, n, 1)
	c.take(e)
}

// gridAddRemove runs AddTriangle and then RemoveTriangle with the same triangle
// and index, following an arbitrary cell (X,Y): its header is kept in vals["cur"],
// and the other cells hold arbitrary lists.
//
// With all, the grid has any size and the cell is empty before the removal: what
// is decided is that the removal looks at exactly the cells the addition wrote to,
// whatever it finds in the other cells. Otherwise the grid has one cell, and what
// is decided is that the removal undoes the addition there.
func gridAddRemove(c *Ctx, addF, remF *ssa.Function, all bool) {
	L := c.L
	g := newGridSetup(L)
	nmA, nmR := shortFn(addF), shortFn(remF)
	et := g.cellT.Underlying().(*types.Slice).Elem()
	e := newEngine(L)
	e.eager, e.memoForced, e.minmax = true, true, true
	e.noIdle = func(s *State) bool { return !all && s.tags["at"] == "cell" }
	st := g.entry()
	t := sym("tri", g.tT)
	ix := sym("index", addF.Params[2].Type()).(*Poly)
	x, y := skolem("X"), skolem("Y")
	if all {
		st.assume(cGT(sub(g.cols, x)))
		st.assume(cGT(sub(g.rows, y)))
	} else {
		x, y = constInt(0), constInt(0)
		st.assume(cEQ(addInt(g.cols, -1)))
		st.assume(cEQ(addInt(rewriteTo(st, g.rows).(*Poly), -1)))
		g.cols, g.rows = constInt(1), constInt(1)
	}
	hdr := sym("cell", g.cellT).(*Slice)
	other := sym("othercell", g.cellT).(*Slice)
	weakHook = func(o *Obj, t types.Type) Value {
		if o != other.obj && (!o.array || o.typ == nil || !types.Identical(o.typ, g.cellT)) {
			return nil
		}
		if t == nil {
			return Nil{}
		}
		if types.Identical(t, g.cellT) {
			return other
		}
		nthSeq++
		return leafValue(symAtom(fmtKey("anyelem", nthSeq), isIntType(t), e.scopeSet()), t)
	}
	j := skolem("j")
	st.assume(cGT(sub(hdr.len, j)))
	watchCell(st, "listed", hdr.obj, Path{{idx: add(hdr.off, j)}}, et)
	st.vals["hdr"], st.vals["cur"], st.vals["old"], st.vals["ix"] = hdr, hdr, st.read(hdr.obj, Path{{idx: add(hdr.off, j)}}, et), ix
	st.vals["j"] = j
	st.assume(cNE(sub(st.vals["old"].(*Poly), ix)))
	st.tags["added"], st.tags["removed"], st.tags["written"] = "", "", ""
	phase := "add"
	e.onIndex = func(e *Engine, st *State, at ssa.Instruction, idx, ln *Poly) {
		ia, ok := at.(*ssa.IndexAddr)
		if !ok || !types.Identical(ia.X.Type(), g.tabT) && !types.Identical(ia.X.Type(), g.colT) {
			return
		}
		e.counts["cell accesses"]++
		e.obligation("no cell outside the grid is touched", shortFn(at.Parent()), e.at(at), st.facts.entails(cGE(idx)) && st.facts.entails(cGT(sub(ln, idx))), "index %s of %s", idx.key, ln.key)
	}
	isCell := func(s *State, o *Obj, p Path) string {
		co, cp := g.cell(s, x, y)
		r, cd := s.objAlias(o, co)
		if r == -1 || r == 0 && (cd == nil || !s.ask(cd)) {
			return "other column"
		}
		r, cd = s.pathAlias(p, cp)
		if r == 1 || r == 0 && cd != nil && s.ask(cd) {
			return "cell"
		}
		return "other row"
	}
	busy := false
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		if busy {
			return
		}
		busy = true
		defer func() { busy = false }()
		if types.Identical(t, g.colT) {
			s.tags["at"] = ""
			return
		}
		if types.Identical(t, g.cellT) {
			// traces at other cells are kept apart until the next cell
			in := isCell(s, o, p)
			if phase == "remov" {
				s.tags["at"] = in
			}
			if in == "cell" {
				s.tags["visited"] = "+"
				s.top().env[at.(ssa.Value)] = s.vals["cur"]
				return
			}
			n := e.fresh(e.at(at)+"#n", types.Typ[types.Int]).(*Poly)
			n.singleAtom().lo = ratZero
			s.top().env[at.(ssa.Value)] = &Slice{obj: other.obj, off: constInt(0), len: n}
			return
		}
		h := s.vals["hdr"].(*Slice)
		if o != h.obj || len(p) != 1 || s.tags["written"] != "" {
			return
		}
		// the index is not listed before it is added
		if v, ok := s.top().env[at.(ssa.Value)].(*Poly); ok && s.ask(cGT(sub(add(h.off, h.len), p[0].idx))) {
			s.assume(cNE(sub(v, s.vals["ix"].(*Poly))))
		}
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if busy {
			return
		}
		busy = true
		defer func() { busy = false }()
		switch {
		case types.Identical(t, g.cellT):
			if isCell(s, o, p) == "cell" {
				s.vals["cur"] = v
				if k := phase + "ed"; len(s.tags[k]) < 2 {
					s.tags[k] += "+"
				}
			}
		case phase == "remov" && o != other.obj && types.Identical(t, et):
			s.tags["written"] = "+"
		}
	}
	e.onAppend = nil
	eq := func(s *State, a, b *Poly) bool { return s.facts.entails(cEQ(sub(a, b))) }
	adds, untouched, rets := 0, 0, 0
	addOuts := e.execFunc(st, addF, []Value{g.g, t, ix}, nil, "Add", nil)
	dbg("add outcomes", len(addOuts))
	for _, o := range addOuts {
		if o.panicked {
			e.obligation("no panic", nmA, L.posOf(addF.Pos()), false, "may panic")
			continue
		}
		s := o.st
		h, ok := s.vals["cur"].(*Slice)
		h0 := s.vals["hdr"].(*Slice)
		pos := L.posOf(addF.Pos())
		if !ok || h.obj == nil {
			e.obligation("a cell changes only by the new index", nmA, pos, false, "a cell becomes %s", showVal(s.vals["cur"]))
			continue
		}
		if eq(s, h.len, h0.len) {
			untouched++
		} else {
			adds++
			e.obligation("the index is listed once in a cell", nmA, pos, eq(s, h.len, addInt(h0.len, 1)), "the cell has length %s afterwards", h.len.key)
			last := func(s *State) *Poly {
				h := s.vals["cur"].(*Slice)
				return s.read(h.obj, Path{{idx: add(h.off, s.vals["hdr"].(*Slice).len)}}, et).(*Poly)
			}
			for _, s2 := range e.leaf(s.clone(), func(s *State) { last(s) }) {
				v := last(s2)
				e.obligation("the index of the triangle is listed", nmA, pos, eq(s2, v, s2.vals["ix"].(*Poly)), "the cell lists %s", v.key)
			}
		}
		dbg("remove", s.vals["cur"].Key())
		phase = "remov"
		s.tags["visited"], s.tags["at"] = "", ""
		if all {
			s.vals["cur"] = &Slice{obj: h.obj, off: h.off, len: constInt(0)}
		}
		for _, o2 := range e.execFunc(s.clone(), remF, []Value{g.g, rewriteTo(s, t), rewriteTo(s, ix)}, nil, "Remove", nil) {
			if o2.panicked {
				e.obligation("no panic", nmR, L.posOf(remF.Pos()), false, "may panic")
				continue
			}
			rets++
			pos := L.posOf(remF.Pos())
			if all {
				if o2.st.tags["visited"] == "" && o2.st.tags["added"] != "" {
				}
				e.obligation("removal looks at the cells the addition wrote to", nmR, pos, o2.st.tags["visited"] != "" || o2.st.tags["added"] == "", "a cell written to by the addition may not be looked at by the removal")
				e.obligation("other cells are left alone", nmR, pos, o2.st.tags["removed"] == "", "a cell that does not list the index is changed")
				continue
			}
			h, ok := o2.st.vals["cur"].(*Slice)
			if !ok || h.obj == nil {
				e.obligation("removing a triangle undoes adding it", nmR, pos, false, "the cell becomes %s", showVal(o2.st.vals["cur"]))
				continue
			}
			rd := func(s *State) (*Slice, *Poly) {
				h := s.vals["cur"].(*Slice)
				return h, s.read(h.obj, Path{{idx: add(h.off, s.vals["j"].(*Poly))}}, et).(*Poly)
			}
			for _, s := range e.leaf(o2.st, func(s *State) { rd(s) }) {
				h, v := rd(s)
				h0 := s.vals["hdr"].(*Slice)
				if !eq(s, h.len, h0.len) {
				}
				e.obligation("removing a triangle undoes adding it", nmR, pos, eq(s, h.len, h0.len), "a cell that listed %s indexes before adding and removing lists %s afterwards", h0.len.key, h.len.key)
				e.obligation("other indexes stay listed", nmR, pos, eq(s, v, s.vals["old"].(*Poly)), "another index becomes %s", v.key)
			}
		}
		phase = "add"
	}
	c.need("accesses to cells", e.counts["cell accesses"], 2)
	c.need("traces that list the index in the cell", adds, 1)
	if all {
		c.need("traces that do not", untouched, 1)
	}
	c.need("returns after removal", rets, 1)
	c.take(e)
}

// lookup runs a search on a point of the image and yields, per trace, the cell it
// looks into.
func (g *gridSetup) lookup(e *Engine, st *State, f *ssa.Function, p Value) (outs []*State, n int) {
	type site struct{ x, y *Poly }
	tris := sym("tris", f.Params[2].Type())
	args := []Value{nil, p, tris}
	if _, ok := f.Params[0].Type().(*types.Pointer); ok {
		args[0] = g.g
	} else {
		args[0] = st.read(g.g.obj, g.g.path, g.gT)
	}
	if len(f.Params) > 3 {
		args = append(args, sym("cb", f.Params[3].Type()))
	}
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, pa Path, t types.Type) {
		if !types.Identical(t, g.cellT) || len(pa) != 1 || o.atom == nil || len(o.atom.path) == 0 {
			return
		}
		x := o.atom.path[len(o.atom.path)-1].idx
		if x == nil {
			return
		}
		if old, ok := s.vals["cellX"].(*Poly); ok {
			if old.key != x.key || s.vals["cellY"].Key() != pa[0].idx.key {
				s.tags["cells"] = "several"
			}
			return
		}
		s.vals["cellX"], s.vals["cellY"] = x, pa[0].idx
	}
	st.vals["cellX"], st.vals["cellY"] = Nil{}, Nil{}
	// only the place is of interest here: stop at the loop over the cell
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.callee == nil || inModule(ci.callee) {
			var res Value
			if rs := ci.instr.Common().Signature().Results(); rs.Len() == 1 {
				res = e.fresh(ci.ctx+"#r", rs.At(0).Type())
			}
			if ci.callee != nil && !returnsNothingUseful(ci.callee) {
				return nil, false
			}
			return []Outcome{{st: st, res: res}}, true
		}
		return nil, false
	}
	e.onPanic = nil
	for _, o := range e.execFunc(st, f, args, nil, "Find", nil) {
		if _, ok := o.st.vals["cellX"].(*Poly); ok {
			outs = append(outs, o.st)
			n++
		}
	}
	e.onLoad, e.intercept = nil, nil
	return
}

// returnsNothingUseful: conditions and callbacks do not matter for the place looked up.
func returnsNothingUseful(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return f.Name() == "RemoveTriangle"
	}
	if rs.Len() != 1 {
		return false
	}
	return f.Name() == "inCircle" || f.Name() == "HasVertex"
}

// gridCover: the cell in which a point is looked up lists every triangle whose
// circumcircle holds the point.
func gridCover(c *Ctx, f, addF *ssa.Function) {
	L := c.L
	g := newGridSetup(L)
	nm := shortFn(f)
	e := newEngine(L)
	e.eager, e.truncSplit, e.minmax, e.memoForced = true, true, true, true
	st := g.entry()
	other := sym("othercell", g.cellT).(*Slice)
	lookHook := func(o *Obj, t types.Type) Value {
		if o.array && o.typ != nil && (types.Identical(o.typ, g.cellT.Underlying().(*types.Slice).Elem()) || types.Identical(o.typ, g.tT)) {
			if t == nil {
				return Nil{}
			}
			return leafValue(symAtom("anyelem"+t.String(), isIntType(t), e.scopeSet()), t)
		}
		return nil
	}
	p := sym("p", g.pT).(*Struct)
	t := sym("tri", g.tT).(*Struct)
	ix := sym("index", addF.Params[2].Type()).(*Poly)
	cc := t.fs[fieldIdx(g.tT, "Circumcircle")].(*Struct)
	rad := cc.fs[2].(*Poly)
	st.assume(cGE(rad))
	for i, n := range []string{"colPixels", "rowPixels"} {
		q, _ := p.fs[i].(*Poly)
		path, ft := g.fld(n)
		px := recip(st.read(g.g.obj, path, ft).(*Poly))
		cnt := g.cols
		if i == 1 {
			cnt = g.rows
		}
		u := mul(q, px)
		ce := cc.fs[i].(*Poly)
		// inside the image, and inside the bounding box of the circle, in units of cells
		st.assume(cGE(u))
		st.assume(cGE(q))
		st.assume(cGE(sub(cnt, u)))
		st.assume(cGE(sub(u, mul(sub(ce, rad), px))))
		st.assume(cGE(sub(mul(add(ce, rad), px), u)))
	}
	weakHook = lookHook
	states, n := g.lookup(e, st, f, p)
	// the addition: the lists in the cells are not followed
	weakHook = func(o *Obj, t types.Type) Value {
		if o != other.obj && (!o.array || o.typ == nil || !types.Identical(o.typ, g.cellT)) {
			return nil
		}
		if t == nil {
			return Nil{}
		}
		if types.Identical(t, g.cellT) {
			return other
		}
		nthSeq++
		return leafValue(symAtom(fmtKey("anyelem", nthSeq), isIntType(t), e.scopeSet()), t)
	}
	place := func(s *State, o *Obj, p Path) string {
		co, cp := g.cell(s, s.vals["cellX"].(*Poly), s.vals["cellY"].(*Poly))
		r, cd := s.objAlias(o, co)
		if r == -1 || r == 0 && (cd == nil || !s.ask(cd)) {
			return "other column"
		}
		r, cd = s.pathAlias(p, cp)
		if r == 1 || r == 0 && cd != nil && s.ask(cd) {
			return "cell"
		}
		return "other row"
	}
	busy := false
	c.need("lookups of "+nm, n, 1)
	seen := map[string]bool{}
	rets := 0
	for _, s := range states {
		x, y := s.vals["cellX"].(*Poly), s.vals["cellY"].(*Poly)
		e.obligation("one cell is looked up", nm, L.posOf(f.Pos()), s.tags["cells"] == "", "several cells are looked up")
		if k := x.key + "|" + y.key; seen[k] {
			continue
		} else {
			seen[k] = true
		}
		e.obligation("the cell is inside the grid", nm, L.posOf(f.Pos()), s.facts.entails(cGE(x)) && s.facts.entails(cGT(sub(g.cols, x))) && s.facts.entails(cGE(y)) && s.facts.entails(cGT(sub(g.rows, y))), "cell %s,%s", x.key, y.key)
		b := s.clone()
		b.frames = nil
		b.heap = map[string]*Log{}
		b.fam = map[string]string{}
		b.tags = map[string]string{"hit": "", "at": ""}
		e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
			if busy {
				return
			}
			busy = true
			defer func() { busy = false }()
			if types.Identical(t, g.colT) {
				s.tags["at"] = ""
			}
			if types.Identical(t, g.cellT) {
				s.tags["at"] = place(s, o, p)
			}
		}
		e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
			if busy {
				return
			}
			busy = true
			defer func() { busy = false }()
			if types.Identical(t, g.cellT) && place(s, o, p) == "cell" {
				s.tags["hit"] = "1"
			}
		}
		for _, o := range e.execFunc(b, addF, []Value{g.g, rewriteTo(b, t), rewriteTo(b, ix)}, nil, "Add", nil) {
			if o.panicked {
				continue
			}
			rets++
			e.obligation("a point in the circumcircle finds the triangle", nm, L.posOf(f.Pos()), o.st.tags["hit"] == "1", "a triangle whose circumcircle holds the point may not be listed in the cell looked up")
		}
		e.onStore, e.onLoad = nil, nil
	}
	c.need("additions for "+nm, rets, 1)
	c.take(e)
}

// gridList: the triangle list and the free list.
func gridList(c *Ctx, addF *ssa.Function) {
	L := c.L
	dT := L.typ(incr, "Delaunay")
	us := dT.Underlying().(*types.Struct)
	tT := L.typ(incr, "Triangle")
	iTri, iFree := fieldIdx(dT, "triangles"), fieldIdx(dT, "freeTriangles")
	triT, freeT := us.Field(iTri).Type(), us.Field(iFree).Type()
	u16 := freeT.Underlying().(*types.Slice).Elem()
	for _, n := range []string{"addTriangle", "markFreeTriangle"} {
		f := L.method(dT, n)
		nm := shortFn(f)
		c.guard("triangle list: "+nm, func() {
			e := newEngine(L)
			e.eager = true
			st := newState()
			d := sym("list:d", f.Params[0].Type()).(*Ptr)
			arg := sym("list:"+f.Params[1].Name(), f.Params[1].Type())
			fld := func(i int) Path { return d.path.with(Step{field: i}) }
			tri := st.read(d.obj, fld(iTri), triT).(*Slice)
			fr := st.read(d.obj, fld(iFree), freeT).(*Slice)
			st.facts.add(cEQ(sub(convertNum(tri.len, types.Typ[types.Int], u16), tri.len)))
			st.vals["tri"], st.vals["free"] = tri, fr
			k, m := skolem("k"), skolem("m")
			st.assume(cGT(sub(rewriteTo(st, tri.len).(*Poly), k)))
			watchCell(st, "tri", tri.obj, Path{{idx: add(tri.off, k)}}, tT)
			st.vals["oldTri"] = st.read(tri.obj, Path{{idx: add(tri.off, k)}}, tT)
			st.vals["k"], st.vals["m"] = k, m
			st.tags["told"] = ""
			st.vals["toldT"], st.vals["toldI"] = Nil{}, Nil{}
			st.vals["last"] = Nil{}
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee == addF {
					st.tags["told"] += "1"
					st.vals["toldT"], st.vals["toldI"] = ci.args[1], ci.args[2]
					return []Outcome{{st: st}}, true
				}
				return nil, false
			}
			rets := 0
			pos := L.posOf(f.Pos())
			var starts []*State
			if n == "addTriangle" {
				a, b := st.clone(), st
				if a.assume(cGT(fr.len)) {
					a.vals["last"] = a.read(fr.obj, Path{{idx: add(fr.off, addInt(fr.len, -1))}}, u16)
					a.assume(cGT(sub(a.vals["tri"].(*Slice).len, a.vals["last"].(*Poly))))
					starts = append(starts, a)
				}
				if b.assume(cEQ(fr.len)) {
					starts = append(starts, b)
				}
			} else {
				if st.assume(cGT(sub(rewriteTo(st, tri.len).(*Poly), arg.(*Poly)))) && st.assume(cGE(arg.(*Poly))) {
					starts = append(starts, st)
				}
			}
			for _, st := range starts {
				for _, o := range e.execFunc(st, f, []Value{d, rewriteTo(st, arg)}, nil, n, nil) {
					if o.panicked {
						e.obligation("no panic", nm, pos, false, "may panic")
						continue
					}
					rets++
					chk := func(s *State, say bool) {
						ob := func(rule string, ok bool, f string, a ...any) {
							if say {
								e.obligation(rule, nm, pos, ok, f, a...)
							}
						}
						eq := func(a, b *Poly) bool { return s.facts.entails(cEQ(sub(a, b))) }
						t0, f0 := s.vals["tri"].(*Slice), s.vals["free"].(*Slice)
						t1 := s.read(d.obj, fld(iTri), triT).(*Slice)
						f1 := s.read(d.obj, fld(iFree), freeT).(*Slice)
						other := func(i *Poly) {
							k := s.vals["k"].(*Poly)
							if !s.ask(cEQ(sub(i, k))) {
								v := s.read(t1.obj, Path{{idx: add(t1.off, k)}}, tT)
								ob("other triangles are unchanged", sameVal(s, v, s.vals["oldTri"]), "another triangle becomes %s", showVal(v))
							}
						}
						if n == "addTriangle" {
							ob("the grid is told once", s.tags["told"] == "1", "told %d times", len(s.tags["told"]))
							if s.tags["told"] != "1" {
								return
							}
							ti := s.vals["toldI"].(*Poly)
							ob("the grid is told of the triangle", sameVal(s, s.vals["toldT"], rewriteTo(s, arg)), "told of %s", showVal(s.vals["toldT"]))
							in := s.facts.entails(cGT(sub(t1.len, ti)))
							ob("the index told is in the list", in, "index %s of %s", ti.key, t1.len.key)
							if !in {
								return
							}
							v := s.read(t1.obj, Path{{idx: add(t1.off, ti)}}, tT)
							ob("list and grid use the same index", sameVal(s, v, rewriteTo(s, arg)), "the list holds %s at the index told to the grid", showVal(v))
							if last, ok := s.vals["last"].(*Poly); ok {
								ob("the index comes off the free list", eq(ti, last) && eq(f1.len, addInt(f0.len, -1)) && eq(t1.len, t0.len), "index %s; the free list then has %s entries", ti.key, f1.len.key)
							} else {
								ob("the list grows when no index is free", eq(ti, t0.len) && eq(t1.len, addInt(t0.len, 1)) && eq(f1.len, constInt(0)), "index %s; the list then has %s entries", ti.key, t1.len.key)
							}
							other(ti)
							return
						}
						i := rewriteTo(s, arg).(*Poly)
						v := s.read(t1.obj, Path{{idx: add(t1.off, i)}}, tT).(*Struct)
						ob("the triangle is marked as free", eq(v.fs[0].(*Struct).fs[0].(*Poly), constInt(-1)), "its first coordinate is %s", showVal(v.fs[0].(*Struct).fs[0]))
						ob("the index goes on the free list", eq(f1.len, addInt(f0.len, 1)) && eq(s.read(f1.obj, Path{{idx: add(f1.off, f0.len)}}, u16).(*Poly), i), "the free list has %s entries", f1.len.key)
						ob("the list keeps its length", eq(t1.len, t0.len), "the list has %s entries", t1.len.key)
						other(i)
					}
					for _, s := range e.leaf(o.st, func(s *State) { chk(s.clone(), false) }) {
						chk(s, true)
					}
				}
			}
			c.need("returns of "+nm, rets, 1)
			c.take(e)
		})
	}
}

// gridSearch follows one arbitrary listed index E through a search.
func gridSearch(c *Ctx, f, remF *ssa.Function) {
	L := c.L
	g := newGridSetup(L)
	nm := shortFn(f)
	removes := len(f.Name()) > 6 && f.Name()[:6] == "Remove"
	circ := f.Name() == "RemoveCircumcirclesThatContain" || f.Name() == "IterCircumcirclesThatContain"
	has := f.Name() == "HasPoint"
	inC := L.fn(incr, "inCircle")
	hv := L.method(g.tT, "HasVertex")
	for _, want := range []bool{true, false} {
		e := newEngine(L)
		e.eager = true
		st := g.entry()
		p := sym("p", g.pT).(*Struct)
		for _, v := range p.fs {
			st.assume(cGE(v.(*Poly)))
		}
		tris := sym("tris", f.Params[2].Type()).(*Slice)
		var cb Value
		args := []Value{nil, p, tris}
		if _, ok := f.Params[0].Type().(*types.Pointer); ok {
			args[0] = g.g
		} else {
			args[0] = st.read(g.g.obj, g.g.path, g.gT)
		}
		if !has {
			cb = sym("cb", f.Params[3].Type())
			args = append(args, cb)
		}
		E := sym("E", g.cellT.Underlying().(*types.Slice).Elem()).(*Poly)
		st.assume(cGE(E))
		st.assume(cGT(sub(tris.len, E)))
		watchCell(st, "E", tris.obj, Path{{idx: add(tris.off, E)}}, g.tT)
		tE := st.read(tris.obj, Path{{idx: add(tris.off, E)}}, g.tT).(*Struct)
		// the condition of E
		cond := func(t, p *Struct) *Cond {
			if circ {
				pt := func(i int) []Value { return t.fs[i].(*Struct).fs }
				as := append(append(append(append([]Value{}, pt(0)...), pt(1)...), pt(2)...), p.fs...)
				return cGE(atomPoly(appAtom("inCircle", true, as...)))
			}
			return cAtom(appAtom("hasVertex", false, t.fs[0], t.fs[1], t.fs[2], p))
		}
		cE := cond(tE, p)
		if !want {
			cE = cE.not()
		}
		if !st.assume(cE) {
			panic(undecided("impossible condition"))
		}
		// E is a live triangle
		st.assume(cNE(addInt(tE.fs[0].(*Struct).fs[0].(*Poly), 1)))
		K := sym("K", types.Typ[types.Int]).(*Poly)
		st.assume(cGE(K))
		st.vals["E"], st.vals["tE"], st.vals["K"] = E, tE, K
		st.vals["hdr"], st.vals["q"], st.vals["qv"] = Nil{}, constInt(0), Nil{}
		st.tags["E"], st.tags["told"] = "in", ""
		st.nums["size"] = constInt(0)
		elT := g.cellT.Underlying().(*types.Slice).Elem()
		e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			switch {
			case ci.callee == inC:
				return []Outcome{{st: st, res: atomPoly(appAtom("inCircle", true, ci.args...))}}, true
			case ci.callee == hv:
				t := ci.args[0].(*Struct)
				return []Outcome{{st: st, res: cAtom(appAtom("hasVertex", false, t.fs[0], t.fs[1], t.fs[2], ci.args[1]))}}, true
			case ci.callee == remF:
				e.counts["removals"]++
				e.obligation("only a removing search removes", nm, e.at(ci.instr), removes, "removes a triangle from the grid")
				var out []Outcome
				for _, s := range e.leaf(st, func(s *State) { s.ask(cEQ(sub(ci.args[2].(*Poly), s.vals["E"].(*Poly)))) }) {
					a := rewriteTo(s, ci.args[2]).(*Poly)
					tri := rewriteTo(s, ci.args[1]).(*Struct)
					if s.ask(cEQ(sub(a, s.vals["E"].(*Poly)))) {
						cc := fieldIdx(g.tT, "Circumcircle")
						e.obligation("removed as the triangle it is", nm, e.at(ci.instr), sameVal(s, tri.fs[cc], s.vals["tE"].(*Struct).fs[cc]), "removed with circumcircle %s", showVal(tri.fs[cc]))
						e.obligation("a triangle is removed once", nm, e.at(ci.instr), s.tags["E"] == "in", "removed twice")
						s.tags["E"] = "out"
						s.nums["size"] = addInt(s.nums["size"], -1)
						out = append(out, Outcome{st: s})
						continue
					}
					qv := s.vals["qv"]
					if isNilVal(qv) || !sameVal(s, qv, a) {
						panic(undecided("the place of the index removed is not known"))
					}
					if s.tags["E"] != "in" {
						s.nums["size"] = addInt(s.nums["size"], -1)
						out = append(out, Outcome{st: s})
						continue
					}
					// the last index of the cell moves to the place of the removed one
					for _, s := range e.leaf(s, func(s *State) { s.ask(cEQ(sub(s.vals["K"].(*Poly), addInt(s.nums["size"], -1)))) }) {
						if s.ask(cEQ(sub(s.vals["K"].(*Poly), addInt(s.nums["size"], -1)))) {
							s.vals["K"] = s.vals["q"]
						}
						s.nums["size"] = addInt(s.nums["size"], -1)
						out = append(out, Outcome{st: s})
					}
				}
				return out, true
			case ci.callee == nil && cb != nil && ci.fnVal != nil && ci.fnVal.Key() == cb.Key():
				e.counts["reports"]++
				var out []Outcome
				for _, s := range e.leaf(st, func(s *State) { s.ask(cEQ(sub(ci.args[0].(*Poly), s.vals["E"].(*Poly)))) }) {
					a := rewriteTo(s, ci.args[0]).(*Poly)
					if s.ask(cEQ(sub(a, s.vals["E"].(*Poly)))) {
						e.obligation("a triangle that meets the condition is reported once", nm, e.at(ci.instr), s.tags["told"] == "", "reported twice")
						e.obligation("only triangles that meet the condition are reported", nm, e.at(ci.instr), want, "a triangle is reported although it does not meet the condition")
						s.tags["told"] = "1"
						if removes {
							// reporting frees the triangle: it is marked invalid
							s.write(tris.obj, Path{{idx: add(rewriteTo(s, tris.off).(*Poly), s.vals["E"].(*Poly))}, {field: 0}, {field: 0}}, g.pT.Underlying().(*types.Struct).Field(0).Type(), constInt(-1), nil)
						}
					}
					out = append(out, Outcome{st: s})
				}
				return out, true
			}
			return nil, false
		}
		busy := false
		e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, pa Path, t types.Type) {
			if busy {
				return
			}
			busy = true
			defer func() { busy = false }()
			if types.Identical(t, g.cellT) && len(pa) == 1 && pa[0].idx != nil {
				h := s.top().env[at.(ssa.Value)].(*Slice)
				if isNilVal(s.vals["hdr"]) {
					s.vals["hdr"] = h
					s.nums["size"] = h.len
					if !s.assume(cGT(sub(h.len, s.vals["K"].(*Poly)))) {
						return
					}
				}
				return
			}
			h, ok := s.vals["hdr"].(*Slice)
			if !ok || o != h.obj || len(pa) != 1 || !types.Identical(t, elT) {
				return
			}
			q := sub(pa[0].idx, h.off)
			if s.tags["E"] == "in" && s.ask(cEQ(sub(q, s.vals["K"].(*Poly)))) {
				s.top().env[at.(ssa.Value)] = s.vals["E"]
			} else {
				v := e.freshNth(s, "listed", elT)
				s.assume(cNE(sub(v, s.vals["E"].(*Poly))))
				s.top().env[at.(ssa.Value)] = v
			}
			s.vals["q"], s.vals["qv"] = q, s.top().env[at.(ssa.Value)]
		}
		if removes {
			e.onIndex = func(e *Engine, st *State, at ssa.Instruction, idx, ln *Poly) {}
		}
		rets := 0
		pos := L.posOf(f.Pos())
		for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
			if o.panicked {
				continue
			}
			rets++
			s := o.st
			if isNilVal(s.vals["hdr"]) {
				e.obligation("a cell is searched", nm, pos, false, "a path returns without looking at a cell")
				continue
			}
			switch {
			case has:
				r := rewriteTo(s, o.res).(*Cond)
				if want {
					e.obligation("a point that is there is found", nm, pos, s.facts.tri(r) == 1, "returns %s although a listed triangle has the point", r.Key())
				} else {
					// may still be found in another triangle
				}
			case want:
				e.obligation("every triangle that meets the condition is reported", nm, pos, s.tags["told"] == "1", "a listed triangle that meets the condition is not reported")
				if removes {
					e.obligation("every triangle reported is removed", nm, pos, s.tags["E"] == "out", "a listed triangle that meets the condition stays listed")
				}
			default:
				e.obligation("only triangles that meet the condition are removed", nm, pos, s.tags["E"] == "in", "a triangle is removed that does not meet the condition")
			}
		}
		c.need("returns of "+nm, rets, 1)
		c.take(e)
	}
}

var nthSeq int

// freshNth is an unknown value met on this trace.
func (e *Engine) freshNth(s *State, what string, t types.Type) *Poly {
	nthSeq++
	a := symAtom(fmtKey(what, nthSeq), isIntType(t), e.scopeSet())
	if isUnsigned(t) {
		a.lo = ratZero
	}
	return atomPoly(a)
}
