package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C23", title: "Triangulations and cell diagrams are made of exactly the given points",
		rule: "The functions that turn a point group into triangles or polygons are interpreted for arbitrary points, image sizes and library results, with one point, one index triple, one cell and one vertex picked out: the picked point is handed over at its scaled and rounded place, once; the picked triple becomes the triangle of its three points at its place in the result; the picked cell becomes one polygon whose vertices are the rounded ones of the cell, in order, without repeats.",
		run:  checkMeshes})
}

func checkMeshes(c *Ctx) {
	n := 0
	for _, f := range exportedFuncs(c.L) {
		f := f
		if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !takesPoints(f) {
			continue
		}
		switch fnPkgPath(f) {
		case modPath + "/triangulation":
			n++
			c.guard("triangles of "+f.Name(), func() { triangulate(c, f) })
		case modPath + "/polygonation":
			n++
			c.guard("polygons of "+f.Name(), func() { polygonate(c, f) })
		}
	}
	c.need("functions that make meshes", n, 2)
}

func takesPoints(f *ssa.Function) bool {
	return f.Signature.Params().Len() == 3 && strings.HasPrefix(typName(f.Signature.Params().At(0).Type()), "normgeom.")
}

// mesh is what both have in common.
type mesh struct {
	c    *Ctx
	e    *Engine
	f    *ssa.Function
	nm   string
	st   *State
	args []Value
	w, h *Poly
	q    *Poly
}

func newMesh(c *Ctx, f *ssa.Function) *mesh {
	m := &mesh{c: c, f: f, nm: f.Name(), st: newState()}
	m.e = newEngine(c.L)
	m.e.eager = true
	m.e.unroll = true
	m.e.ratios = []int64{3}
	m.e.noIdle = func(*State) bool { return true }
	idealConv = true
	for _, p := range f.Params {
		m.args = append(m.args, sym("mesh:"+m.nm+":"+p.Name(), p.Type()))
	}
	m.w, m.h = m.args[1].(*Poly), m.args[2].(*Poly)
	m.q = skolem("point:" + m.nm)
	m.st.assume(cGE(m.q))
	m.st.assume(cGT(sub(m.args[0].(*Slice).len, m.q)))
	m.st.assume(cGT(m.w))
	m.st.assume(cGT(m.h))
	m.st.vals["w"], m.st.vals["h"] = m.w, m.h
	return m
}

func (m *mesh) ob(rule, at string, ok bool, format string, a ...any) {
	m.e.obligation(rule, m.nm, at, ok, format, a...)
}

func (m *mesh) points(s *State) *Slice { return rewriteTo(s, m.args[0]).(*Slice) }

// place is where point i lies in the image, before rounding.
func (m *mesh) place(s *State, i *Poly) []*Poly {
	l := m.points(s)
	x := flatNums([]Value{s.read(l.obj, Path{{idx: add(l.off, i)}}, l.obj.typ)})
	w, h := rewriteTo(s, s.vals["w"]).(*Poly), rewriteTo(s, s.vals["h"]).(*Poly)
	return []*Poly{mul(x[0], w), mul(x[1], h)}
}

// placed: v is point i at its place in the image, rounded.
func (m *mesh) placed(s *State, v Value, i *Poly) bool {
	got := flatNums([]Value{v})
	if len(got) != 2 {
		return false
	}
	for k, z := range m.place(s, i) {
		if !rounded(s, got[k], z) && !rounded(s, got[k], z.rw(s)) {
			return false
		}
	}
	return true
}

func (p *Poly) rw(s *State) *Poly { return rewriteTo(s, p).(*Poly) }

// pick reads the picked point under one name, however it was addressed.
func (m *mesh) pick(_ *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
	l := m.points(s)
	if o.key != l.obj.key || len(p) == 0 || p[0].idx == nil {
		return
	}
	if s.ask(cEQ(sub(sub(p[0].idx, l.off), m.q))) {
		s.tags["cur"] = "1"
		s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(l.off, m.q)}}, p[1:]...), t)
	} else {
		s.tags["cur"] = "0"
	}
}

func triangulate(c *Ctx, f *ssa.Function) {
	m := newMesh(c, f)
	e := m.e
	k := skolem("triple:" + m.nm)
	m.st.assume(cGE(k))
	m.st.vals["k"] = k
	for _, x := range []string{"cur", "lib"} {
		m.st.tags[x] = ""
	}
	resT := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	ptT := types.Type(nil)
	var group, index *Slice
	three := constInt(3)
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		m.pick(e, s, at, o, p, t)
		if index == nil {
			return
		}
		// the indexes of triple k are read under one name
		l := rewriteTo(s, index).(*Slice)
		if o.key != l.obj.key || len(p) == 0 || p[0].idx == nil {
			return
		}
		for j := int64(0); j < 3; j++ {
			at3 := addInt(mul(three, k), j)
			if s.ask(cEQ(sub(sub(p[0].idx, l.off), at3))) {
				s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(l.off, at3)}}, p[1:]...), t)
				return
			}
		}
	}
	e.onAlloc = func(e *Engine, s *State, o *Obj, zero bool) {
		switch {
		case !o.array || o.typ == nil:
		case types.Identical(o.typ, resT):
			watchCell(s, "triangle "+o.key, o, Path{{idx: k}}, o.typ)
		case s.tags["lib"] == "" && ptT != nil && types.Identical(o.typ, ptT):
			watchCell(s, "point "+o.key, o, Path{{idx: m.q}}, o.typ)
		}
	}
	// the type of the points of the library
	for _, b := range allBlocks(f) {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && isMeshLib(call.Call.StaticCallee()) {
				ptT = call.Call.StaticCallee().Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			}
		}
	}
	if ptT == nil {
		panic(undecided("the triangulation library is not called here"))
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !o.array || o.typ == nil || len(p) == 0 || p[0].idx == nil || isVarargs(at) {
			return
		}
		if types.Identical(o.typ, resT) {
			s.ask(cEQ(sub(p[0].idx, k)))
		} else if types.Identical(o.typ, ptT) {
			s.ask(cEQ(sub(p[0].idx, m.q)))
		}
	}
	calls := 0
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if !isMeshLib(ci.callee) {
			return nil, false
		}
		calls++
		at := e.at(ci.instr)
		g, ok := ci.args[0].(*Slice)
		m.ob("the points are triangulated once", at, st.tags["lib"] == "", "they are triangulated again")
		if !ok || g.obj == nil {
			m.ob("every point is handed over", at, st.facts.entails(cEQ(m.points(st).len)), "%s is handed over", showVal(ci.args[0]))
			st.dead = true
			return []Outcome{{st: st}}, true
		}
		m.ob("every point is handed over", at, sameNum(st, g.len, m.points(st).len), "%s points are handed over", g.len.key)
		v := st.read(g.obj, Path{{idx: add(g.off, m.q)}}, ptT)
		m.ob("a point is handed over at its place in the image", at, m.placed(st, v, m.q), "point q is at %s", showVal(v))
		st.watch = nil
		st.tags["lib"] = "1"
		// the points are left as they are, whatever they are
		group = sym("group:"+m.nm, types.NewSlice(ptT)).(*Slice)
		group = &Slice{obj: group.obj, off: group.off, len: g.len}
		for i, fr := range st.frames {
			for r, x := range fr.env {
				if y, ok := x.(*Slice); ok && y.obj != nil && y.obj.key == g.obj.key {
					st.frames[i].env[r] = &Slice{obj: group.obj, off: add(group.off, sub(y.off, g.off)), len: y.len}
				}
			}
		}
		res := ci.callee.Signature.Results()
		p := sym("mesh:"+m.nm, res.At(0).Type()).(*Ptr)
		st.assume(e.isNil(p).not())
		i := fieldIdx(elemOf(res.At(0).Type()), "Triangles")
		index = st.read(p.obj, p.path.with(Step{field: i}), elemOf(res.At(0).Type()).Underlying().(*types.Struct).Field(i).Type()).(*Slice)
		// the triple looked at exists
		st.assume(cGE(sub(sub(index.len, mul(constInt(3), k)), constInt(3))))
		if res.Len() == 1 {
			return []Outcome{{st: st, res: p}}, true
		}
		return []Outcome{{st: st, res: mkStruct([]Value{p, sym("err:"+m.nm, res.At(1).Type())})}}, true
	}
	n := 0
	for _, o := range e.execFunc(m.st, f, m.args, nil, f.Name(), nil) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		s, at := o.st, c.L.posOf(f.Pos())
		m.ob("the points are triangulated once", at, s.tags["lib"] == "1", "they are not triangulated")
		res, ok := o.res.(*Slice)
		if !ok || index == nil {
			m.ob("there is one triangle for every triple", at, false, "%s is returned", showVal(o.res))
			continue
		}
		all := rewriteTo(s, index).(*Slice)
		left := sub(all.len, mul(three, res.len))
		m.ob("there is one triangle for every triple", at, s.facts.entails(cGE(left)) && s.facts.entails(cGE(sub(constInt(2), left))), "%s triangles are returned for %s indexes", res.len.key, all.len.key)
		kk := k
		in := s.clone()
		if !in.assume(cGT(sub(res.len, kk))) || res.obj == nil {
			continue
		}
		got := flatNums([]Value{in.read(res.obj, Path{{idx: add(res.off, kk)}}, resT)})
		gr := rewriteTo(in, group).(*Slice)
		ok = len(got) == 6
		for j := int64(0); ok && j < 3; j++ {
			at := addInt(mul(three, kk), j)
			ix := in.read(all.obj, Path{{idx: add(all.off, at)}}, all.obj.typ).(*Poly)
			want := flatNums([]Value{in.read(gr.obj, Path{{idx: add(gr.off, ix)}}, ptT)})
			for d := 0; d < 2; d++ {
				g := got[2*int(j)+d]
				ok = ok && (sameNum(in, g, app("trunc", true, want[d])) || sameNum(in, g, want[d]) || rounded(in, g, want[d]))
			}
		}
		m.ob("a triangle has the points of its triple in order", at, ok, "triangle k is %s", showVal(mkStruct(polyVals(got))))
	}
	c.need("returns of "+m.nm, n, 1)
	c.need("triangulations in "+m.nm, calls, 1)
	c.take(e)
}

func polyVals(ps []*Poly) (out []Value) {
	for _, p := range ps {
		out = append(out, p)
	}
	return
}

func allBlocks(f *ssa.Function) []*ssa.BasicBlock {
	out := append([]*ssa.BasicBlock(nil), f.Blocks...)
	for _, a := range f.AnonFuncs {
		out = append(out, allBlocks(a)...)
	}
	return out
}

// isMeshLib: the function of the triangulation library.
func isMeshLib(f *ssa.Function) bool {
	return f != nil && strings.HasPrefix(fnPkgPath(f), "github.com/fogleman/") && f.Signature.Recv() == nil && f.Name() == "Triangulate"
}

func polygonate(c *Ctx, f *ssa.Function) {
	m := newMesh(c, f)
	e := m.e
	for _, x := range []string{"cur", "made", "in", "cells", "outer", "put", "vcur", "app", "some"} {
		m.st.tags[x] = ""
	}
	bump := func(s *State, x string) {
		if len(s.tags[x]) < 2 {
			s.tags[x] += "1"
		}
	}
	// what is read of a list that grows cannot be named at a loop head
	weakHook = func(o *Obj, t types.Type) Value {
		if o.kind != "mu" {
			return nil
		}
		if t == nil {
			t = types.Typ[types.Int]
		}
		nthSeq++
		return e.fresh(fmtKey("merged:"+m.nm, nthSeq), t)
	}
	resT := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	vtT := resT.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem()
	e.noMerge = true
	v := skolem("corner:" + m.nm)
	var cell *Slice
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		m.pick(e, s, at, o, p, t)
		if cell == nil {
			return
		}
		l := rewriteTo(s, cell).(*Slice)
		if o.key == l.obj.key && len(p) > 0 && p[0].idx != nil {
			if s.ask(cEQ(sub(sub(p[0].idx, l.off), v))) {
				if s.tags["vcur"] != "" {
					s.tags["vcur"] = "3"
				} else {
					s.tags["vcur"] = "1"
				}
				s.vals["vx"] = v
				s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(l.off, v)}}, p[1:]...), t)
			} else {
				s.vals["vx"] = sub(p[0].idx, l.off)
			}
			return
		}
		if o.array && o.typ != nil && types.Identical(o.typ, vtT) && len(p) > 0 && p[0].idx != nil {
			// the vertex added last, which the new one is compared with
			if s.nums["count"] == nil || !sameNum(s, p[0].idx, addInt(s.nums["count"], -1)) {
				return
			}
			if len(p) == 1 {
				s.top().env[at.(ssa.Value)] = mkStruct([]Value{s.nums["last0"], s.nums["last1"]})
			} else if len(p) == 2 {
				s.top().env[at.(ssa.Value)] = s.nums[fmt.Sprint("last", p[1].field)]
			}
		}
	}
	// judge a vertex of the cell that is added to the polygon
	e.onAppend = func(e *Engine, s *State, at ssa.Instruction, x, res *Slice, vals []Value) {
		if cell == nil || res.obj == nil || !types.Identical(res.obj.typ, vtT) {
			if res.obj != nil && types.Identical(res.obj.typ, resT) {
				ok := cell != nil && len(vals) == 1
				m.ob("a cell becomes one polygon", e.at(at), ok && s.tags["put"] == "", "%d polygons are added", len(vals))
				if ok {
					p, isList := vals[0].(*Struct).fs[0].(*Slice)
					m.ob("a polygon has all its vertices", e.at(at), isList && sameNum(s, p.len, s.nums["count"]) && (p.obj == nil || sameNum(s, p.off, constInt(0))), "its vertices are %s", showVal(vals[0]))
				}
				bump(s, "put")
			}
			return
		}
		// it is the next one of an array that no other cell has
		fresh := x.obj == nil || !isWeak(x.obj) && x.obj.kind == "alloc"
		count := s.nums["count"]
		m.ob("a polygon has all its vertices", e.at(at), sameNum(s, x.len, count) && (fresh || isWeak(x.obj)), "one is added to %s, after %s", showVal(x), count.key)
		s.nums["count"], s.tags["some"] = addInt(count, int64(len(vals))), "1"
		l := rewriteTo(s, cell).(*Slice)
		i, ok := s.vals["vx"].(*Poly)
		if ok && len(vals) == 1 {
			x := flatNums([]Value{s.read(l.obj, Path{{idx: add(l.off, i.rw(s))}}, l.obj.typ)})
			g := flatNums(vals)
			ok = len(x) == 2 && len(g) == 2 && rounded(s, g[0], x[0]) && rounded(s, g[1], x[1])
		} else {
			ok = false
		}
		m.ob("a vertex of a polygon is one of its cell, rounded", e.at(at), ok, "%s is added", showVal(mkStruct(vals)))
		if s.tags["vcur"] == "1" {
			bump(s, "app")
			// it differs from the one before
			first := s.facts.entails(cEQ(x.len))
			differs := false
			for d, b := range flatNums(vals) {
				if ok && s.facts.entails(cNE(sub(s.nums[fmt.Sprint("last", d)], b))) {
					differs = true
				}
			}
			m.ob("a vertex equal to the one before is left out", e.at(at), first || differs, "it may be added again")
		}
		if g := flatNums(vals); ok && len(g) == 2 {
			s.nums["last0"], s.nums["last1"] = g[0], g[1]
		}
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if cell != nil && o.array && o.typ != nil && types.Identical(o.typ, vtT) && !isVarargs(at) {
			if _, ok := at.(*ssa.Store); ok {
				m.ob("a vertex stays as it was added", e.at(at), false, "it is overwritten")
			}
		}
	}
	e.onBack = func(e *Engine, s *State, id string) {
		if cell == nil || s.tags["vcur"] != "1" {
			return
		}
		if s.tags["app"] == "" {
			l := rewriteTo(s, cell).(*Slice)
			x := flatNums([]Value{s.read(l.obj, Path{{idx: add(l.off, v)}}, l.obj.typ)})
			same := len(x) == 2
			for d, z := range x {
				same = same && s.tags["some"] == "1" && rounded(s, s.nums[fmt.Sprint("last", d)], z)
			}
			m.ob("only a vertex equal to the one before is left out", e.L.posOf(f.Pos()), same, "another one may be left out")
		} else {
			m.ob("a vertex is added once", e.L.posOf(f.Pos()), s.tags["app"] == "1", "it is added %d times", len(s.tags["app"]))
		}
		s.tags["vcur"] = "2"
	}
	incrPkg := modPath + "/" + incr
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		g := ci.callee
		if g == nil || fnPkgPath(g) != incrPkg {
			return nil, false
		}
		at := e.at(ci.instr)
		sg := g.Signature
		if sg.Recv() != nil {
			if g.Name() != "Insert" {
				return nil, false
			}
			own := st.vals["own"]
			m.ob("the points go into the new triangulation", at, own != nil && sameVal(st, ci.args[0], own), "they go into %s", showVal(ci.args[0]))
			m.ob("the points go in before the cells are visited", at, st.tags["cells"] == "", "one goes in afterwards")
			if st.tags["cur"] == "1" {
				m.ob("a point goes in at its place in the image", at, m.placed(st, ci.args[1], m.q), "%s goes in", showVal(ci.args[1]))
				bump(st, "in")
			}
			return []Outcome{{st: st, res: cTrue}}, true
		}
		cb := -1
		for i, a := range ci.args {
			if _, ok := a.(*Fn); ok {
				cb = i
			}
		}
		if cb < 0 {
			if sg.Results().Len() != 1 || len(ci.args) != 2 {
				return nil, false
			}
			bump(st, "made")
			fs := flatNums(ci.args)
			m.ob("the triangulation has the size of the image", at, sameNum(st, fs[0], m.w.rw(st)) && sameNum(st, fs[1], m.h.rw(st)), "it is made %s", showVal(mkStruct(ci.args)))
			v := sym("made:"+m.nm, sg.Results().At(0).Type())
			st.vals["own"] = v
			return []Outcome{{st: st, res: v}}, true
		}
		// the cells
		own := st.vals["own"]
		ok := own != nil
		var size []*Poly
		for i, a := range ci.args {
			if i == cb {
				continue
			}
			if p, isNum := a.(*Poly); isNum {
				size = append(size, p)
				continue
			}
			ok = ok && sameVal(st, a, own)
		}
		ok = ok && len(size) == 2 && sameNum(st, size[0], m.w.rw(st)) && sameNum(st, size[1], m.h.rw(st))
		m.ob("the cells are those of the triangulation in the image", at, ok, "they are taken of %s", showVal(mkStruct(ci.args)))
		bump(st, "cells")
		fn := ci.args[cb].(*Fn)
		arg := sym("cell:"+m.nm, fn.fn.Signature.Params().At(0).Type()).(*Slice)
		cells := carried(e, st.clone(), fn, []Value{arg}, "cell:"+ci.ctx)
		forget(e, st, cells, "before:"+ci.ctx)
		// where the polygons are collected
		var list cellRef
		var before *Slice
		for _, c := range cells {
			if sl, ok := c.t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), resT) {
				list = c
				before, _ = st.read(c.o, c.p, c.t).(*Slice)
			}
		}
		if before == nil {
			m.ob("a cell becomes one polygon", at, false, "nothing is collected")
			return []Outcome{{st: st}}, true
		}
		s := st.clone()
		s.assume(cGE(before.len))
		s.nums["count"], s.nums["last0"], s.nums["last1"] = constInt(0), constInt(0), constInt(0)
		cell = arg
		s.assume(cGE(v))
		s.assume(cGT(sub(arg.len, v)))
		n := 0
		for _, o := range e.callFn(s, fn, []Value{arg}, "cell:"+ci.ctx) {
			if o.panicked || o.st.dead {
				continue
			}
			n++
			after, ok := o.st.read(list.o, list.p, list.t).(*Slice)
			b := rewriteTo(o.st, before).(*Slice)
			m.ob("a cell becomes one polygon", at, ok && sameNum(o.st, after.len, addInt(b.len, 1)) && o.st.tags["put"] == "1", "the polygons are %s", showVal(after))
			m.ob("every vertex is considered", at, o.st.tags["vcur"] == "2", "a vertex is left out")
		}
		cell = nil
		c.need("ways through a cell", n, 1)
		forget(e, st, cells, "after:"+ci.ctx)
		st.vals["collected"] = st.read(list.o, list.p, list.t)
		return []Outcome{{st: st}}, true
	}
	n := 0
	for _, o := range e.execFunc(m.st, f, m.args, nil, f.Name(), nil) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		s, at := o.st, c.L.posOf(f.Pos())
		m.ob("every point goes in once", at, s.tags["in"] == "1" && s.tags["made"] == "1", "a point goes in %d times", len(s.tags["in"]))
		m.ob("the cells are visited once", at, s.tags["cells"] == "1", "they are visited %d times", len(s.tags["cells"]))
		m.ob("the polygons of the cells are returned", at, s.vals["collected"] != nil && sameVal(s, o.res, rewriteTo(s, s.vals["collected"])), "%s is returned", showVal(o.res))
	}
	c.need("returns of "+m.nm, n, 1)
	c.take(e)
}
