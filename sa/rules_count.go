package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C20", title: "Duplicate points are counted exactly",
		rule: "The point table is interpreted for an arbitrary point, bucket and entry: adding raises the count of that point by one (an absent point gets an entry with count one), removing lowers it by one and drops the entry at zero, counting returns it, and every other entry is left as it is; all three look in the same bucket. Inserting into and removing from a triangulation adjusts its totals by exactly one, its number of distinct points when the first copy comes or the last goes, and leaves the triangles alone while copies remain.",
		run:  checkCounts})
}

const incr = "triangulation/incrdelaunay"

type tableRun struct {
	c   *Ctx
	L   *Loaded
	f   *ssa.Function
	nm  string
	pm  *Ptr
	pt  *Struct
	tab *Slice
	idx *Poly
	et  types.Type // entry
	bt  types.Type // bucket
}

// bucketIndex finds the bucket that f looks into.
func (r *tableRun) bucketIndex() *Poly {
	e := newEngine(r.L)
	st := r.entry()
	var idx *Poly
	n := 0
	e.onLoad = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		if types.Identical(t, r.bt) && len(p) == 1 && p[0].idx != nil && o == r.tab.obj {
			if idx == nil || idx.key != p[0].idx.key {
				idx = p[0].idx
				n++
			}
		}
	}
	e.execFunc(st, r.f, []Value{r.pm, r.pt}, nil, "idx:"+r.f.Name(), nil)
	if n != 1 {
		panic(undecided("not a single bucket in " + r.nm))
	}
	return idx
}

func (r *tableRun) entry() *State {
	st := newState()
	ft := r.pm.obj.typ.Underlying().(*types.Struct).Field(0).Type()
	r.tab = st.read(r.pm.obj, r.pm.path.with(Step{field: 0}), ft).(*Slice)
	st.assume(cGT(r.tab.len))
	for _, v := range r.pt.fs {
		st.assume(cGE(v.(*Poly)))
	}
	return st
}

func checkCounts(c *Ctx) {
	L := c.L
	pmT := L.typ(incr, "pointMap")
	ptT := L.typ(incr, "Point")
	pm := sym("count:pm", types.NewPointer(pmT)).(*Ptr)
	pt := sym("count:pt", ptT).(*Struct)
	bt := pmT.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem()
	et := bt.Underlying().(*types.Slice).Elem()
	var ref *Poly
	for _, n := range []string{"AddPoint", "RemovePoint", "CopiesOf"} {
		f := L.method(pmT, n)
		nm := shortFn(f)
		c.guard(nm, func() {
			r := &tableRun{c: c, L: L, f: f, nm: nm, pm: pm, pt: pt, et: et, bt: bt}
			r.idx = r.bucketIndex()
			if ref == nil {
				ref = r.idx
			}
			c.ob("one bucket per point", nm, ref.key == r.idx.key, L.posOf(f.Pos()), "looks in bucket %s, adding looks in %s", r.idx.key, ref.key)
			r.present(n)
			if n != "RemovePoint" {
				r.absent(n)
			}
		})
	}
	c.guard("triangulation totals", func() { checkTotals(c) })
	c.guard("Voronoi duplicates", func() { checkVoronoiDup(c) })
}

// setup makes an arbitrary table; entry k of the point's bucket holds the point
// if present, and no other entry does.
func (r *tableRun) setup(present bool) (e *Engine, st *State, hdr *Slice, k, j *Poly, old, oldJ *Struct) {
	e = newEngine(r.L)
	e.eager = true
	st = r.entry()
	hp := Path{{idx: add(r.tab.off, r.idx)}}
	watchCell(st, "bucket", r.tab.obj, hp, r.bt)
	hdr = st.read(r.tab.obj, hp, r.bt).(*Slice)
	ix, iy, ic := fieldIdx(r.et, "x"), fieldIdx(r.et, "y"), fieldIdx(r.et, "count")
	j = skolem("j")
	st.assume(cGT(sub(hdr.len, j)))
	cell := func(k *Poly) Path { return Path{{idx: add(hdr.off, k)}} }
	px, py := r.pt.fs[0].(*Poly), r.pt.fs[1].(*Poly)
	ux := convertNum(px, r.ptField(0), r.etField(ix))
	uy := convertNum(py, r.ptField(1), r.etField(iy))
	if present {
		k = skolem("k")
		st.assume(cGT(sub(hdr.len, k)))
		st.assume(cNE(sub(j, k)))
		watchCell(st, "entry", hdr.obj, cell(k), r.et)
		v := st.read(hdr.obj, cell(k), r.et).(*Struct)
		st.assume(cEQ(sub(v.fs[ix].(*Poly), ux)))
		st.assume(cEQ(sub(rewriteTo(st, v.fs[iy]).(*Poly), uy)))
		st.assume(cGT(rewriteTo(st, v.fs[ic]).(*Poly)))
	}
	watchCell(st, "other", hdr.obj, cell(j), r.et)
	st.vals["old"] = mkStruct(nil)
	if present {
		st.vals["old"] = st.read(hdr.obj, cell(k), r.et)
		st.vals["k"] = k
	}
	st.vals["oldJ"] = st.read(hdr.obj, cell(j), r.et)
	st.vals["hdr"] = rewriteTo(st, hdr)
	st.vals["j"] = j
	st.vals["ux"], st.vals["uy"] = rewriteTo(st, ux), rewriteTo(st, uy)
	// entries are distinct: only entry k holds the point
	busy := false
	e.onLoad = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		h := st.vals["hdr"].(*Slice)
		if busy || o != h.obj || len(p) == 0 || p[0].idx == nil {
			return
		}
		busy = true
		defer func() { busy = false }()
		if present && st.ask(cEQ(sub(p[0].idx, add(h.off, k)))) {
			return
		}
		if st.tags["wrote"] != "" {
			return
		}
		v := st.read(o, Path{p[0]}, r.et).(*Struct)
		a, b := cEQ(sub(v.fs[ix].(*Poly), st.vals["ux"].(*Poly))), cEQ(sub(v.fs[iy].(*Poly), st.vals["uy"].(*Poly)))
		if st.facts.tri(a) == -1 || st.facts.tri(b) == -1 {
			return
		}
		if st.ask(a) {
			st.assume(cEQ(sub(st.read(o, Path{p[0]}, r.et).(*Struct).fs[iy].(*Poly), st.vals["uy"].(*Poly))).not())
		}
	}
	e.onStore = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if o.kind == "alloc" {
			return
		}
		h := st.vals["hdr"].(*Slice)
		if o == h.obj {
			st.tags["wrote"] = "1"
			return
		}
		ok := false
		if o == r.tab.obj && len(p) == 1 && p[0].idx != nil {
			a, _ := st.pathAlias(p, Path{{idx: rewriteTo(st, add(r.tab.off, r.idx)).(*Poly)}})
			ok = a == 1
		}
		e.obligation("only the point's bucket is written", r.nm, e.at(at), ok, "writes %s%s", o.key, p.Key())
	}
	return
}

func (r *tableRun) ptField(i int) types.Type {
	return r.L.typ(incr, "Point").Underlying().(*types.Struct).Field(i).Type()
}
func (r *tableRun) etField(i int) types.Type {
	return r.et.Underlying().(*types.Struct).Field(i).Type()
}

// now reads the bucket header and the entry at index i of it.
func (r *tableRun) hdrNow(s *State) *Slice {
	return s.read(r.tab.obj, Path{{idx: rewriteTo(s, add(r.tab.off, r.idx)).(*Poly)}}, r.bt).(*Slice)
}

func (r *tableRun) at(s *State, h *Slice, i *Poly) *Struct {
	return s.read(h.obj, Path{{idx: add(h.off, i)}}, r.et).(*Struct)
}

func (r *tableRun) present(n string) {
	e, st, _, k, j, _, _ := r.setup(true)
	ic := fieldIdx(r.et, "count")
	pos := r.L.posOf(r.f.Pos())
	rets := 0
	for _, o := range e.execFunc(st, r.f, []Value{rewriteTo(st, r.pm), rewriteTo(st, r.pt)}, nil, n, nil) {
		if o.panicked {
			if os.Getenv("TRISA_DEBUG") == "2" {
				dumpState(o.st)
			}
			e.obligation("a point that is present is found", r.nm, pos, false, "may panic although the point is present")
			continue
		}
		rets++
		chk := func(s *State, say bool) {
			ob := func(rule string, ok bool, f string, a ...any) {
				if say {
					e.obligation(rule, r.nm, pos, ok, f, a...)
				}
			}
			old := s.vals["old"].(*Struct)
			oc := old.fs[ic].(*Poly)
			h0 := s.vals["hdr"].(*Slice)
			h := r.hdrNow(s)
			res := rewriteTo(s, o.res).(*Poly)
			eq := func(a, b *Poly) bool { return s.facts.entails(cEQ(sub(a, b))) }
			same := func(a, b *Struct) bool {
				for i := range a.fs {
					if !eq(a.fs[i].(*Poly), b.fs[i].(*Poly)) {
						return false
					}
				}
				return true
			}
			d := map[string]int64{"AddPoint": 1, "RemovePoint": -1, "CopiesOf": 0}[n]
			want := addInt(oc, d)
			ob("the count is returned", eq(res, want), "returns %s for a point with count %s", res.key, oc.key)
			if n == "RemovePoint" && s.ask(cEQ(want)) {
				h0 := rewriteTo(s, h0).(*Slice)
				ob("the last copy takes its entry away", eq(h.len, addInt(h0.len, -1)), "the bucket keeps length %s", h.len.key)
				// every other entry survives somewhere
				oj := s.vals["oldJ"].(*Struct)
				kept := false
				for _, at := range []*Poly{j, addInt(j, -1), k} {
					if s.ask(cGE(at)) && s.ask(cGT(sub(h.len, at))) && same(r.at(s, h, at), oj) {
						kept = true
					}
				}
				ob("other entries are kept", kept, "an entry is lost when another point is removed")
				return
			}
			ob("the entry keeps its place in the bucket", eq(h.len, h0.len), "the bucket has length %s", h.len.key)
			if !s.facts.entails(cGT(sub(h.len, k))) || !s.facts.entails(cGT(sub(h.len, j))) {
				ob("the count changes by one", false, "the bucket may be too short")
				return
			}
			v := r.at(s, h, k)
			nw := append([]Value(nil), old.fs...)
			nw[ic] = want
			ob("the count changes by one", same(v, mkStruct(nw)), "the entry becomes %s", showVal(v))
			ob("other entries are unchanged", same(r.at(s, h, j), s.vals["oldJ"].(*Struct)), "another entry becomes %s", showVal(r.at(s, h, j)))
		}
		for _, s := range e.leaf(o.st, func(s *State) { chk(s.clone(), false) }) {
			chk(s, true)
		}
	}
	r.c.need("returns of "+r.nm, rets, 1)
	r.c.take(e)
}

func (r *tableRun) absent(n string) {
	e, st, _, _, j, _, _ := r.setup(false)
	ic := fieldIdx(r.et, "count")
	pos := r.L.posOf(r.f.Pos())
	rets := 0
	for _, o := range e.execFunc(st, r.f, []Value{rewriteTo(st, r.pm), rewriteTo(st, r.pt)}, nil, n+"-absent", nil) {
		if o.panicked {
			e.obligation("an absent point is no error", r.nm, pos, false, "may panic")
			continue
		}
		rets++
		chk := func(s *State, say bool) {
			ob := func(rule string, ok bool, f string, a ...any) {
				if say {
					e.obligation(rule, r.nm, pos, ok, f, a...)
				}
			}
			eq := func(a, b *Poly) bool { return s.facts.entails(cEQ(sub(a, b))) }
			h, h0 := r.hdrNow(s), s.vals["hdr"].(*Slice)
			res := rewriteTo(s, o.res).(*Poly)
			want := int64(0)
			if n == "AddPoint" {
				want = 1
			}
			ob("an absent point has no copies", eq(res, constInt(want)), "returns %s", res.key)
			ob("an absent point gets one entry", eq(h.len, addInt(h0.len, want)), "the bucket has length %s", h.len.key)
			if n == "AddPoint" {
				v := r.at(s, h, rewriteTo(s, h0).(*Slice).len)
				ok := eq(v.fs[fieldIdx(r.et, "x")].(*Poly), s.vals["ux"].(*Poly)) && eq(v.fs[fieldIdx(r.et, "y")].(*Poly), s.vals["uy"].(*Poly)) && eq(v.fs[ic].(*Poly), constInt(1))
				ob("the new entry holds the point once", ok, "the new entry is %s", showVal(v))
			}
			v, oj := r.at(s, h, j), s.vals["oldJ"].(*Struct)
			ok := true
			for i := range v.fs {
				ok = ok && eq(v.fs[i].(*Poly), oj.fs[i].(*Poly))
			}
			ob("other entries are unchanged", ok, "another entry becomes %s", showVal(v))
		}
		for _, s := range e.leaf(o.st, func(s *State) { chk(s.clone(), false) }) {
			chk(s, true)
		}
	}
	r.c.need("returns of "+r.nm+" (absent)", rets, 1)
	r.c.take(e)
}

// touchers lists the functions of the module that may store to one of the named
// fields, directly or through functions they call or closures they make.
func touchers(L *Loaded, fields map[string]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	fs := L.sourceFuncs()
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fields[placeName(fa)] {
						out[f] = true
					}
				}
			}
		}
	}
	return reaching(L, out)
}

// reaching adds every function of the module that may call one of those, or make
// a closure that does.
func reaching(L *Loaded, of map[*ssa.Function]bool) map[*ssa.Function]bool {
	fs := L.sourceFuncs()
	out := map[*ssa.Function]bool{}
	for f := range of {
		out[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if out[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && out[g] && !out[f] {
							out[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return out
}

// weakArrays makes the engine forget the elements of all arrays.
func (e *Engine) weakArrays() {
	n := 0
	weakHook = func(o *Obj, t types.Type) Value {
		if !o.array {
			return nil
		}
		if t == nil {
			return Nil{}
		}
		n++
		return leafValue(symAtom(fmt.Sprintf("elem%d", n), isIntType(t), e.scopeSet()), t)
	}
}

// havocField gives a field an unknown value; a slice keeps its (unknown) elements' place.
func (e *Engine) havocField(st *State, o *Obj, p Path, t types.Type, site string) {
	if _, ok := t.Underlying().(*types.Slice); ok {
		if sl, ok := newState().read(o, p, t).(*Slice); ok {
			n := e.fresh(site, types.Typ[types.Int]).(*Poly)
			n.singleAtom().lo = ratZero
			st.write(o, p, t, &Slice{obj: sl.obj, off: constInt(0), len: n}, nil)
			return
		}
	}
	st.write(o, p, t, e.fresh(site, t), nil)
}

func checkTotals(c *Ctx) {
	L := c.L
	dT := L.typ(incr, "Delaunay")
	pmT := L.typ(incr, "pointMap")
	us := dT.Underlying().(*types.Struct)
	iNum, iUniq := fieldIdx(dT, "numPoints"), fieldIdx(dT, "uniquePoints")
	touch := touchers(L, map[string]bool{"field Delaunay.numPoints": true, "field Delaunay.uniquePoints": true})
	addF, remF := L.method(pmT, "AddPoint"), L.method(pmT, "RemovePoint")
	keep := map[int]bool{iNum: true, iUniq: true, fieldIdx(dT, "pointMap"): true}
	for _, n := range []string{"Insert", "Remove"} {
		f := L.method(dT, n)
		nm := shortFn(f)
		c.guard(nm, func() {
			e := newEngine(L)
			e.eager = true
			st := newState()
			d := sym("totals:"+n, f.Params[0].Type()).(*Ptr)
			p := sym("totals:p", f.Params[1].Type())
			fld := func(i int) Path { return d.path.with(Step{field: i}) }
			tInt := us.Field(iNum).Type()
			n0 := st.read(d.obj, fld(iNum), tInt)
			u0 := st.read(d.obj, fld(iUniq), tInt)
			st.vals["n0"], st.vals["u0"] = n0, u0
			st.vals["r"] = Nil{}
			st.tags["touched"] = ""
			e.weakArrays()
			hav := 0
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee == nil || !inModule(ci.callee) && ci.callee.Pkg != nil && ci.callee.Pkg.Pkg.Path() != "sort" {
					return nil, false
				}
				g := ci.callee
				if g == addF || g == remF {
					e.obligation("the table is told of the point once", nm, e.at(ci.instr), (g == addF) == (n == "Insert") && isNilVal(st.vals["r"]) && len(ci.args) == 2 && sameVal(st, ci.args[1], rewriteTo(st, p)), "%s called with %s", shortFn(g), showVal(ci.args[1]))
					v := e.fresh("copies", g.Signature.Results().At(0).Type()).(*Poly)
					if a := v.singleAtom(); a != nil {
						a.lo = ratZero
					}
					st.vals["r"] = v
					if g == addF && !st.assume(cGT(v)) {
						return nil, true
					}
					return []Outcome{{st: st, res: v}}, true
				}
				if touch[g] || g.Parent() != nil {
					return nil, false
				}
				// anything else may do what it likes to the rest of the triangulation
				if g.Pkg != nil && inModule(g) && g.Signature.Recv() != nil {
					rt := typeLast(g.Signature.Recv().Type())
					if rt == "Delaunay" || rt == "CircumcircleGrid" {
						if _, isp := g.Signature.Recv().Type().(*types.Pointer); isp || rt == "CircumcircleGrid" {
							st.tags["touched"] = shortFn(g)
						}
					}
				}
				hav++
				for i := 0; i < us.NumFields(); i++ {
					if !keep[i] {
						e.havocField(st, d.obj, fld(i), us.Field(i).Type(), ci.ctx+"#"+us.Field(i).Name())
					}
				}
				var res Value
				if rs := g.Signature.Results(); rs.Len() == 1 {
					res = e.fresh(ci.ctx+"#res", rs.At(0).Type())
				} else if rs.Len() > 1 {
					return nil, false
				}
				// closures passed on may run too; they must not touch the totals
				for _, a := range ci.args {
					if cl, ok := a.(*Fn); ok {
						e.obligation("totals change only here", nm, e.at(ci.instr), !touch[cl.fn], "a callback changes the totals")
					}
				}
				return []Outcome{{st: st, res: res}}, true
			}
			e.onStore = func(e *Engine, st *State, at ssa.Instruction, o *Obj, pa Path, t types.Type, v Value) {
				if o == d.obj && len(pa) > 0 && (us.Field(pa[0].field).Name() == "triangles" || us.Field(pa[0].field).Name() == "freeTriangles") {
					st.tags["touched"] = e.at(at)
				}
			}
			rets := 0
			pos := L.posOf(f.Pos())
			for _, o := range e.execFunc(st, f, []Value{d, p}, nil, n, nil) {
				if o.panicked {
					continue
				}
				rets++
				chk := func(s *State, say bool) {
					ob := func(rule string, ok bool, f string, a ...any) {
						if say {
							e.obligation(rule, nm, pos, ok, f, a...)
						}
					}
					nn := s.read(d.obj, fld(iNum), tInt).(*Poly)
					uu := s.read(d.obj, fld(iUniq), tInt).(*Poly)
					eq := func(a, b *Poly) bool { return s.facts.entails(cEQ(sub(a, b))) }
					a, b := s.vals["n0"].(*Poly), s.vals["u0"].(*Poly)
					if isNilVal(s.vals["r"]) {
						ob("the table is told of the point once", false, "a path returns without a change of the point table")
						return
					}
					r := s.vals["r"].(*Poly)
					dn, first := int64(1), int64(1)
					if n == "Remove" {
						dn, first = -1, 0
					}
					ob("the number of points changes by one", eq(nn, addInt(a, dn)), "it becomes %s, was %s", nn.key, a.key)
					if s.ask(cEQ(addInt(r, -first))) {
						ob("the first and the last copy change the number of distinct points", eq(uu, addInt(b, dn)), "it becomes %s, was %s", uu.key, b.key)
						if n == "Remove" {
							ob("the last copy leaves the triangulation", s.tags["touched"] != "", "a path removes no triangle")
						}
					} else {
						ob("other copies do not change the number of distinct points", eq(uu, b), "it becomes %s, was %s", uu.key, b.key)
						if n == "Remove" {
							ob("the triangulation stays while copies remain", s.tags["touched"] == "", "it is changed at %s", s.tags["touched"])
						}
					}
				}
				for _, s := range e.leaf(o.st, func(s *State) { chk(s.clone(), false) }) {
					chk(s, true)
				}
			}
			c.need("returns of "+nm, rets, 1)
			c.take(e)
		})
	}
	// the accessor
	f := L.method(dT, "NumPoints")
	c.guard(shortFn(f), func() {
		e := newEngine(L)
		st := newState()
		d := sym("totals:num", f.Params[0].Type())
		for _, o := range e.execFunc(st, f, []Value{d}, nil, f.Name(), nil) {
			var want Value
			if p, ok := d.(*Ptr); ok {
				want = st.read(p.obj, p.path.with(Step{field: iNum}), us.Field(iNum).Type())
			} else {
				want = d.(*Struct).fs[iNum]
			}
			e.obligation("the number of points is reported", shortFn(f), L.posOf(f.Pos()), !o.panicked && sameVal(o.st, o.res, want), "returns %s", showVal(o.res))
		}
		c.take(e)
	})
}

func isNilVal(v Value) bool {
	_, ok := v.(Nil)
	return ok || v == nil
}

// checkVoronoiDup: a copy of a point changes no polygon, and every insertion and
// removal reaches the triangulation exactly once.
func checkVoronoiDup(c *Ctx) {
	L := c.L
	vT := L.typ(incr, "IVoronoi")
	dT := L.typ(incr, "Delaunay")
	pmT := L.typ(incr, "pointMap")
	cop := L.method(pmT, "CopiesOf")
	polyT := L.typ(incr, "polygonMap")
	addP, remP := L.method(polyT, "AddPolygon"), L.method(polyT, "RemovePolygon")
	reach := reaching(L, map[*ssa.Function]bool{cop: true, addP: true, remP: true, L.method(dT, "Insert"): true, L.method(dT, "Remove"): true})
	for _, n := range []string{"Insert", "Remove"} {
		f := L.method(vT, n)
		nm := shortFn(f)
		df := L.method(dT, n)
		c.guard(nm, func() {
			e := newEngine(L)
			e.eager = true
			st := newState()
			v := sym("vdup:"+n, f.Params[0].Type())
			p := sym("vdup:p", f.Params[1].Type())
			e.weakArrays()
			st.vals["copies"] = Nil{}
			st.tags["calls"], st.tags["poly"] = "0", ""
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee == nil {
					return nil, false
				}
				fresh := func() []Outcome {
					rs := ci.callee.Signature.Results()
					var res Value
					if rs.Len() == 1 {
						res = e.fresh(ci.ctx+"#res", rs.At(0).Type())
					}
					return []Outcome{{st: st, res: res}}
				}
				switch ci.callee {
				case cop:
					if st.tags["calls"] == "0" && sameVal(st, ci.args[len(ci.args)-1], rewriteTo(st, p)) {
						r := fresh()
						a := r[0].res.(*Poly)
						a.singleAtom().lo = ratZero
						if old, ok := st.vals["copies"].(*Poly); ok {
							r[0].res = old
						} else {
							st.vals["copies"] = a
						}
						return r, true
					}
					return fresh(), true
				case df:
					e.obligation("the triangulation is told of the point", nm, e.at(ci.instr), sameVal(st, ci.args[1], rewriteTo(st, p)), "told of %s", showVal(ci.args[1]))
					st.tags["calls"] += "1"
					return fresh(), true
				case addP, remP:
					st.tags["poly"] = "1"
					return fresh(), true
				}
				if !inModule(ci.callee) {
					return nil, false
				}
				if reach[ci.callee] && ci.callee.Name() != "processPoint" {
					return nil, false
				}
				if reach[ci.callee] {
					st.tags["poly"] = "1"
				}
				for _, a := range ci.args {
					if cl, ok := a.(*Fn); ok && reach[cl.fn] {
						panic(undecided("a callback of " + shortFn(ci.callee) + " inserts, removes or counts"))
					}
				}
				if rv := ci.callee.Signature.Recv(); rv != nil && typeLast(rv.Type()) == "CircumcircleGrid" {
					st.tags["lookup"] = "1"
				}
				vs := vT.Underlying().(*types.Struct)
				vp := rewriteTo(st, v).(*Ptr)
				for i := 0; i < vs.NumFields(); i++ {
					if _, ok := vs.Field(i).Type().(*types.Pointer); !ok {
						e.havocField(st, vp.obj, vp.path.with(Step{field: i}), vs.Field(i).Type(), ci.ctx+"#"+vs.Field(i).Name())
					}
				}
				return fresh(), true
			}
			rets := 0
			for _, o := range e.execFunc(st, f, []Value{v, p}, nil, n, nil) {
				if o.panicked {
					continue
				}
				rets++
				e.obligation("the triangulation is told once", nm, L.posOf(f.Pos()), o.st.tags["calls"] == "01", "told %d times on a path", len(o.st.tags["calls"])-1)
				cp, ok := o.st.vals["copies"].(*Poly)
				lim := int64(0)
				if n == "Remove" {
					lim = 1
				}
				if !ok {
					e.obligation("copies do not change the polygons", nm, L.posOf(f.Pos()), o.st.tags["poly"] == "", "polygons change without a look at the number of copies")
					continue
				}
				if o.st.facts.tri(cGT(addInt(cp, -lim))) != 1 {
					e.obligation("the first and the last copy look up the affected polygons", nm, L.posOf(f.Pos()), o.st.tags["lookup"] == "1", "a path leaves the polygons alone although it may be the only copy")
				}
				if o.st.facts.tri(cGT(addInt(cp, -lim))) != -1 {
					e.obligation("copies do not change the polygons", nm, L.posOf(f.Pos()), o.st.tags["poly"] == "", "polygons change although copies of the point remain")
				}
			}
			c.need("returns of "+nm, rets, 1)
			c.take(e)
		})
	}
}
