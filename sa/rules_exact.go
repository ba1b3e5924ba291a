package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C16", title: "Geometric predicates compute their exact formulas",
		rule: "Each predicate is interpreted on arbitrary arguments; on every path its result equals the defining formula as a polynomial (or rational) identity, and a boolean result is true exactly on the paths that satisfy the defining condition.",
		run:  checkExact})
}

func sq(p *Poly) *Poly { return mul(p, p) }

// cross is (bX-aX)*(cY-aY) - (cX-aX)*(bY-aY).
func crossOf(aX, aY, bX, bY, cX, cY *Poly) *Poly {
	return sub(mul(sub(bX, aX), sub(cY, aY)), mul(sub(cX, aX), sub(bY, aY)))
}

// sameNum: a and b are the same number wherever both are defined.
func sameNum(s *State, a, b *Poly) bool {
	d := clearRecip(sub(a, b))
	return len(d.terms) == 0 || s.facts.entails(cEQ(d))
}

type exact struct {
	c *Ctx
	L *Loaded
}

// each runs f on symbolic arguments and judges every outcome.
func (x exact) each(f *ssa.Function, args []Value, judge func(e *Engine, s *State, args []Value, res Value)) {
	x.eachFrom(f, args, nil, judge)
}

func (x exact) eachFrom(f *ssa.Function, args []Value, setup func(st *State, e *Engine), judge func(e *Engine, s *State, args []Value, res Value)) {
	nm := shortFn(f)
	x.c.guard(nm, func() {
		e := newEngine(x.L)
		e.noMerge = true
		st := newState()
		if setup != nil {
			setup(st, e)
		}
		n := 0
		for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
			if o.panicked {
				continue
			}
			n++
			e.leaf(o.st, func(s *State) {
				var as []Value
				for _, a := range args {
					as = append(as, rewriteTo(s, a))
				}
				judge(e, s, as, rewriteTo(s, o.res))
			})
		}
		x.c.need("returns of "+nm, n, 1)
		x.c.take(e)
	})
}

func (x exact) num(f *ssa.Function, rule string, spec func(s *State, a []*Poly) *Poly) {
	args := symParams(f)
	x.each(f, args, func(e *Engine, s *State, args []Value, res Value) {
		want := spec(s, flatNums(args))
		got, ok := res.(*Poly)
		e.obligation(rule, shortFn(f), x.L.posOf(f.Pos()), ok && sameNum(s, got, want), "it returns %s, not %s", showVal(res), want.key)
	})
}

// holds checks a boolean function against a condition.
func (x exact) holds(f *ssa.Function, rule string, spec func(s *State, a []*Poly) bool) {
	args := symParams(f)
	x.each(f, args, func(e *Engine, s *State, args []Value, res Value) {
		c, ok := res.(*Cond)
		want := spec(s, flatNums(args))
		got := ok && s.ask(c)
		e.obligation(rule, shortFn(f), x.L.posOf(f.Pos()), ok && got == want, "it returns %v where %v is right", got, want)
	})
}

// flatNums lists the numbers in the arguments, in order.
func flatNums(vs []Value) []*Poly {
	var out []*Poly
	for _, v := range vs {
		switch v := v.(type) {
		case *Poly:
			out = append(out, v)
		case *Struct:
			out = append(out, flatNums(v.fs)...)
		}
	}
	return out
}

func inCircleDet(a []*Poly) *Poly {
	a1, a2 := sub(a[0], a[6]), sub(a[1], a[7])
	b1, b2 := sub(a[2], a[6]), sub(a[3], a[7])
	c1, c2 := sub(a[4], a[6]), sub(a[5], a[7])
	d := mul(add(sq(a1), sq(a2)), sub(mul(b1, c2), mul(c1, b2)))
	d = add(d, mul(add(sq(b1), sq(b2)), sub(mul(c1, a2), mul(a1, c2))))
	return add(d, mul(add(sq(c1), sq(c2)), sub(mul(a1, b2), mul(b1, a2))))
}

func checkExact(c *Ctx) {
	L := c.L
	x := exact{c, L}
	at := func(f *ssa.Function) string { return L.posOf(f.Pos()) }
	orient := func(a []*Poly) *Poly { return crossOf(a[4], a[5], a[0], a[1], a[2], a[3]) }
	inCircleSpec := func(s *State, a []*Poly) *Poly {
		d := inCircleDet(a)
		if s.ask(cGT(neg(orient(a)))) {
			return neg(d)
		}
		return d
	}

	x.num(L.fn(incr, "orientation"), "orientation is twice the signed area", func(s *State, a []*Poly) *Poly { return orient(a) })
	x.num(L.fn(incr, "inCircle"), "inCircle is the determinant, signed by the orientation", inCircleSpec)
	cs := L.fn(incr, "calculateScore")
	x.each(cs, symParams(cs), func(e *Engine, s *State, args []Value, res Value) {
		a := flatNums(args)
		got, ok := res.(*Poly)
		if o := orient(a); s.ask(cGT(o)) {
			e.obligation("the score of a convex ear is the power over the orientation", shortFn(cs), at(cs), ok && sameNum(s, got, mul(inCircleSpec(s, a), recip(o))), "it returns %s", showVal(res))
			return
		}
		huge := false
		if ok {
			k, is := got.isConst()
			huge = is && k.Cmp(new(big.Rat).SetFloat64(1e300)) > 0
		}
		e.obligation("an ear that is not convex scores beyond all others", shortFn(cs), at(cs), huge, "it returns %s", showVal(res))
	})
	pT := L.typ(incr, "Point")
	x.num(L.method(pT, "DistSq"), "the squared distance", func(s *State, a []*Poly) *Poly {
		return add(sq(sub(a[2], a[0])), sq(sub(a[3], a[1])))
	})
	gp := L.typ("geom", "Point")
	x.num(L.method(gp, "DistSq"), "the squared distance", func(s *State, a []*Poly) *Poly {
		return add(sq(sub(a[2], a[0])), sq(sub(a[3], a[1])))
	})
	x.num(L.fn("normgeom", "Dist"), "the distance", func(s *State, a []*Poly) *Poly {
		return app("sqrt", false, add(sq(sub(a[2], a[0])), sq(sub(a[3], a[1]))))
	})
	// points computed from points
	vec := func(f *ssa.Function, rule string, spec func(a []*Poly) []*Poly) {
		x.each(f, symParams(f), func(e *Engine, s *State, args []Value, res Value) {
			got, want := flatNums([]Value{res}), spec(flatNums(args))
			ok := len(got) == len(want)
			for i := range got {
				ok = ok && sameNum(s, got[i], want[i])
			}
			e.obligation(rule, shortFn(f), at(f), ok, "it returns %s", showVal(res))
		})
	}
	vec(L.method(gp, "Sub"), "the difference of two points", func(a []*Poly) []*Poly { return []*Poly{sub(a[0], a[2]), sub(a[1], a[3])} })
	vec(L.method(gp, "ToNorm"), "each coordinate over the size of its axis", func(a []*Poly) []*Poly {
		return []*Poly{mul(a[0], recip(a[2])), mul(a[1], recip(a[3]))}
	})
	vec(L.method(L.typ("geom", "Triangle"), "ToNorm"), "each coordinate over the size of its axis", func(a []*Poly) (out []*Poly) {
		for i := 0; i < 6; i++ {
			out = append(out, mul(a[i], recip(a[6+i%2])))
		}
		return
	})
	same := func(a []*Poly) []*Poly { return a }
	vec(L.fn("geom", "NewTriangle"), "the corners are kept in order", same)
	vec(L.fn("normgeom", "NewNormTriangle"), "the corners are kept in order", same)

	// the circumcircle
	circ := func(e *Engine, s *State, f *ssa.Function, a []*Poly, cc Value) {
		k := flatNums([]Value{cc})
		if len(k) != 3 {
			e.obligation("the circumcentre is as far from all three corners", shortFn(f), at(f), false, "no circle: %s", showVal(cc))
			return
		}
		d := func(i int) *Poly { return add(sq(sub(k[0], a[2*i])), sq(sub(k[1], a[2*i+1]))) }
		e.obligation("the circumcentre is as far from all three corners", shortFn(f), at(f), sameNum(s, d(0), d(1)) && sameNum(s, d(0), d(2)), "the centre is %s, %s", k[0].key, k[1].key)
		ra := k[2].singleAtom()
		ok := ra != nil && ra.op == "sqrt"
		if ok {
			arg, is := ra.args[0].(*Poly)
			ok = is && sameNum(s, arg, d(0))
		}
		e.obligation("the radius is the distance from the circumcentre to the corners", shortFn(f), at(f), ok, "the radius is %s", k[2].key)
	}
	cf := L.fn(incr, "calcCircumcircle")
	x.each(cf, symParams(cf), func(e *Engine, s *State, args []Value, res Value) { circ(e, s, cf, flatNums(args), res) })
	nt := L.fn(incr, "NewTriangle")
	x.each(nt, symParams(nt), func(e *Engine, s *State, args []Value, res Value) {
		a := flatNums(args)
		r, _ := res.(*Struct)
		ok := r != nil && len(r.fs) == 4
		if ok {
			k := flatNums(r.fs[:3])
			for i := range a {
				ok = ok && sameNum(s, a[i], k[i])
			}
			circ(e, s, nt, a, r.fs[fieldIdx(L.typ(incr, "Triangle"), "Circumcircle")])
		}
		e.obligation("the corners are kept in order", shortFn(nt), at(nt), ok, "it returns %s", showVal(res))
	})
	eqPt := func(s *State, a, b, c, d *Poly) bool { return s.ask(cEQ(sub(a, c))) && s.ask(cEQ(sub(b, d))) }
	x.holds(L.method(L.typ(incr, "Triangle"), "HasVertex"), "a triangle has a vertex iff it is one of its corners", func(s *State, a []*Poly) bool {
		p := a[len(a)-2:]
		return eqPt(s, a[0], a[1], p[0], p[1]) || eqPt(s, a[2], a[3], p[0], p[1]) || eqPt(s, a[4], a[5], p[0], p[1])
	})
	x.holds(L.method(L.typ(incr, "Edge"), "Equals"), "edges are equal iff both ends are", func(s *State, a []*Poly) bool {
		return eqPt(s, a[0], a[1], a[4], a[5]) && eqPt(s, a[2], a[3], a[6], a[7])
	})
	ne := L.fn(incr, "NewEdge")
	x.each(ne, symParams(ne), func(e *Engine, s *State, args []Value, res Value) {
		a, r := flatNums(args), flatNums([]Value{res})
		// the ends of the edge, smaller first
		swap := s.ask(cGT(sub(a[0], a[2]))) || !s.ask(cGT(sub(a[2], a[0]))) && s.ask(cGT(sub(a[1], a[3])))
		if swap {
			a = []*Poly{a[2], a[3], a[0], a[1]}
		}
		ok := len(r) == 4
		for i := 0; ok && i < 4; i++ {
			ok = sameNum(s, a[i], r[i])
		}
		e.obligation("an edge is its two ends in a fixed order", shortFn(ne), at(ne), ok, "it returns %s", showVal(res))
	})
	// clipping
	x.holds(L.fn(incr, "epsilonEquals"), "equal iff closer than the tolerance", func(s *State, a []*Poly) bool {
		d := sub(a[0], a[1])
		return s.ask(cGT(sub(x.eps(), d))) && s.ask(cGT(add(x.eps(), d)))
	})
	x.holds(L.fn(incr, "outside"), "outside iff beyond a border by more than the tolerance", func(s *State, a []*Poly) bool {
		ep := x.eps()
		return s.ask(cGT(sub(neg(ep), a[0]))) || s.ask(cGT(sub(neg(ep), a[1]))) || s.ask(cGT(sub(a[0], add(a[2], ep)))) || s.ask(cGT(sub(a[1], add(a[3], ep))))
	})
	si := L.fn(incr, "segmentsIntersect")
	x.each(si, symParams(si), func(e *Engine, s *State, args []Value, res Value) {
		a := flatNums(args)
		sx, sy := sub(a[2], a[0]), sub(a[3], a[1])
		tx, ty := sub(a[6], a[4]), sub(a[7], a[5])
		dx, dy := sub(a[0], a[4]), sub(a[1], a[5])
		den := recip(sub(mul(sx, ty), mul(tx, sy)))
		u := mul(sub(mul(sx, dy), mul(sy, dx)), den) // along the second
		t := mul(sub(mul(tx, dy), mul(ty, dx)), den) // along the first
		in := s.ask(cGE(u)) && s.ask(cGE(sub(constInt(1), u))) && s.ask(cGE(t)) && s.ask(cGE(sub(constInt(1), t)))
		r, _ := res.(*Struct)
		if r == nil || len(r.fs) != 3 {
			panic(undecided("the result of " + shortFn(si) + " is " + showVal(res)))
		}
		b, ok := r.fs[2].(*Cond)
		got := ok && s.ask(b)
		e.obligation("segments intersect iff the crossing lies on both", shortFn(si), at(si), ok && got == in, "it returns %v where %v is right", got, in)
		if got {
			px, py := r.fs[0].(*Poly), r.fs[1].(*Poly)
			e.obligation("the intersection is the crossing", shortFn(si), at(si), sameNum(s, px, add(a[0], mul(t, sx))) && sameNum(s, py, add(a[1], mul(t, sy))), "it returns %s, %s", px.key, py.key)
		}
	})
	c.guard("super triangle", func() { superTriangle(x) })
	c.guard("angular order", func() { angularOrder(x) })
}

// eps is the tolerance of the clipping code.
func (x exact) eps() *Poly {
	for _, n := range sortedKeys(x.L.pkgs[incr].Members) {
		if k, ok := x.L.pkgs[incr].Members[n].(*ssa.NamedConst); ok && k.Value.Value.Kind() == constant.Float {
			r, ok := new(big.Rat).SetString(k.Value.Value.ExactString())
			if ok && r.Sign() > 0 && r.Cmp(big.NewRat(1, 100)) < 0 {
				return constRat(r)
			}
		}
	}
	return constRat(big.NewRat(1, 10000))
}

// superTriangle: every corner of the image lies strictly on the inner side of
// every side of the super triangle (larger than the image by the formula).
func superTriangle(x exact) {
	L := x.L
	f := L.fn(incr, "NewSuperTriangle")
	nm := shortFn(f)
	e := newEngine(L)
	e.noMerge = true
	idealConv = true
	st := newState()
	args := symParams(f)
	w, h := args[0].(*Poly), args[1].(*Poly)
	st.assume(cGE(addInt(w, -2)))
	st.assume(cGE(addInt(h, -2)))
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked {
			continue
		}
		for _, wide := range []bool{true, false} {
			s := o.st.clone()
			big := w
			if wide && !s.assume(cGE(sub(w, h))) || !wide && !s.assume(cGT(sub(h, w))) {
				continue
			}
			if !wide {
				big = h
			}
			big = rewriteTo(s, big).(*Poly)
			n++
			p := flatNums([]Value{rewriteTo(s, o.res)})
			rw, rh := rewriteTo(s, w).(*Poly), rewriteTo(s, h).(*Poly)
			zero := constInt(0)
			corners := [][2]*Poly{{zero, zero}, {rw, zero}, {zero, rh}, {rw, rh}}
			sides := 0
			for sgn := -1; sgn <= 1; sgn += 2 {
				ok := len(p) >= 6
				for i := 0; ok && i < 3; i++ {
					j := (i + 1) % 3
					for _, q := range corners {
						// a multiple of the larger size, which is positive
						v := mul(scale(crossOf(p[2*i], p[2*i+1], p[2*j], p[2*j+1], q[0], q[1]), big2(sgn)), recip(big))
						if !s.facts.entails(cGT(v)) {
							ok = false
						}
					}
				}
				if ok {
					sides++
				}
			}
			e.obligation("the super triangle holds the whole image", nm, L.posOf(f.Pos()), sides == 1, "a corner of the image may lie on or outside a side of %s", showVal(o.res))
		}
	}
	x.c.need("returns of "+nm, n, 1)
	x.c.take(e)
}

func big2(n int) *big.Rat { return big.NewRat(int64(n), 1) }

// angularOrder: every comparison of points handed to sort orders them by angle
// around the centre it captures.
func angularOrder(x exact) {
	L := x.L
	n := 0
	for _, f := range L.sourceFuncs() {
		if !strings.Contains(f.String(), incr+".") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := call.Call.StaticCallee()
				if cal == nil || cal.String() != "sort.Slice" && cal.String() != "sort.SliceStable" {
					continue
				}
				var cl *ssa.Function
				switch v := call.Call.Args[1].(type) {
				case *ssa.MakeClosure:
					cl = v.Fn.(*ssa.Function)
				case *ssa.Function:
					cl = v
				}
				var sl types.Type
				if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
					sl = mi.X.Type()
				}
				if cl == nil || sl == nil {
					x.c.ob("points are sorted by angle around the centre", shortFn(f), false, L.posOf(call.Pos()), "the comparison is not a function literal")
					continue
				}
				n++
				nm := fmt.Sprintf("%s sort %d", shortFn(f), n)
				x.c.guard(nm, func() { angleLess(x, nm, cl, sl.Underlying().(*types.Slice).Elem()) })
			}
		}
	}
	x.c.need("sorts by angle", n, 3)
}

func angleLess(x exact, nm string, f *ssa.Function, elem types.Type) {
	L := x.L
	e := newEngine(L)
	e.noMerge = true
	st := newState()
	// the centre is the captured point
	var binds []Value
	var ctr *Poly2
	for _, fv := range f.FreeVars {
		nthSeq++
		v := sym("cap"+fmt.Sprint(nthSeq)+":"+fv.Name(), fv.Type())
		if pt, ok := fv.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), elem) {
			p := v.(*Ptr)
			k := flatNums([]Value{st.read(p.obj, p.path, elem)})
			ctr = &Poly2{k[0], k[1]}
		} else if types.Identical(fv.Type(), elem) {
			k := flatNums([]Value{v})
			ctr = &Poly2{k[0], k[1]}
		}
		binds = append(binds, v)
	}
	if ctr == nil {
		panic(undecided("no captured centre in the comparison of " + nm))
	}
	i, j := sym("cmp:i", types.Typ[types.Int]).(*Poly), sym("cmp:j", types.Typ[types.Int]).(*Poly)
	type place struct {
		o *Obj
		p Path
	}
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		if !o.array || !types.Identical(o.typ, elem) || len(p) == 0 || p[0].idx == nil {
			return
		}
		k := flatNums([]Value{s.read(o, Path{p[0]}, elem)})
		for n, ix := range []*Poly{i, j} {
			uses := false
			deepAtoms(p[0].idx, func(a *Atom) { uses = uses || a == ix.singleAtom() })
			if uses {
				s.vals["pX"+string(rune('i'+n))], s.vals["pY"+string(rune('i'+n))] = k[0], k[1]
			}
		}
	}
	st.facts.add(cGE(i))
	st.facts.add(cGE(j))
	n := 0
	for _, o := range e.execFunc(st, f, []Value{i, j}, binds, "less", nil) {
		if o.panicked {
			continue
		}
		e.leaf(o.st, func(s *State) {
			bX, ok1 := s.vals["pXi"].(*Poly)
			aX, ok2 := s.vals["pXj"].(*Poly)
			if !ok1 || !ok2 {
				panic(undecided("the comparison of " + nm + " does not look at both points"))
			}
			cX, cY := rewriteTo(s, ctr.x).(*Poly), rewriteTo(s, ctr.y).(*Poly)
			aX, bX = sub(aX, cX), sub(bX, cX)
			aY, bY := sub(s.vals["pYj"].(*Poly), cY), sub(s.vals["pYi"].(*Poly), cY)
			c, ok := rewriteTo(s, o.res).(*Cond)
			got := ok && s.ask(c)
			ra, rb := s.ask(cGE(aX)), s.ask(cGE(bX))
			var want bool
			switch {
			case ra != rb:
				want = ra
			case s.ask(cEQ(aX)) && s.ask(cEQ(bX)):
				if s.ask(cGE(aY)) || s.ask(cGE(bY)) {
					want = s.ask(cGT(sub(aY, bY)))
				} else {
					want = s.ask(cGT(sub(bY, aY)))
				}
			default:
				want = s.ask(cGT(sub(mul(bX, aY), mul(aX, bY))))
			}
			n++
			e.obligation("points are sorted by angle around the centre", nm, L.posOf(f.Pos()), ok && got == want, "%v where %v is right", got, want)
		})
	}
	x.c.need("comparisons of "+nm, n, 4)
	x.c.take(e)
}

type Poly2 struct{ x, y *Poly }
