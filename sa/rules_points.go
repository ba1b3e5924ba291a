package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C05", title: "A mutation method reports exactly the points it changes",
		rule: "For every implementation of the mutation interface, interpreted on a group of arbitrary length: for an arbitrary point index, the callback fires at most once with that index, with the value the point had on entry and the value it has on return; a point never reported keeps its value; indexes reported are in range; nothing but the group is written.",
		run:  checkMutators})
	register(&Check{id: "C06", title: "Points always stay inside the unit square",
		rule: "For every mutation method (group in the unit square on entry), point generator and the clamping operation, an arbitrary coordinate of an arbitrary point lies in [0,1] on return; the reported new value of a mutation lies in it too.",
		run:  checkUnitSquare})
	register(&Check{id: "C07", title: "Generators return exactly the requested number of points",
		rule: "For every implementation of the generator interface and every n >= 0: the returned slice has length n, no index or random bound on the way can be out of range, and no panic is reachable.",
		run:  checkGenerators})
}

type mutRun struct {
	c  *Ctx
	e  *Engine
	nm string
}

// mutatorEntry builds the entry state for a Mutate-like method: receiver, group, callback.
func mutatorEntry(l *Loaded, f *ssa.Function, unit bool) (st *State, args []Value, pts *Slice, k *Poly, old []Value, ptT types.Type) {
	ptT = l.typ("normgeom", "NormPoint")
	st = newState()
	for i, p := range f.Params {
		args = append(args, sym("arg:"+p.Name(), p.Type()))
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), ptT) {
			pts = args[i].(*Slice)
		}
	}
	if pts == nil {
		panic(undecided("no point group parameter in " + f.String()))
	}
	k = skolem("k")
	st.assume(cGT(sub(pts.len, k)))
	watchCell(st, "point", pts.obj, Path{{idx: k}}, ptT)
	pv := st.read(pts.obj, Path{{idx: k}}, ptT).(*Struct)
	old = pv.fs
	st.vals["k"], st.vals["pts"], st.vals["old"] = k, pts, pv
	if unit {
		for _, v := range old {
			st.assume(cGE(v.(*Poly)))
			st.assume(cGE(sub(constInt(1), v.(*Poly))))
		}
	}
	return
}

func checkMutators(c *Ctx) {
	L := c.L
	it := L.typ("mutation", "Method")
	mutT := L.typ("mutation", "Mutation")
	iOld, iNew, iIdx := fieldIdx(mutT, "Old"), fieldIdx(mutT, "New"), fieldIdx(mutT, "Index")
	impls := L.implementors(it)
	c.need("mutation methods", len(impls), 2)
	for _, t := range impls {
		f := L.method(elemOf(t), "Mutate")
		nm := shortFn(f)
		c.guard(nm, func() {
			e := newEngine(L)
			st, args, pts, _, old, ptT := mutatorEntry(L, f, false)
			st.tags["report"] = "none"
			cb := args[len(args)-1].(*Opaque)
			_ = old
			cell := func(s *State) []Value {
				return s.read(pts.obj, Path{{idx: s.vals["k"].(*Poly)}}, ptT).(*Struct).fs
			}
			oldOf := func(s *State) []Value { return s.vals["old"].(*Struct).fs }
			same := func(s *State, a, b []Value) bool {
				for i := range a {
					if a[i].Key() != b[i].Key() && !s.facts.entails(cEQ(sub(a[i].(*Poly), b[i].(*Poly)))) {
						return false
					}
				}
				return true
			}
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if o, ok := ci.fnVal.(*Opaque); ok && o.a == cb.a {
					e.counts["callback sites"]++
					at := e.at(ci.instr)
					var out []Outcome
					m := ci.args[0].(*Struct)
					ix := m.fs[iIdx].(*Poly)
					ln := st.vals["pts"].(*Slice).len
					e.obligation("reported index in range", nm, at, st.facts.entails(cGE(ix)) && st.facts.entails(cGT(sub(ln, ix))), "index %s may be outside the group", ix.key)
					k := st.vals["k"].(*Poly)
					t := st.clone()
					if t.assume(cNE(sub(ix, k))) {
						out = append(out, Outcome{st: t})
					}
					st.vals["report"] = m
					if !st.assume(cEQ(sub(ix, k))) {
						return out, true
					}
					for _, s := range e.leaf(st, func(s *State) { cell(s) }) {
						m := s.vals["report"].(*Struct)
						on, nn := m.fs[iOld].(*Struct).fs, m.fs[iNew].(*Struct).fs
						delete(s.vals, "report")
						e.obligation("old value reported", nm, at, same(s, on, oldOf(s)), "the Old value passed is %s, the point was %s on entry", mkStruct(on).Key(), mkStruct(oldOf(s)).Key())
						e.obligation("new value reported", nm, at, same(s, nn, cell(s)), "the New value passed is %s, the point is %s", mkStruct(nn).Key(), mkStruct(cell(s)).Key())
						e.obligation("reported once", nm, at, s.tags["report"] == "none" || s.tags["report"] == "pending", "a point may be reported twice")
						s.tags["report"] = "done"
						out = append(out, Outcome{st: s})
					}
					return out, true
				}
				return randomSource(e, st, ci)
			}
			e.onStore = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
				if o.kind == "alloc" {
					return
				}
				e.counts["stores"]++
				if !e.obligation("only the group is written", nm, e.at(at), o == pts.obj, "writes %s", o.key) {
					return
				}
				r, _ := st.pathAlias(p[:1], Path{{idx: st.vals["k"].(*Poly)}})
				if r != -1 {
					if st.tags["report"] == "done" {
						e.obligation("no change after the report", nm, e.at(at), false, "the point changes after it was reported")
					}
					if st.tags["report"] == "none" {
						st.tags["report"] = "pending"
					}
				}
			}
			e.onRange = func(e *Engine, st *State, at ssa.Instruction, dst *Obj, lo, n *Poly, src *Obj, so *Poly) {
				e.obligation("only the group is written", nm, e.at(at), dst.kind == "alloc", "bulk copy into %s", dst.key)
			}
			n := 0
			for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
				if o.panicked {
					continue
				}
				n++
				for _, s := range e.leaf(o.st, func(s *State) { cell(s) }) {
					if s.tags["report"] != "done" {
						e.obligation("unreported points unchanged", nm, L.posOf(f.Pos()), same(s, oldOf(s), cell(s)), "a point changes without being reported (value on return %s)", mkStruct(cell(s)).Key())
					} else {
						e.obligation("unreported points unchanged", nm, "", true, "")
					}
				}
			}
			c.ob("instances", nm+" returns", n > 0, "", "no path returns")
			c.need("callback calls seen in "+nm, e.counts["callback sites"], 1)
			c.need("stores seen in "+nm, e.counts["stores"], 1)
			c.take(e)
		})
	}
}

func rewriteVals(s *State, vs []Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		for _, x := range s.subs {
			v = newRewriter(x.from, x.to).value(v)
		}
		out[i] = v
	}
	return out
}

func inUnit(s *State, v Value) bool {
	p, ok := v.(*Poly)
	return ok && s.facts.entails(cGE(p)) && s.facts.entails(cGE(sub(constInt(1), p)))
}

func checkUnitSquare(c *Ctx) {
	L := c.L
	ptT := L.typ("normgeom", "NormPoint")
	mutT := L.typ("mutation", "Mutation")
	iNew := fieldIdx(mutT, "New")
	// the clamp itself, on any finite coordinates
	cf := L.method(ptT, "Constrain")
	c.guard(shortFn(cf), func() {
		e := newEngine(L)
		e.mergeWatch = true
		st := newState()
		args := symParams(cf)
		p := args[0].(*Ptr)
		n := 0
		for _, o := range e.execFunc(st, cf, args, nil, cf.Name(), nil) {
			if o.panicked {
				e.obligation("clamped", shortFn(cf), L.posOf(cf.Pos()), false, "may panic")
				continue
			}
			n++
			for i, v := range o.st.read(p.obj, nil, ptT).(*Struct).fs {
				e.obligation("clamped", shortFn(cf), L.posOf(cf.Pos()), inUnit(o.st, v), "coordinate %d may be %s on return", i, v.Key())
				// inside points are left alone
				orig := st0Leaf(p.obj, i)
				if inUnit(o.st, orig) {
					e.obligation("points already inside are unchanged", shortFn(cf), L.posOf(cf.Pos()), v.Key() == orig.Key() || o.st.facts.entails(cEQ(sub(v.(*Poly), orig))), "coordinate %d becomes %s although it was inside", i, v.Key())
				}
			}
		}
		c.ob("instances", shortFn(cf)+" returns", n > 0, "", "no path returns")
		c.take(e)
	})
	impls := L.implementors(L.typ("mutation", "Method"))
	c.need("mutation methods", len(impls), 2)
	for _, t := range impls {
		f := L.method(elemOf(t), "Mutate")
		nm := shortFn(f)
		c.guard(nm, func() {
			e := newEngine(L)
			e.mergeWatch = true
			st, args, pts, _, _, _ := mutatorEntry(L, f, true)
			cb := args[len(args)-1].(*Opaque)
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if o, ok := ci.fnVal.(*Opaque); ok && o.a == cb.a {
					m := ci.args[0].(*Struct)
					ix := m.fs[fieldIdx(mutT, "Index")].(*Poly)
					k := st.vals["k"].(*Poly)
					var out []Outcome
					t := st.clone()
					if t.assume(cNE(sub(ix, k))) {
						out = append(out, Outcome{st: t})
					}
					st.vals["report"] = m.fs[iNew]
					if st.assume(cEQ(sub(ix, k))) {
						for i, v := range st.vals["report"].(*Struct).fs {
							e.obligation("reported value inside", nm, e.at(ci.instr), inUnit(st, v), "reported coordinate %d may be %s", i, v.Key())
						}
						delete(st.vals, "report")
						out = append(out, Outcome{st: st})
					}
					return out, true
				}
				return randomSource(e, st, ci)
			}
			n := 0
			for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
				if o.panicked {
					continue
				}
				n++
				rd := func(s *State) Value { return s.read(pts.obj, Path{{idx: s.vals["k"].(*Poly)}}, ptT) }
				for _, s := range e.leaf(o.st, func(s *State) { rd(s) }) {
					for i, v := range rd(s).(*Struct).fs {
						if !inUnit(s, v) && os.Getenv("TRISA_DEBUG") != "" {
							dumpState(s)
						}
						e.obligation("mutated points inside", nm, L.posOf(f.Pos()), inUnit(s, v), "coordinate %d may be %s on return", i, v.Key())
					}
				}
			}
			c.ob("instances", nm+" returns", n > 0, "", "no path returns")
			c.take(e)
		})
	}
	gens := L.implementors(L.typ("generator", "Generator"))
	c.need("generators", len(gens), 2)
	for _, t := range gens {
		f := L.method(elemOf(t), "Generate")
		nm := shortFn(f)
		c.guard(nm, func() {
			e := newEngine(L)
			e.mergeWatch = true
			k := skolem("k")
			e.intercept = randomSource
			e.onAlloc = watchPoints(ptT, k)
			st := newState()
			args := symParams(f)
			n := 0
			for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
				if o.panicked {
					continue
				}
				n++
				r, ok := o.res.(*Slice)
				if !ok {
					panic(undecided("result is not a slice"))
				}
				if r.obj == nil {
					continue
				}
				if c0, isc := r.off.isConst(); !isc || c0.Sign() != 0 {
					panic(undecided("result does not start at its backing array"))
				}
				if !o.st.assume(cGT(sub(r.len, k))) {
					continue
				}
				for i := 0; i < 2; i++ {
					for _, s := range e.leaf(o.st, func(s *State) { s.read(r.obj, Path{{idx: k}, {field: i}}, types.Typ[types.Float64]) }) {
						v := s.read(r.obj, Path{{idx: k}, {field: i}}, types.Typ[types.Float64])
						e.obligation("generated points inside", nm, L.posOf(f.Pos()), inUnit(s, v), "coordinate %d of a generated point may be %s", i, v.Key())
					}
				}
			}
			c.ob("instances", nm+" returns", n > 0, "", "no path returns")
			c.take(e)
		})
	}
}

func st0Leaf(o *Obj, field int) *Poly {
	return newState().baseLeaf("0", o, Path{{field: field}}, types.Typ[types.Float64]).(*Poly)
}

// watchPoints watches element k of every point array that is created.
func watchPoints(ptT types.Type, k *Poly) func(e *Engine, st *State, o *Obj, zero bool) {
	return func(e *Engine, st *State, o *Obj, zero bool) {
		t := o.typ
		if !o.array {
			a, ok := t.Underlying().(*types.Array)
			if !ok || a.Len() != 0 {
				return
			}
			t = a.Elem()
		}
		if types.Identical(t, ptT) {
			watchCell(st, "new point", o, Path{{idx: k}}, ptT)
		}
	}
}

func checkGenerators(c *Ctx) {
	L := c.L
	gens := L.implementors(L.typ("generator", "Generator"))
	c.need("generators", len(gens), 2)
	for _, t := range gens {
		f := L.method(elemOf(t), "Generate")
		nm := shortFn(f)
		c.guard(nm, func() {
			e := newEngine(L)
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee != nil && ci.callee.Name() == "Intn" && len(ci.args) > 0 {
					if n, ok := ci.args[len(ci.args)-1].(*Poly); ok {
						e.obligation("random bound positive", nm+" -> "+ci.callee.Name(), e.at(ci.instr), st.facts.entails(cGT(n)), "the bound %s may be zero", n.key)
					}
				}
				return randomSource(e, st, ci)
			}
			e.onIndex = func(e *Engine, st *State, at ssa.Instruction, idx, ln *Poly) {
				e.counts["index"]++
				e.obligation("index in range", nm+": "+shortFn(at.Parent()), e.at(at), st.facts.entails(cGE(idx)) && st.facts.entails(cGT(sub(ln, idx))), "index %s of a slice of length %s", idx.key, ln.key)
			}
			e.onPanic = func(e *Engine, st *State, at ssa.Instruction) {
				e.obligation("no panic", nm, e.at(at), false, "reachable")
			}
			st := newState()
			args := symParams(f)
			n := args[len(args)-1].(*Poly)
			st.assume(cGE(n))
			rets := 0
			for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
				if o.panicked {
					e.obligation("no panic", nm, L.posOf(f.Pos()), false, "a panic is reachable")
					continue
				}
				rets++
				r, ok := o.res.(*Slice)
				if !ok {
					panic(undecided("result is not a slice"))
				}
				nn := rewriteVals(o.st, []Value{n})[0].(*Poly)
				e.obligation("length", nm, L.posOf(f.Pos()), o.st.facts.entails(cEQ(sub(r.len, nn))), "the result has length %s when %s points are requested", r.len.key, nn.key)
			}
			e.obligation("no panic", nm, "", true, "")
			c.ob("instances", nm+" returns", rets > 0, "", "no path returns")
			c.take(e)
		})
	}
}
