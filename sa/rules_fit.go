package main

import (
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register(&Check{id: "C22", title: "An evaluation applies exactly the reported changes to its base",
		rule: "Calculate of every fitness function with a triangulation is interpreted for any points and mutations: a first evaluation makes a structure of the image's size and inserts every point once; a based one copies the base, takes every mutated point's old position out once and puts its new position in once, all before the shapes are visited; the base is then forgotten.",
		run:  checkFitApply})
}

// fitRun describes one fitness function that keeps a triangulation.
type fitRun struct {
	c     *Ctx
	L     *Loaded
	t     types.Type // the record
	nm    string
	recv  *Ptr
	data  *Struct
	st    *State // entry state
	w, h  *Poly
	dataT types.Type
}

func (r *fitRun) field(name string) (Path, types.Type) {
	i := fieldIdx(r.t, name)
	return r.recv.path.with(Step{field: i}), r.t.Underlying().(*types.Struct).Field(i).Type()
}

func (r *fitRun) read(s *State, name string) Value {
	p, t := r.field(name)
	return s.read(r.recv.obj, p, t)
}

func (r *fitRun) list(s *State, name string) *Slice {
	sl, ok := rewriteTo(s, r.data.fs[fieldIdx(r.dataT, name)]).(*Slice)
	if !ok || sl.obj == nil {
		panic(undecided("the " + name + " are not a list"))
	}
	return sl
}

// fitFunctions lists the fitness functions that keep a triangulation.
func fitFunctions(c *Ctx) []types.Type {
	var out []types.Type
	for _, t := range c.L.implementors(c.L.typ("fitness", "CacheFunction")) {
		n, st := structOf(t)
		if st == nil {
			continue
		}
		out = append(out, n)
	}
	c.need("fitness functions with a triangulation", len(out), 2)
	return out
}

func newFitRun(c *Ctx, t types.Type, what string) *fitRun {
	r := &fitRun{c: c, L: c.L, t: t, nm: typName(t)}
	f := c.L.method(t, "Calculate")
	r.dataT = f.Params[1].Type()
	r.recv = sym("fit:"+what+":"+r.nm, types.NewPointer(t)).(*Ptr)
	r.data = sym("data:"+what+":"+r.nm, r.dataT).(*Struct)
	r.st = newState()
	tp, tt := r.field("target")
	rd := func(n string) *Poly {
		return r.st.read(r.recv.obj, tp.with(Step{field: fieldIdx(tt, n)}), types.Typ[types.Int]).(*Poly)
	}
	r.w, r.h = rd("width"), rd("height")
	r.st.assume(cGT(r.w))
	r.st.assume(cGT(r.h))
	return r
}

// placed reports whether v is where a point with the normal coordinates x and y
// lies in the image, rounded.
func (r *fitRun) placed(s *State, v Value, x, y *Poly) bool {
	fs := flatNums([]Value{v})
	if len(fs) != 2 {
		return false
	}
	half := constRat(big.NewRat(1, 2))
	for i, z := range []*Poly{mul(x, rewriteTo(s, r.w).(*Poly)), mul(y, rewriteTo(s, r.h).(*Poly))} {
		ok := false
		for _, want := range []*Poly{app("trunc", true, add(z, half)), app("floor", true, add(z, half)), app("round", true, z)} {
			ok = ok || fs[i].Key() == want.Key() || s.facts.entails(cEQ(sub(fs[i], want)))
		}
		if !ok {
			return false
		}
	}
	return true
}

// elementOf finds which element of a list v was computed from, through the
// fields in via.
func elementOf(v Value, o *Obj) *Poly {
	var ix *Poly
	deepAtoms(v, func(a *Atom) {
		if a.op == "sel" && a.obj == o && len(a.path) > 0 && a.path[0].idx != nil && ix == nil {
			ix = a.path[0].idx
		}
	})
	return ix
}

func checkFitApply(c *Ctx) {
	for _, t := range fitFunctions(c) {
		for _, what := range []string{"first", "based", "repeated"} {
			c.guard(what+" evaluation by "+typName(t), func() { fitApply(c, t, what) })
		}
		c.guard("base of "+typName(t), func() { fitBase(c, t) })
	}
}

// fitBase: SetBase makes the other function's structure the base.
func fitBase(c *Ctx, t types.Type) {
	r := newFitRun(c, t, "base")
	f := c.L.method(t, "SetBase")
	e := newEngine(c.L)
	o := sym("other:"+r.nm, types.NewPointer(t)).(*Ptr)
	sp, stT := r.field("Triangulation")
	n := 0
	for _, out := range e.execFunc(r.st, f, []Value{r.recv, &Iface{types.NewPointer(t), o}}, nil, f.Name(), nil) {
		if out.panicked {
			e.obligation("the base is the structure of the function given", r.nm, c.L.posOf(f.Pos()), false, "may panic")
			continue
		}
		n++
		want := out.st.read(o.obj, o.path.with(sp[len(sp)-1]), stT)
		got := r.read(out.st, "Base")
		e.obligation("the base is the structure of the function given", r.nm, c.L.posOf(f.Pos()), sameVal(out.st, got, want), "it is %s", showVal(got))
		own := r.read(out.st, "Triangulation")
		e.obligation("setting the base leaves the function's own structure alone", r.nm, c.L.posOf(f.Pos()), sameVal(out.st, own, r.read(newState(), "Triangulation")), "it becomes %s", showVal(own))
	}
	c.need("returns of SetBase of "+r.nm, n, 1)
	c.take(e)
}

func fitApply(c *Ctx, t types.Type, what string) {
	L := c.L
	based, repeated := what == "based", what == "repeated"
	r := newFitRun(c, t, what)
	nm := r.nm + " (" + what + " evaluation)"
	f := L.method(t, "Calculate")
	e := newEngine(L)
	e.eager = true
	idealConv = true
	st := r.st
	bp, bt := r.field("Base")
	tp, tt := r.field("Triangulation")
	if what == "first" {
		st.write(r.recv.obj, tp, tt, Nil{}, nil)
	}
	if repeated {
		st.write(r.recv.obj, bp, bt, Nil{}, nil)
	}
	base := st.read(r.recv.obj, bp, bt)
	own := st.read(r.recv.obj, tp, tt)
	k := skolem("k:" + what + r.nm)
	list := "Points"
	if based {
		list = "Mutations"
	}
	st.assume(cGT(sub(r.list(st, list).len, k)))
	st.vals["k"] = k
	for _, x := range []string{"set", "made", "in", "out", "iter"} {
		st.tags[x] = ""
	}
	bump := func(s *State, x string) {
		if len(s.tags[x]) < 2 {
			s.tags[x] += "1"
		}
	}
	sT := elemOf(tt)
	// point k of the list is put in or taken out, or another one
	change := func(e *Engine, st *State, ci *CallInfo, tag, what string, pick func(s *State, o *Obj, j *Poly) (*Poly, *Poly)) []Outcome {
		at := e.at(ci.instr)
		e.counts["changes of the structure"]++
		o := r.list(st, list).obj
		j := elementOf(ci.args[1], o)
		ok := j != nil
		if ok {
			x, y := pick(st, o, j)
			ok = r.placed(st, ci.args[1], x, y)
		}
		if !e.obligation(what+" is the place of a reported point", nm, at, ok, "the point %s is not the rounded place of the point", showVal(ci.args[1])) {
			return []Outcome{{st: st}}
		}
		if st.tags["iter"] != "" {
			e.obligation("changes precede the shapes", nm, at, false, "the structure changes after its shapes were visited")
		}
		var out []Outcome
		if other := st.clone(); other.assume(cNE(sub(j, st.vals["k"].(*Poly)))) {
			out = append(out, Outcome{st: other})
		}
		if st.assume(cEQ(sub(j, st.vals["k"].(*Poly)))) {
			bump(st, tag)
			out = append(out, Outcome{st: st})
		}
		return out
	}
	coord := func(s *State, o *Obj, p Path, pt types.Type) (*Poly, *Poly) {
		fs := flatNums([]Value{s.read(o, p, pt)})
		if len(fs) != 2 {
			panic(undecided("a point is not a pair of coordinates"))
		}
		return fs[0], fs[1]
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		g := ci.callee
		if g == nil || fnPkgPath(g) != modPath+"/"+incr {
			return nil, false
		}
		sg := g.Signature
		at := e.at(ci.instr)
		if sg.Recv() == nil {
			if sg.Results().Len() == 1 && types.Identical(elemOf(sg.Results().At(0).Type()), sT) {
				bump(st, "made")
				fs := flatNums(ci.args)
				e.obligation("the structure has the size of the image", nm, at, len(fs) == 2 && st.facts.entails(cEQ(sub(fs[0], r.w))) && st.facts.entails(cEQ(sub(fs[1], r.h))), "it is made %s", showVal(mkStruct(ci.args)))
				v := sym("made:"+nm, sg.Results().At(0).Type())
				st.vals["own"] = v
				return []Outcome{{st: st, res: v}}, true
			}
			return nil, false
		}
		if !types.Identical(elemOf(sg.Recv().Type()), sT) {
			return nil, false
		}
		mine := false
		if p, ok := st.vals["own"].(*Ptr); ok {
			mine = sameVal(st, ci.args[0], p)
			if _, byVal := ci.args[0].(*Struct); byVal {
				mine = sameVal(st, ci.args[0], st.read(p.obj, p.path, sT))
			}
		}
		e.obligation("the function's own structure is used", nm, at, mine, "%s is called on %s", g.Name(), showVal(ci.args[0]))
		switch g.Name() {
		case "Set":
			if st.tags["in"]+st.tags["out"] != "" {
				bump(st, "set")
			}
			bump(st, "set")
			e.obligation("the base is what is copied", nm, at, based && sameVal(st, ci.args[1], rewriteTo(st, base)), "%s is copied", showVal(ci.args[1]))
			return []Outcome{{st: st}}, true
		case "Insert":
			if based {
				e.obligation("points are put in after the base was copied", nm, at, st.tags["set"] == "1", "the base is copied %d times before", len(st.tags["set"]))
			}
			return change(e, st, ci, "in", "what is put in", func(s *State, o *Obj, j *Poly) (*Poly, *Poly) {
				if !based {
					return coord(s, o, Path{{idx: j}}, listElem(r.data.fs[fieldIdx(r.dataT, list)], r.dataT, list))
				}
				mt := listElem(nil, r.dataT, list)
				i := fieldIdx(mt, "New")
				return coord(s, o, Path{{idx: j}, {field: i}}, mt.Underlying().(*types.Struct).Field(i).Type())
			}), true
		case "Remove":
			e.obligation("points are only taken out of a based structure", nm, at, based, "a point is taken out of a new structure")
			e.obligation("points are taken out after the base was copied", nm, at, st.tags["set"] == "1", "the base is copied %d times before", len(st.tags["set"]))
			if !based {
				return []Outcome{{st: st}}, true
			}
			return change(e, st, ci, "out", "what is taken out", func(s *State, o *Obj, j *Poly) (*Poly, *Poly) {
				mt := listElem(nil, r.dataT, list)
				i := fieldIdx(mt, "Old")
				return coord(s, o, Path{{idx: j}, {field: i}}, mt.Underlying().(*types.Struct).Field(i).Type())
			}), true
		}
		if strings.HasPrefix(g.Name(), "Iter") {
			bump(st, "iter")
			return []Outcome{{st: st}}, true
		}
		panic(undecided("the structure is used by " + g.Name()))
	}
	if based || repeated {
		st.vals["own"] = own
		st.assume(e.isNil(own).not())
	}
	if based {
		st.assume(e.isNil(base).not())
	}
	n := 0
	for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, r.recv), r.data}, nil, f.Name(), nil) {
		if o.panicked {
			continue
		}
		n++
		s := o.st
		at := L.posOf(f.Pos())
		tg := func(x string) int { return len(s.tags[x]) }
		if based {
			e.obligation("the base is copied once", nm, at, tg("set") == 1, "it is copied %d times", tg("set"))
			e.obligation("every old position is taken out once", nm, at, tg("out") == 1, "the old position of a mutation is taken out %d times", tg("out"))
			e.obligation("every new position is put in once", nm, at, tg("in") == 1, "the new position of a mutation is put in %d times", tg("in"))
			e.obligation("the structure is not made anew", nm, at, tg("made") == 0, "a structure is made")
			p := r.read(s, "Base")
			_, isNil := p.(Nil)
			if q, ok := p.(*Ptr); ok && q.obj == nil {
				isNil = true
			}
			e.obligation("the base is forgotten afterwards", nm, at, isNil, "it is %s", showVal(p))
		} else if repeated {
			e.obligation("a repeated evaluation changes nothing", nm, at, tg("made")+tg("in")+tg("out")+tg("set") == 0, "the structure is changed although there is no base")
		} else {
			e.obligation("a structure is made once", nm, at, tg("made") == 1, "it is made %d times", tg("made"))
			e.obligation("every point is put in once", nm, at, tg("in") == 1, "a point is put in %d times", tg("in"))
		}
		e.obligation("the shapes are visited once", nm, at, tg("iter") == 1, "they are visited %d times", tg("iter"))
		fin := r.read(s, "Triangulation")
		e.obligation("the structure is kept", nm, at, s.vals["own"] != nil && sameVal(s, fin, s.vals["own"]), "the function keeps %s", showVal(fin))
	}
	c.need("returns of "+nm, n, 1)
	if !repeated {
		c.need("changes of the structure in "+nm, e.counts["changes of the structure"], 1)
	}
	c.take(e)
}

// listElem is the element type of a list in the data of an evaluation.
func listElem(_ Value, dataT types.Type, name string) types.Type {
	u := dataT.Underlying().(*types.Struct)
	return u.Field(fieldIdx(dataT, name)).Type().Underlying().(*types.Slice).Elem()
}
