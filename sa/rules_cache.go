package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkRecordEquality: records that compare equal have the same coordinates.
func checkRecordEquality(c *Ctx) {
	n := 0
	for _, t := range c.L.implementors(c.L.typ("fitness", "CacheData")) {
		nt, st := structOf(t)
		if st == nil {
			continue
		}
		n++
		c.guard("equality of "+typName(nt), func() { recordEquality(c, nt, st) })
	}
	c.need("kinds of cache record", n, 2)
}

func recordEquality(c *Ctx, t types.Type, u *types.Struct) {
	L := c.L
	f := L.method(t, "Equals")
	nm := typName(t)
	keys := keyFields(L, t)
	e := newEngine(L)
	e.eager = true
	st := newState()
	a := sym("recA:"+nm, types.NewPointer(t)).(*Ptr)
	b := sym("recB:"+nm, types.NewPointer(t)).(*Ptr)
	k := skolem("coordinate:" + nm)
	st.assume(cGE(k))
	st.assume(cGT(sub(skolem("coordinates:"+nm), k)))
	read := func(s *State, p *Ptr, i int) Value {
		return s.read(p.obj, p.path.with(Step{field: i}), u.Field(i).Type())
	}
	lists := map[*Obj]*Slice{}
	for _, i := range keys {
		for _, p := range []*Ptr{a, b} {
			if l, ok := read(st, p, i).(*Slice); ok && l.obj != nil {
				lists[l.obj] = l
			}
		}
	}
	st.tags["k"] = ""
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		l := lists[o]
		if l == nil || len(p) != 1 || p[0].idx == nil {
			return
		}
		if s.ask(cEQ(sub(p[0].idx, add(l.off, k)))) {
			s.tags["k"] = "1"
			s.top().env[at.(ssa.Value)] = s.read(o, Path{{idx: add(l.off, k)}}, t)
		}
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.callee != nil && ci.callee.Pkg != nil && !strings.HasPrefix(fnPkgPath(ci.callee), modPath) && strings.Contains(ci.name, "DeepEqual") {
			panic(undecided("records are compared by reflection"))
		}
		return nil, false
	}
	arg := Value(&Iface{t: types.NewPointer(t), v: b})
	rets := 0
	for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, a), arg}, nil, nm+".Equals", nil) {
		if o.panicked || o.st.dead {
			continue
		}
		cond := func(s *State) *Cond {
			q, ok := rewriteTo(s, o.res).(*Cond)
			if !ok {
				panic(undecided("the result is not a condition"))
			}
			return q
		}
		for _, s := range e.leaf(o.st, func(s *State) { s.ask(cond(s)) }) {
			if s.dead || !s.ask(cond(s)) {
				continue
			}
			for _, s := range e.leaf(s, func(s *State) {
				for _, l := range lists {
					s.ask(cGT(sub(rewriteTo(s, l).(*Slice).len, k)))
				}
			}) {
				rets++
				ok, what := true, ""
				for _, i := range keys {
					x, y := read(s, a, i), read(s, b, i)
					lx, isL := x.(*Slice)
					ly, _ := y.(*Slice)
					if isL && ly != nil {
						if !sameNum(s, lx.len, ly.len) {
							ok, what = false, "lists of different lengths are equal"
							continue
						}
						if !s.facts.entails(cGT(sub(lx.len, k))) {
							continue
						}
						x = s.read(lx.obj, Path{{idx: add(lx.off, k)}}, lx.obj.typ)
						y = s.read(ly.obj, Path{{idx: add(ly.off, k)}}, ly.obj.typ)
					}
					if !sameVal(s, x, y) {
						ok, what = false, u.Field(i).Name()+" may differ"
					}
				}
				e.obligation("records that compare equal have the same coordinates", nm, L.posOf(f.Pos()), ok, "%s", what)
			}
		}
	}
	c.need("ways records of "+nm+" are equal", rets, 1)
	c.take(e)
}

// checkSharedCache: an evaluator hands results to the functions through one
// cache, where each is filed under its own index.
func checkSharedCache(c *Ctx) {
	n := 0
	for _, t := range c.L.implementors(c.L.typ("algorithm/evaluator", "Evaluator")) {
		nt, st := structOf(t)
		if st == nil {
			continue
		}
		has := false
		for i := 0; i < st.NumFields(); i++ {
			has = has || strings.Contains(st.Field(i).Type().String(), "CacheData")
		}
		if !has {
			continue
		}
		n++
		c.guard("cache of "+typName(nt), func() { sharedCache(c, nt) })
	}
	c.need("evaluators with a cache", n, 1)
}

func sharedCache(c *Ctx, t types.Type) {
	L := c.L
	f := L.method(t, "Update")
	nm := typName(t)
	e := newEngine(L)
	st := newState()
	recv := sym("evaluator:"+nm, types.NewPointer(t)).(*Ptr)
	i := skolem("member:" + nm)
	dataT := L.typ("fitness", "CacheData")
	given := sym("results:"+nm, types.NewSlice(dataT)).(*Slice)
	u := t.Underlying().(*types.Struct)
	fi := -1
	for j := 0; j < u.NumFields(); j++ {
		if s, ok := u.Field(j).Type().Underlying().(*types.Slice); ok && typName(s.Elem()) == "fitness.CacheFunction" {
			fi = j
		}
	}
	if fi < 0 {
		panic(undecided("the functions are not kept in a list"))
	}
	fs := st.read(recv.obj, recv.path.with(Step{field: fi}), u.Field(fi).Type()).(*Slice)
	st.assume(cGE(i))
	st.assume(cGT(sub(fs.len, i)))
	k := skolem("result:" + nm)
	st.assume(cGE(k))
	st.assume(cGT(sub(given.len, k)))
	st.tags["set"], st.tags["filed"] = "", ""
	isFn := func(s *State, v Value) bool {
		o, ok := v.(*Opaque)
		return ok && o.a.op == "sel" && o.a.obj == fs.obj && len(o.a.path) == 1 && sameNum(s, sub(o.a.path[0].idx, fs.off), i)
	}
	entry := func(s *State, v Value) *Poly {
		o, ok := v.(*Opaque)
		if !ok || o.a.op != "sel" || o.a.obj != given.obj || len(o.a.path) != 1 {
			return nil
		}
		return sub(o.a.path[0].idx, given.off)
	}
	hash := func(i *Poly) *Poly { return app("filed:"+nm, true, i) }
	var shared *Obj
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		if o == given.obj && len(p) == 1 && p[0].idx != nil && s.ask(cEQ(sub(sub(p[0].idx, given.off), k))) {
			s.top().env[at.(ssa.Value)] = s.read(o, Path{{idx: add(given.off, k)}}, t)
		}
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !types.Identical(t, dataT) || !o.array {
			return
		}
		j := entry(s, v)
		if j != nil && sameNum(s, j, k) {
			j = k
		}
		ok := j != nil && len(p) == 1 && p[0].idx != nil && sameNum(s, p[0].idx, rewriteTo(s, hash(j)).(*Poly))
		e.obligation("a result is filed under its own index", nm, e.at(at), ok, "%s is filed at %s", showVal(v), p.Key())
		if shared == nil {
			shared = o
		}
		e.obligation("results are filed in one cache", nm, e.at(at), shared == o, "another list is written")
		if ok && j.key == k.key {
			s.tags["filed"] = "1"
		}
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.method == nil {
			return nil, false
		}
		at := e.at(ci.instr)
		switch own := ifaceOwner(ci.method); {
		case strings.HasPrefix(own, "fitness.CacheFunction") && ci.method.Name() == "Cache":
			e.obligation("the results are those of the member", nm, at, isFn(st, ci.args[0]), "they are taken from %s", showVal(ci.args[0]))
			return []Outcome{{st: st, res: given}}, true
		case strings.HasPrefix(own, "fitness.CacheFunction") && ci.method.Name() == "SetCache":
			l, ok := ci.args[1].(*Slice)
			e.obligation("the member is handed the cache", nm, at, isFn(st, ci.args[0]) && ok && l.obj != nil && l.obj != given.obj, "%s is handed %s", showVal(ci.args[0]), showVal(ci.args[1]))
			if ok && l.obj != nil {
				if shared == nil {
					shared = l.obj
				}
				e.obligation("results are filed in one cache", nm, at, shared == l.obj && sameNum(st, l.off, constInt(0)), "another list is handed over")
			}
			st.tags["set"] += "1"
			return []Outcome{{st: st}}, true
		case strings.HasPrefix(own, "fitness.CacheData") && ci.method.Name() == "CachedHash":
			j := entry(st, ci.args[0])
			if j == nil {
				return nil, false
			}
			return []Outcome{{st: st, res: hash(j)}}, true
		}
		return nil, false
	}
	rets := 0
	for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, recv), i}, nil, nm+".Update", nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		e.obligation("every result is filed", nm, L.posOf(f.Pos()), o.st.tags["filed"] == "1", "a result is left out")
		e.obligation("the member is handed the cache once", nm, L.posOf(f.Pos()), o.st.tags["set"] == "1", "it is handed over %d times", len(o.st.tags["set"]))
	}
	c.need("returns of "+nm, rets, 1)
	c.take(e)
}

// checkColourTables: the tables of pixels and of blocks hold what the image
// holds, and the fitness functions are made from them.
func checkColourTables(c *Ctx) {
	L := c.L
	made := map[*ssa.Function]bool{}
	for _, t := range fitFunctions(c) {
		t := t
		c.guard("parts of "+typName(t), func() { fitParts(c, t, made) })
	}
	_ = L
	n := 0
	var fns []*ssa.Function
	for f := range made {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, f := range fns {
		f := f
		if len(f.Params) == 1 {
			n++
			c.guard("table "+f.Name(), func() { colourTable(c, f) })
		}
	}
	c.need("colour tables", n, 1)
}

// fitParts judges what a new fitness function is made of, and collects the
// functions that make its tables.
func fitParts(c *Ctx, t types.Type, made map[*ssa.Function]bool) {
	L := c.L
	u := t.Underlying().(*types.Struct)
	nm := typName(t)
	n := 0
	for _, f := range L.sourceFuncs() {
		if fnPkgPath(f) != modPath+"/fitness" || f.Signature.Recv() != nil || f.Parent() != nil || !makes(f, t) {
			continue
		}
		n++
		e := newEngine(L)
		e.eager = true
		st := newState()
		var args []Value
		var size, count *Poly
		var img Value
		for i, p := range f.Params {
			v := sym("new:"+nm+":"+fmt.Sprint(i), p.Type())
			args = append(args, v)
			switch {
			case isIntType(p.Type()) && size == nil:
				size = v.(*Poly)
			case isIntType(p.Type()):
				count = v.(*Poly)
			default:
				img = v
			}
		}
		if size == nil || img == nil {
			panic(undecided("the arguments of " + f.Name() + " are not an image and a block size"))
		}
		st.assume(cGT(size))
		if count != nil {
			st.assume(cGE(count))
		}
		w, h := symPoly("w:"+nm), symPoly("h:"+nm)
		w, h = sym("w:"+nm, types.Typ[types.Int]).(*Poly), sym("h:"+nm, types.Typ[types.Int]).(*Poly)
		st.assume(cGT(w))
		st.assume(cGT(h))
		tabs := map[string]Value{}
		e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.method != nil && ci.method.Name() == "Size" && strings.HasPrefix(ifaceOwner(ci.method), "image.") {
				return []Outcome{{st: st, res: &Struct{fs: []Value{w, h}}}}, true
			}
			g := ci.callee
			if g == nil || g.Signature.Recv() != nil || g.Parent() != nil || g.Signature.Results().Len() != 1 {
				return nil, false
			}
			rt := g.Signature.Results().At(0).Type()
			for i := 0; i < u.NumFields(); i++ {
				if types.Identical(u.Field(i).Type(), rt) && structType(rt) != nil {
					made[g] = true
					ok := true
					for _, a := range ci.args {
						if q, isN := a.(*Poly); isN {
							ok = ok && sameNum(st, q, size)
						} else {
							ok = ok && sameVal(st, a, img)
						}
					}
					e.obligation("the tables are made from the image and the block size", nm, e.at(ci.instr), ok, "%s is called with other arguments", g.Name())
					v := sym("table:"+nm+":"+u.Field(i).Name(), rt)
					tabs[u.Field(i).Name()] = v
					return []Outcome{{st: st, res: v}}, true
				}
			}
			return nil, false
		}
		k := skolem("function:" + nm)
		st.assume(cGE(k))
		if count != nil {
			st.assume(cGT(sub(count, k)))
		}
		st.tags["k"] = ""
		judge := func(s *State, at string, v Value) {
			q, ok := unIface(v).(*Ptr)
			ok = ok && q.obj != nil && q.obj.kind == "alloc"
			if !e.obligation("every function is a record of its own", nm, at, ok, "%s is stored", showVal(v)) || !ok {
				return
			}
			rd := func(n string) Value {
				i := fieldIdx(t, n)
				return s.read(q.obj, q.path.with(Step{field: i}), u.Field(i).Type())
			}
			num := func(n string, want *Poly) {
				x, ok := rd(n).(*Poly)
				e.obligation("a function is made of the tables, the block size and the largest difference", nm+"."+n, at, ok && sameNum(s, x, want), "%s is %s", n, showVal(rd(n)))
			}
			for n, want := range tabs {
				e.obligation("a function is made of the tables, the block size and the largest difference", nm+"."+n, at, sameVal(s, rd(n), rewriteTo(s, want)), "%s is %s", n, showVal(rd(n)))
			}
			num("blockSize", rewriteTo(s, size).(*Poly))
			num("maxDifference", mul(constInt(255*255*3), mul(rewriteTo(s, w).(*Poly), rewriteTo(s, h).(*Poly))))
			for _, n := range []string{"Triangulation", "Base"} {
				e.obligation("a new function has no structure yet", nm+"."+n, at, s.facts.entails(e.isNil(rd(n))), "%s is %s", n, showVal(rd(n)))
			}
		}
		e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, vt types.Type, v Value) {
			if !o.array || len(p) != 1 || p[0].idx == nil || typName(vt) != "fitness.CacheFunction" {
				return
			}
			hit := s.ask(cEQ(sub(p[0].idx, rewriteTo(s, k).(*Poly))))
			judge(s, e.at(at), v)
			if hit {
				s.tags["k"] = "1"
			}
		}
		rets := 0
		for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
			if o.panicked || o.st.dead {
				continue
			}
			rets++
			if count == nil {
				judge(o.st, L.posOf(f.Pos()), o.res)
				continue
			}
			l, ok := o.res.(*Slice)
			e.obligation("the number of functions asked for is made", nm, L.posOf(f.Pos()), ok && sameNum(o.st, l.len, rewriteTo(o.st, count).(*Poly)) && o.st.tags["k"] == "1", "a function is missing")
		}
		e.obligation("the tables are made from the image and the block size", nm, L.posOf(f.Pos()), len(tabs) == 2, "%d tables are made", len(tabs))
		c.need("returns of "+f.Name(), rets, 1)
		c.take(e)
	}
	c.need("functions that make a "+nm, n, 1)
}

// makes reports whether f allocates a t.
func makes(f *ssa.Function, t types.Type) bool {
	fs := append([]*ssa.Function{f}, f.AnonFuncs...)
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(elemOf(a.Type()), t) {
					return true
				}
			}
		}
	}
	return false
}

// colourTable judges the filling of a table of pixels: what is stored for a
// pixel is the colour of the image there.
func colourTable(c *Ctx, f *ssa.Function) {
	L := c.L
	nm := f.Name()
	e := newEngine(L)
	e.eager = true
	idealConv = true
	st := newState()
	var args []Value
	for i, p := range f.Params {
		args = append(args, sym("tab:"+nm+":"+fmt.Sprint(i), p.Type()))
	}
	w, h := skolem("tw:"+nm), skolem("th:"+nm)
	st.assume(cGT(w))
	st.assume(cGT(h))
	rt := f.Signature.Results().At(0).Type()
	_, et := tableTypes(rt)
	eu := et.Underlying().(*types.Struct)
	var bare *ssa.Function
	var list *Slice
	colourAt := func(ct types.Type, x, y *Poly) *Struct {
		cu := ct.Underlying().(*types.Struct)
		out := &Struct{}
		for i := 0; i < cu.NumFields(); i++ {
			out.fs = append(out.fs, app("channel"+fmt.Sprint(i), false, x, y))
		}
		return out
	}
	var ct types.Type
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if g := ci.callee; g != nil && g.Signature.Recv() == nil && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), rt) {
			// an empty table, judged below
			ok := len(ci.args) == 2
			for i, want := range []*Poly{w, h}[:min(len(ci.args), 2)] {
				q, isN := ci.args[i].(*Poly)
				ok = ok && isN && sameNum(st, q, rewriteTo(st, want).(*Poly))
			}
			e.obligation("the table is made for the size of the image", nm, e.at(ci.instr), ok && (bare == nil || bare == g), "%s is called with other sizes", g.Name())
			bare = g
			tab := sym("bare:"+nm, rt)
			list = tableList(tab, rt)
			list.len = h
			if i := fieldIdxOK(rt, "width"); i >= 0 {
				tab.(*Struct).fs[i], tab.(*Struct).fs[fieldIdx(rt, "height")] = w, h
			}
			return []Outcome{{st: st, res: tab}}, true
		}
		if ci.method == nil || !strings.HasPrefix(ifaceOwner(ci.method), "image.") {
			return nil, false
		}
		switch ci.method.Name() {
		case "Size":
			return []Outcome{{st: st, res: &Struct{fs: []Value{w, h}}}}, true
		case "RGBAt":
			ct = ci.method.Type().(*types.Signature).Results().At(0).Type()
			px, ok1 := ci.args[1].(*Poly)
			py, ok2 := ci.args[2].(*Poly)
			if !ok1 || !ok2 {
				panic(undecided("a pixel without coordinates"))
			}
			return []Outcome{{st: st, res: colourAt(ct, px, py)}}, true
		}
		return nil, false
	}
	k := newCover(e, st, nm, w, h, et, func() *Slice { return list })
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) { k.load(s, at, o, p, t) }
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !o.array || !types.Identical(o.typ, et) || len(p) != 2 || p[0].idx == nil {
			return
		}
		n := eu.Field(p[1].field).Name()
		y := rowOf(list, o)
		if ct == nil || y == nil {
			e.obligation("an entry holds the colour of its pixel", nm+"."+n, e.at(at), false, "%s is stored in an unknown row", showVal(v))
			return
		}
		ch := colourAt(ct, p[0].idx, y).fs
		for i := range ch {
			ch[i] = oneOf(s, v, ch[i].(*Poly))
		}
		full := constInt(255)
		want := constInt(0)
		switch n {
		case "r":
			want = mul(full, ch[0].(*Poly))
		case "g":
			want = mul(full, ch[1].(*Poly))
		case "b":
			want = mul(full, ch[2].(*Poly))
		default:
			for i := 0; i < 3; i++ {
				want = add(want, sq(mul(full, ch[i].(*Poly))))
			}
		}
		g, ok := v.(*Poly)
		e.obligation("an entry holds the colour of its pixel", nm+"."+n, e.at(at), ok && sameNum(s, g, app("trunc", true, want)), "%s is stored, not the colour at %s, %s", showVal(v), p[0].idx.key, y.key)
		k.store(s, p[0].idx, y, p[1].field)
	}
	rets := 0
	for _, o := range e.execFunc(st, f, args, nil, nm, nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		got := tableList(o.res, rt)
		e.obligation("the filled table is returned", nm, L.posOf(f.Pos()), list != nil && got.obj == list.obj, "another table is returned")
		e.obligation("every entry gets all of its parts", nm, L.posOf(f.Pos()), k.all(o.st), "one may be left out")
	}
	c.need("returns of "+nm, rets, 1)
	c.take(e)
	if bare == nil {
		panic(undecided("the table is not made by a function of its own"))
	}
	bareTable(c, bare, rt, w, h)
}

// bareTable: an empty table has rows of its own, all of the right length.
func bareTable(c *Ctx, f *ssa.Function, rt types.Type, w, h *Poly) {
	y := skolem("row:" + f.Name())
	L := c.L
	nm := f.Name()
	e := newEngine(L)
	e.eager = true
	st := newState()
	st.assume(cGT(w))
	st.assume(cGT(h))
	st.assume(cGE(y))
	st.assume(cGT(sub(h, y)))
	st.tags["row"], st.tags["own"] = "", ""
	rowT, et := tableTypes(rt)
	e.onAlloc = func(e *Engine, s *State, o *Obj, zero bool) {
		if o.array && types.Identical(o.typ, et) {
			s.tags["own"] = o.key
		}
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !o.array || !types.Identical(o.typ, rowT) || len(p) != 1 || p[0].idx == nil {
			return
		}
		l, ok := v.(*Slice)
		ok = ok && l.obj != nil && l.obj.kind == "alloc"
		// it is an array of its own, or its own part of one array
		ok = ok && (l.obj.key == s.tags["own"] && sameNum(s, l.off, constInt(0)) || sameNum(s, l.off, mul(p[0].idx, w.rw(s))))
		hit := s.ask(cEQ(sub(p[0].idx, y)))
		if hit {
			s.tags["row"] = "1"
		}
		e.obligation("every row is a list of its own", nm, e.at(at), ok, "%s is stored", showVal(v))
		e.obligation("every row is as long as the table is wide", nm, e.at(at), ok && sameNum(s, l.len, rewriteTo(s, w).(*Poly)), "%s is stored", showVal(v))
		s.tags["own"] = ""
	}
	args := []Value{w, h}
	rets := 0
	for _, o := range e.execFunc(st, f, args, nil, nm, nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		list := tableList(o.res, rt)
		e.obligation("every row is made", nm, L.posOf(f.Pos()), o.st.tags["row"] == "1", "a row is left out")
		e.obligation("the table has as many rows as it is high", nm, L.posOf(f.Pos()), sameNum(o.st, list.len, rewriteTo(o.st, h).(*Poly)), "it has %s", list.len.key)
		for n, want := range map[string]*Poly{"width": w, "height": h} {
			if i := fieldIdxOK(rt, n); i >= 0 {
				got, ok := o.res.(*Struct).fs[i].(*Poly)
				e.obligation("the table knows its size", nm+"."+n, L.posOf(f.Pos()), ok && sameNum(o.st, got, rewriteTo(o.st, want).(*Poly)), "%s is another", n)
			}
		}
	}
	c.need("returns of "+nm, rets, 1)
	c.take(e)
}

func fieldIdxOK(t types.Type, name string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func tableTypes(rt types.Type) (row, entry types.Type) {
	u := rt.Underlying().(*types.Struct)
	row = u.Field(fieldIdx(rt, "pixels")).Type().Underlying().(*types.Slice).Elem()
	return row, row.Underlying().(*types.Slice).Elem()
}

func tableList(tab Value, rt types.Type) *Slice {
	tv, ok := tab.(*Struct)
	if ok {
		if l, ok := tv.fs[fieldIdx(rt, "pixels")].(*Slice); ok && l.obj != nil {
			return l
		}
	}
	panic(undecided("the table is not a list of rows"))
}
