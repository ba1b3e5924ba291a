package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C08", title: "Cached results belong to the shape they are used for",
		rule: "The body run for each shape is interpreted for an arbitrary shape and any cache: a cached result is used only when its record was compared equal with this shape's coordinates; otherwise a new record with these coordinates, the value just computed, the index looked up and arrays of its own is filed; exactly one record is filed per shape.",
		run:  func(c *Ctx) { checkFitShapes(c, "C08") }})
	register(&Check{id: "C19", title: "The fitness is the total colour variance of the shapes",
		rule: "The body run for each shape, and what it does with every row and block of pixels, is interpreted for arbitrary rows, blocks, pixels and totals: each pixel of the shape is added once to the sum of its channel, each block enters with the sums of its pixels, the count is the number of pixels, and what enters the fitness is S-(R²+G²+B²)/N as a polynomial identity.",
		run: func(c *Ctx) {
			c.guard("widths of sums", func() { sumWidths(c) })
			checkFitShapes(c, "C19")
		}})
}

// cellRef is a numeric or list cell that survives one run of a closure.
type cellRef struct {
	o *Obj
	p Path
	t types.Type
}

func (c cellRef) key() string { return c.o.key + c.p.Key() }

// carried finds what running f on args changes outside of its own memory.
func carried(e *Engine, st *State, f Value, args []Value, ctx string) []cellRef {
	pre := map[string]bool{}
	for k := range st.heap {
		pre[k] = true
	}
	seen := map[string]bool{}
	var out []cellRef
	os, or, ol, oa := e.onStore, e.onRange, e.onLoad, e.onAppend
	e.onLoad, e.onAppend = nil, nil
	e.mute++
	defer func() {
		e.mute--
		e.onStore, e.onRange, e.onLoad, e.onAppend = os, or, ol, oa
	}()
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if o.kind == "alloc" && !pre[o.key] || o.array {
			return
		}
		if r := (cellRef{o, p, t}); !seen[r.key()] {
			seen[r.key()] = true
			out = append(out, r)
		}
	}
	e.onRange = nil
	// an arbitrary run: what it changes may hold anything already
	st = st.clone()
	if fn, ok := f.(*Fn); ok {
		for i, b := range fn.binds {
			if p, ok := b.(*Ptr); ok && p.obj != nil && p.obj.kind == "alloc" && len(p.path) == 0 && !p.obj.array {
				st.write(p.obj, nil, p.obj.typ, unknownValue(e, fmt.Sprintf("%s:was%d", ctx, i), p.obj.typ), nil)
			}
		}
	}
	e.callFn(st, f, args, ctx+":scan")
	return out
}

// forget gives the cells arbitrary contents.
func forget(e *Engine, st *State, cells []cellRef, site string) {
	for i, c := range cells {
		st.write(c.o, c.p, c.t, unknownValue(e, fmt.Sprintf("%s:%d", site, i), c.t), nil)
	}
}

func unknownValue(e *Engine, site string, t types.Type) Value {
	v := e.fresh(site, t)
	if p, ok := v.(*Poly); ok && p.singleAtom() != nil && isIntType(t) {
		return v
	}
	return v
}

// shapeRun judges what is done with one shape.
type shapeRun struct {
	*fitRun
	id    string
	e     *Engine
	recT  types.Type // the record filed in the cache
	at    string
	outs  []shapeOut
	cells []cellRef
	tot   []*Poly // their contents after all shapes
	init  []*Poly // their contents before the first
	tri   bool
	sh    Value // the shape
	col   *Poly // an arbitrary column
	row   *Obj  // while a row is added: its pixels
	off   *Poly
	nRast int

	// for shapes that are lists of vertices
	learn  bool
	cells2 []cellRef // the cells that outlive one shape
	pObj   *Obj      // the array of rounded vertices
	kObj   *Obj      // the array of coordinates that identifies the shape
	pCell  *cellRef
	ix     *Poly // an arbitrary rounded vertex
}

type shapeOut struct {
	s     *State
	delta []*Poly
	want  *Poly // what the shape contributes
	cross *Poly
}

func checkFitShapes(c *Ctx, id string) {
	if id == "C19" {
		checkColourTables(c)
	}
	if id == "C08" {
		checkRecordEquality(c)
		checkSharedCache(c)
	}
	for _, t := range fitFunctions(c) {
		c.guard("one shape of "+typName(t), func() { fitShape(c, t, id) })
	}
}

func (r *shapeRun) ob(id, rule, construct, at string, ok bool, format string, a ...any) bool {
	if id != r.id {
		return ok
	}
	return r.e.obligation(rule, construct, at, ok, format, a...)
}

func (r *shapeRun) cache(s *State) *Slice {
	sl, ok := r.read(s, "TriangleCache").(*Slice)
	if !ok || sl.obj == nil {
		panic(undecided("the cache is not a list"))
	}
	return sl
}

func fitShape(c *Ctx, t types.Type, id string) {
	L := c.L
	r := &shapeRun{fitRun: newFitRun(c, t, "shape"), id: id}
	f := L.method(t, "Calculate")
	e := newEngine(L)
	r.e = e
	e.eager = true
	e.noMerge = true
	e.ratios = []int64{2}
	idealConv = true
	st := r.st
	_, tt := r.field("Triangulation")
	sT := elemOf(tt)
	r.col = skolem("col:" + r.nm)
	st.vals["cacheIn"] = r.cache(st)
	// as before the first shape: the structure has been made and updated
	bp, bt := r.field("Base")
	st.write(r.recv.obj, bp, bt, Nil{}, nil)
	st.assume(e.isNil(r.read(st, "Triangulation")).not())
	for _, x := range []string{"eq", "iter", "rast"} {
		st.tags[x] = ""
	}
	rets := 0
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		g := ci.callee
		if g != nil && g.Signature.Recv() != nil && fnPkgPath(g) == modPath+"/"+incr && types.Identical(elemOf(g.Signature.Recv().Type()), sT) {
			if strings.HasPrefix(g.Name(), "Iter") {
				return r.iterate(st, ci), true
			}
			return []Outcome{{st: st}}, true
		}
		if g != nil && fnPkgPath(g) == modPath+"/rasterize" && g.Signature.Recv() == nil && g.Parent() == nil {
			return r.rasterize(st, ci), true
		}
		if outs, ok := r.record(st, ci); ok {
			return outs, true
		}
		return nil, false
	}
	e.onLoad = r.onLoad
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if r.pObj != nil && o == r.pObj && r.ix != nil && s.vals["ix"] != nil {
			r.storeVertex(s, at, p, v)
		}
	}
	for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, r.recv), r.data}, nil, f.Name(), nil) {
		if o.panicked {
			continue
		}
		rets++
		r.finish(o.st, o.res, L.posOf(f.Pos()))
	}
	c.need("returns of "+r.nm, rets, 1)
	c.need("ways a shape of "+r.nm+" is treated", len(r.outs), 2)
	c.need("shapes of "+r.nm+" rasterised", r.nRast, 1)
	c.take(e)
}

// iterate judges the body run for each shape, from arbitrary totals.
func (r *shapeRun) iterate(st *State, ci *CallInfo) []Outcome {
	e := r.e
	cb, ok := ci.args[len(ci.args)-1].(*Fn)
	if !ok {
		panic(undecided("the body run for each shape is not known"))
	}
	if st.tags["iter"] != "" {
		r.ob("C19", "the shapes are visited once", r.nm, e.at(ci.instr), false, "they are visited twice")
	}
	st.tags["iter"] = "1"
	pt := cb.fn.Signature.Params().At(0).Type()
	sh := sym("shape:"+r.nm, pt)
	r.sh = sh
	_, r.tri = sh.(*Struct)
	r.learn = true
	cells := carried(e, st, cb, []Value{sh}, "shape:"+r.nm)
	r.learn = false
	r.cells = nil
	var keep []cellRef
	for _, c := range cells {
		keep = append(keep, c)
	}
	r.init = nil
	for _, c := range keep {
		if isFloatType(c.t) {
			r.cells = append(r.cells, c)
			p, _ := st.read(c.o, c.p, c.t).(*Poly)
			r.init = append(r.init, p)
		}
	}
	// nothing of an earlier evaluation is in the list being filled
	next := r.list2(st, "nextCache")
	r.ob("C08", "the list of records starts empty", r.nm, e.at(ci.instr), next != nil && st.facts.entails(cEQ(next.len)), "it starts as %s", showVal(next))
	forget(e, st, keep, "shape:"+r.nm)
	r.tot = nil
	for _, c := range r.cells {
		r.tot = append(r.tot, st.read(c.o, c.p, c.t).(*Poly))
	}
	st.vals["next"] = r.list2(st, "nextCache")
	after := st.clone()
	r.cells2 = keep
	if !r.tri {
		r.polygon(st, cb)
	}
	r.outs = nil
	for _, o := range e.callFn(st, cb, []Value{sh}, "shape:"+r.nm) {
		if o.panicked || o.st.dead {
			continue
		}
		for _, s := range e.leaf(o.st, func(s *State) { r.filed(s) }) {
			r.judge(s, e.at(ci.instr))
		}
	}
	return []Outcome{{st: after}}
}

// list2 reads a list of the function as it is now.
func (r *shapeRun) list2(s *State, name string) *Slice {
	sl, _ := r.read(s, name).(*Slice)
	return sl
}

// filed is the record put on the list for this shape.
func (r *shapeRun) filed(s *State) Value {
	next := r.list2(s, "nextCache")
	old, _ := s.vals["next"].(*Slice)
	if next == nil || old == nil || next.obj == nil {
		return Nil{}
	}
	_, nt := r.field("nextCache")
	return s.read(next.obj, Path{{idx: add(old.off, old.len)}}, nt.Underlying().(*types.Slice).Elem())
}

func (r *shapeRun) judge(s *State, at string) {
	next, old := r.list2(s, "nextCache"), s.vals["next"].(*Slice)
	one := next != nil && next.obj != nil && s.facts.entails(cEQ(sub(sub(next.len, old.len), constInt(1))))
	if !r.ob("C08", "one record is filed per shape", r.nm, at, one, "the list grows from %s to %s", showVal(old), showVal(next)) || !one {
		if r.id == "C08" {
			return
		}
	}
	rec := r.filed(s)
	out := shapeOut{s: s}
	for i, c := range r.cells {
		out.delta = append(out.delta, sub(s.read(c.o, c.p, c.t).(*Poly), rewriteTo(s, r.tot[i]).(*Poly)))
	}
	if r.tri {
		a := flatNums([]Value{rewriteTo(s, r.sh)})
		out.cross = crossOf(a[0], a[1], a[2], a[3], a[4], a[5])
	}
	if s.tags["eq"] == "hit" {
		entry := s.vals["entry"]
		r.ob("C08", "a record found is kept", r.nm, at, sameVal(s, rec, entry), "%s is filed", showVal(rec))
		out.want, _ = s.vals["data"].(*Poly)
		if out.want == nil {
			r.ob("C19", "the value of a record found is used", r.nm, at, false, "it is never asked for")
			return
		}
	} else {
		if s.tags["rast"] != "1" {
			r.ob("C19", "a shape that is not in the cache is measured once", r.nm, at, false, "it is measured %d times", len(s.tags["rast"]))
			return
		}
		r.ob("C19", "a shape that is not in the cache is measured once", r.nm, at, true, "")
		S, R, G, B, N := s.vals["sum:sq"].(*Poly), s.vals["sum:r"].(*Poly), s.vals["sum:g"].(*Poly), s.vals["sum:b"].(*Poly), s.vals["sum:n"].(*Poly)
		out.want = sub(S, mul(add(add(sq(R), sq(G)), sq(B)), recip(N)))
		if s.facts.entails(cEQ(N)) {
			out.want = constInt(0)
		}
		p := unIface(rec)
		ptr, ok := p.(*Ptr)
		ok = ok && ptr.obj != nil && ptr.obj.kind == "alloc"
		if r.ob("C08", "a new record is filed for a shape that is not in the cache", r.nm, at, ok, "%s is filed", showVal(rec)) && ok {
			r.judgeRecord(s, ptr, out.want, at)
		}
	}
	r.outs = append(r.outs, out)
}

// judgeRecord: the record filed holds this shape, its value and its index.
func (r *shapeRun) judgeRecord(s *State, p *Ptr, want *Poly, at string) {
	e := r.e
	pt := types.NewPointer(r.recT)
	_ = pt
	idx, _ := s.vals["idx"].(*Poly)
	for _, m := range []string{"Data", "CachedHash"} {
		f := r.L.method(r.recT, m)
		e.mute++
		outs := e.execFunc(s.clone(), f, []Value{recvArg(s, f, p)}, nil, "record:"+m, nil)
		e.mute--
		for _, o := range outs {
			v, _ := o.res.(*Poly)
			if m == "Data" {
				r.ob("C08", "a new record holds the value computed", r.nm, at, v != nil && sameNum(o.st, v, want), "it holds %s, not %s", showVal(o.res), want.key)
			} else {
				r.ob("C08", "a new record holds the index that was looked up", r.nm, at, v != nil && idx != nil && sameNum(o.st, v, idx), "it holds %s, not %s", showVal(o.res), showVal(idx))
			}
		}
	}
	if l := r.keyList(s, p); !r.tri {
		r.ob("C08", "the coordinates in a record are its own", r.nm, at, l != nil && l.obj != r.kObj && l.obj.kind == "alloc", "they are shared")
	}
	r.ob("C08", "a new record holds the coordinates of the shape", r.nm, at, r.keyed(s, p), "its coordinates are %s", showVal(s.read(p.obj, p.path, r.recT)))
}

// keyed reports whether the record at p holds the coordinates of the shape.
func (r *shapeRun) keyed(s *State, p *Ptr) bool {
	fs := keyFields(r.L, r.recT)
	u := r.recT.Underlying().(*types.Struct)
	var nums []*Poly
	for _, i := range fs {
		v := s.read(p.obj, p.path.with(Step{field: i}), u.Field(i).Type())
		nums = append(nums, flatNums([]Value{v})...)
	}
	if r.tri {
		return permutation(s, nums, flatNums([]Value{rewriteTo(s, r.sh)})[:6])
	}
	k := r.keyList(s, p)
	if k == nil || r.pCell == nil {
		return false
	}
	if r.learn {
		r.kObj = k.obj
		return true
	}
	pl, _ := s.read(r.pCell.o, r.pCell.p, r.pCell.t).(*Slice)
	if pl == nil || pl.obj != r.pObj || !sameNum(s, k.len, add(pl.len, pl.len)) {
		return false
	}
	j := s.vals["ix"].(*Poly)
	if !s.facts.entails(cGT(sub(pl.len, j))) {
		return true
	}
	a := flatNums([]Value{s.read(pl.obj, Path{{idx: add(pl.off, j)}}, r.pointT())})
	kt := k.obj.typ
	for i := range a {
		v := s.read(k.obj, Path{{idx: addInt(add(k.off, add(j, j)), int64(i))}}, kt)
		if q, ok := v.(*Poly); !ok || !sameNum(s, q, a[i]) {
			return false
		}
	}
	return true
}

func (r *shapeRun) pointT() types.Type { return r.pObj.typ }

// keyList is the list of coordinates in the record at p.
func (r *shapeRun) keyList(s *State, p *Ptr) *Slice {
	u := r.recT.Underlying().(*types.Struct)
	var l *Slice
	for _, i := range keyFields(r.L, r.recT) {
		if v, ok := s.read(p.obj, p.path.with(Step{field: i}), u.Field(i).Type()).(*Slice); ok && v.obj != nil {
			l = v
		}
	}
	return l
}

// polygon prepares a state for shapes that are lists of vertices: it learns
// where the rounded vertices and the coordinates are kept and follows an
// arbitrary one.
func (r *shapeRun) polygon(st *State, cb *Fn) {
	e := r.e
	r.learn, r.pObj, r.kObj, r.pCell = true, nil, nil, nil
	e.mute++
	e.callFn(st.clone(), cb, []Value{r.sh}, "shape:"+r.nm+":learn")
	e.mute--
	// the vertices are the list that is rasterised
	for i, c := range r.cells2 {
		if v, ok := st.read(c.o, c.p, c.t).(*Slice); ok && v.obj != nil && v.obj == r.pObj {
			r.pCell = &r.cells2[i]
		}
	}
	if r.pCell == nil {
		panic(undecided("the vertices that are rasterised are not kept in a list"))
	}
	e.mute++
	e.callFn(st.clone(), cb, []Value{r.sh}, "shape:"+r.nm+":learn2")
	e.mute--
	r.learn = false
	if r.kObj == nil {
		panic(undecided("the coordinates that identify a shape are not kept in a list"))
	}
	r.ix = skolem("ix:" + r.nm)
	st.assume(cGE(r.ix))
	st.assume(cGT(sub(skolem("beyond:"+r.nm), r.ix)))
	st.vals["ix"] = r.ix
	watchCell(st, "rounded vertex", r.pObj, Path{{idx: r.ix}}, r.pointT())
	for i := int64(0); i < 2; i++ {
		watchCell(st, fmt.Sprintf("coordinate %d", i), r.kObj, Path{{idx: addInt(add(r.ix, r.ix), i)}}, r.kObj.typ)
	}
}

// rounded reports whether v is x rounded.
func rounded(s *State, v Value, x *Poly) bool {
	p, ok := v.(*Poly)
	if !ok {
		return false
	}
	half := constRat(big.NewRat(1, 2))
	for _, want := range []*Poly{app("trunc", true, add(x, half)), app("floor", true, add(x, half)), app("round", true, x)} {
		if want = rewriteTo(s, want).(*Poly); sameNum(s, p, want) {
			return true
		}
	}
	return false
}

// storeVertex judges an addition to the rounded vertices: both coordinates are
// those of one vertex of the shape, rounded.
func (r *shapeRun) storeVertex(s *State, at ssa.Instruction, p Path, v Value) {
	if r.learn || len(p) != 2 {
		return
	}
	sh := rewriteTo(s, r.sh).(*Slice)
	f := p[1].field
	i, _ := s.vals["vx"].(*Poly)
	ok := false
	if i != nil {
		x := flatNums([]Value{s.read(sh.obj, Path{{idx: i}}, sh.obj.typ)})
		ok = f < len(x) && rounded(s, v, x[f])
	}
	r.ob("C19", "a vertex is rounded to a pixel", r.nm, r.e.at(at), ok, "%s is stored", showVal(v))
}

// permutation: the lists hold the same numbers.
func permutation(s *State, a, b []*Poly) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		ok := false
		for j, y := range b {
			if !used[j] && (x.key == y.key || s.facts.entails(cEQ(sub(x, y)))) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// keyFields are the fields of a cache record other than its value and its index.
func keyFields(L *Loaded, t types.Type) []int {
	u := t.Underlying().(*types.Struct)
	not := map[int]bool{}
	for _, m := range []string{"Data", "CachedHash"} {
		f := L.method(t, m)
		e := newEngineKeep(L)
		st := newState()
		p := sym("rec:"+typName(t), types.NewPointer(t)).(*Ptr)
		for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, p)}, nil, m, nil) {
			if v, ok := o.res.(*Poly); ok && v.singleAtom() != nil && v.singleAtom().op == "sel" {
				if path := v.singleAtom().path; len(path) > 0 {
					not[path[len(path)-1].field] = true
				}
			}
		}
	}
	var out []int
	for i := 0; i < u.NumFields(); i++ {
		if !not[i] {
			out = append(out, i)
		}
	}
	return out
}

// newEngineKeep is an engine for a question asked during another run.
func newEngineKeep(L *Loaded) *Engine {
	w, l, i := weakHook, lenHook, idealConv
	e := newEngine(L)
	weakHook, lenHook, idealConv = w, l, i
	return e
}

// record gives the meaning of the methods of cache records.
func (r *shapeRun) record(st *State, ci *CallInfo) ([]Outcome, bool) {
	e := r.e
	name := ""
	if ci.callee != nil {
		if ci.callee.Signature.Recv() == nil || fnPkgPath(ci.callee) != modPath+"/fitness" || !types.Implements(types.NewPointer(elemOf(ci.callee.Signature.Recv().Type())), r.dataIface()) {
			return nil, false
		}
		name = ci.callee.Name()
	} else if ci.method != nil && strings.HasPrefix(ifaceOwner(ci.method), "fitness.CacheData") {
		name = ci.method.Name()
	} else {
		return nil, false
	}
	at := e.at(ci.instr)
	switch name {
	case "Hash":
		return []Outcome{{st: st, res: unknownValue(e, "hash:"+ci.ctx, types.Typ[types.Uint64])}}, true
	case "Equals":
		var entry, key Value = ci.args[0], unIface(ci.args[1])
		if _, ok := entry.(*Opaque); !ok {
			entry, key = ci.args[1], unIface(ci.args[0])
		}
		p, ok := key.(*Ptr)
		if ok && p.obj != nil && r.recT == nil {
			r.recT = p.obj.typ
		}
		ok = ok && p.obj != nil && types.Identical(p.obj.typ, r.recT)
		if sv, isS := key.(*Struct); isS {
			_ = sv
			panic(undecided("a record is compared by value"))
		}
		states := []*State{st}
		if !r.tri && !r.learn {
			states = e.leaf(st, func(s *State) {
				pl, _ := s.read(r.pCell.o, r.pCell.p, r.pCell.t).(*Slice)
				s.ask(cGT(sub(pl.len, s.vals["ix"].(*Poly))))
				if p != nil {
					r.keyed(s, p)
				}
			})
		}
		for _, s := range states {
			r.ob("C08", "the cache is searched for this shape", r.nm, at, ok && r.keyed(s, p), "the record compared is %s", showVal(key))
		}
		if len(states) == 0 {
			return nil, true
		}
		idx := r.entryIndex(st, entry)
		r.ob("C08", "the record compared is an entry of the cache", r.nm, at, idx != nil, "it is %s", showVal(entry))
		if idx != nil {
			st.vals["idx"] = idx
		}
		st.vals["entry"] = entry
		no := st.clone()
		no.tags["eq"], st.tags["eq"] = "miss", "hit"
		return []Outcome{{st: st, res: cTrue}, {st: no, res: cFalse}}, true
	case "Data":
		if ci.callee != nil {
			return nil, false
		}
		same := st.tags["eq"] == "hit" && st.vals["entry"] != nil && sameVal(st, ci.args[0], st.vals["entry"])
		r.ob("C08", "a value is taken only from the record that was found equal", r.nm, at, same, "the value of %s is used", showVal(ci.args[0]))
		v := unknownValue(e, "value:"+ci.ctx, types.Typ[types.Float64])
		st.vals["data"] = v
		return []Outcome{{st: st, res: v}}, true
	case "SetCachedHash":
		if ci.callee != nil {
			return nil, false
		}
		r.ob("C08", "records in the cache are not changed", r.nm, at, false, "the index of %s is set", showVal(ci.args[0]))
		return []Outcome{{st: st}}, true
	}
	return nil, false
}

func (r *shapeRun) dataIface() *types.Interface {
	return r.L.typ("fitness", "CacheData").Underlying().(*types.Interface)
}

// entryIndex is where in the cache v comes from.
func (r *shapeRun) entryIndex(s *State, v Value) *Poly {
	o, ok := v.(*Opaque)
	in := rewriteTo(s, s.vals["cacheIn"]).(*Slice)
	if !ok || o.a.op != "sel" || o.a.obj != in.obj || len(o.a.path) != 1 || o.a.path[0].idx == nil {
		return nil
	}
	return sub(o.a.path[0].idx, in.off)
}

// onLoad notes which entry of the cache is looked at, and picks out the pixel
// of the arbitrary column while a row is added.
func (r *shapeRun) onLoad(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
	if in, ok := s.vals["cacheIn"].(*Slice); ok && o == in.obj && len(p) == 1 && p[0].idx != nil {
		s.vals["idx"] = sub(p[0].idx, in.off)
	}
	if sh, ok := r.sh.(*Slice); ok && !r.learn && o == rewriteTo(s, sh).(*Slice).obj && len(p) > 0 && p[0].idx != nil {
		s.vals["vx"] = p[0].idx
	}
	if r.row == nil || o != r.row || len(p) == 0 || p[0].idx == nil {
		return
	}
	k := sub(p[0].idx, r.off)
	e.hint(cEQ(sub(k, s.vals["col"].(*Poly))))
	if s.ask(cEQ(sub(k, s.vals["col"].(*Poly)))) {
		s.tags["hit"] = "1"
		q := append(Path{{idx: add(r.off, s.vals["col"].(*Poly))}}, p[1:]...)
		s.top().env[at.(ssa.Value)] = s.read(o, q, t)
		return
	}
	s.top().env[at.(ssa.Value)] = zeroValue(t)
}

// rasterize judges what is done with each row and block of the shape, from
// arbitrary totals.
func (r *shapeRun) rasterize(st *State, ci *CallInfo) []Outcome {
	e := r.e
	at := e.at(ci.instr)
	r.nRast++
	if len(st.tags["rast"]) < 2 {
		st.tags["rast"] += "1"
	}
	var line, block *Fn
	var size *Poly
	shapeOK := false
	for _, a := range ci.args {
		switch v := a.(type) {
		case *Fn:
			switch v.fn.Signature.Params().Len() {
			case 3:
				line = v
			case 2:
				block = v
			}
		case *Poly:
			size = v
		default:
			shapeOK = r.isShape(st, v)
		}
	}
	r.ob("C19", "the shape itself is measured", r.nm, at, shapeOK, "another shape is rasterised")
	if line == nil {
		panic(undecided("what is done with a row of pixels is not known"))
	}
	bs, _ := r.read(st, "blockSize").(*Poly)
	if block != nil {
		r.ob("C19", "the blocks have the size of the table", r.nm, at, size != nil && bs != nil && sameNum(st, size, bs), "they have size %s", showVal(size))
	}
	arg := func(n string) *Poly { return skolem(n + ":" + r.nm) }
	la := []Value{arg("x0"), arg("x1"), arg("row")}
	ba := []Value{arg("bx"), arg("by")}
	cells := carried(e, st, line, la, "row:"+r.nm)
	if block != nil {
		have := map[string]bool{}
		for _, c := range cells {
			have[c.key()] = true
		}
		for _, c := range carried(e, st, block, ba, "block:"+r.nm) {
			if !have[c.key()] {
				cells = append(cells, c)
			}
		}
	}
	var num []cellRef
	for _, c := range cells {
		if isIntType(c.t) || isFloatType(c.t) {
			num = append(num, c)
			z, ok := st.read(c.o, c.p, c.t).(*Poly)
			r.ob("C19", "the sums of a shape start at zero", r.nm, at, ok && st.facts.entails(cEQ(z)), "%s starts at %s", cellName(c), showVal(z))
		}
	}
	forget(e, st, cells, "sums:"+r.nm)
	read := func(s *State, c cellRef) *Poly { return s.read(c.o, c.p, c.t).(*Poly) }
	after := st.clone()
	var pre []*Poly
	for _, c := range num {
		pre = append(pre, read(st, c))
	}

	// which cell holds which sum
	role := map[string]int{}
	find := func(s *State, want map[string]*Poly, site string) {
		for n, w := range want {
			hit := -1
			for i, c := range num {
				if sameNum(s, sub(read(s, c), pre[i]), w) {
					hit = i
				}
			}
			if hit < 0 {
				r.ob("C19", site+" enters the sum of "+n, r.nm, at, false, "no sum grows by %s", w.key)
				continue
			}
			if h, ok := role[n]; ok && h != hit {
				r.ob("C19", site+" enters the sum of "+n, r.nm, at, false, "it enters another sum")
				continue
			}
			role[n] = hit
			r.ob("C19", site+" enters the sum of "+n, r.nm, at, true, "")
		}
	}
	if block != nil {
		s := st.clone()
		tp, tt := r.field("targetN")
		pf := fieldIdx(tt, "pixels")
		pt := tt.Underlying().(*types.Struct).Field(pf).Type()
		tab, ok := s.read(r.recv.obj, tp.with(Step{field: pf}), pt).(*Slice)
		if !ok || tab.obj == nil {
			panic(undecided("the block table is not a list"))
		}
		rt := pt.Underlying().(*types.Slice).Elem()
		et := rt.Underlying().(*types.Slice).Elem()
		row := s.read(tab.obj, Path{{idx: add(tab.off, ba[1].(*Poly))}}, rt).(*Slice)
		for _, v := range ba {
			s.assume(cGE(v.(*Poly)))
		}
		s.assume(cGT(sub(tab.len, ba[1].(*Poly))))
		s.assume(cGT(sub(row.len, ba[0].(*Poly))))
		ent := Path{{idx: add(row.off, ba[0].(*Poly))}}
		n := 0
		for _, o := range e.callFn(s, block, ba, "block:"+r.nm) {
			if o.panicked || o.st.dead {
				continue
			}
			n++
			want := map[string]*Poly{"n": mul(bs, bs)}
			eu := et.Underlying().(*types.Struct)
			for i := 0; i < eu.NumFields(); i++ {
				want[eu.Field(i).Name()] = o.st.read(row.obj, ent.with(Step{field: i}), eu.Field(i).Type()).(*Poly)
			}
			find(o.st, want, "a block")
		}
		r.c.need("blocks added by "+r.nm, n, 1)
	}

	// rows
	tp, tt := r.field("target")
	pf := fieldIdx(tt, "pixels")
	pt := tt.Underlying().(*types.Struct).Field(pf).Type()
	rt := pt.Underlying().(*types.Slice).Elem()
	et := rt.Underlying().(*types.Slice).Elem()
	eu := et.Underlying().(*types.Struct)
	x0, x1, y := la[0].(*Poly), la[1].(*Poly), la[2].(*Poly)
	for _, where := range []string{"left of", "in", "right of"} {
		s := st.clone()
		tab, ok := s.read(r.recv.obj, tp.with(Step{field: pf}), pt).(*Slice)
		if !ok || tab.obj == nil {
			panic(undecided("the pixels are not a list"))
		}
		row := s.read(tab.obj, Path{{idx: add(tab.off, y)}}, rt).(*Slice)
		for _, c := range []*Cond{cGE(y), cGT(sub(tab.len, y)), cGE(x0), cGE(sub(x1, x0)), cGE(sub(row.len, x1))} {
			s.assume(c)
		}
		k := r.col
		switch where {
		case "left of":
			s.assume(cGT(sub(x0, k)))
		case "in":
			s.assume(cGE(sub(k, x0)))
			s.assume(cGT(sub(x1, k)))
		default:
			s.assume(cGE(sub(k, x1)))
		}
		s.vals["col"], s.tags["hit"] = k, ""
		for i, n := range []string{"x0", "x1"} {
			s.vals["arg:"+n] = la[i]
		}
		r.row, r.off = row.obj, row.off
		outs := e.callFn(s, line, la, "row:"+r.nm)
		r.row = nil
		n := 0
		for _, o := range outs {
			if o.panicked || o.st.dead {
				continue
			}
			n++
			s := o.st
			want := map[string]*Poly{"n": sub(s.vals["arg:x1"].(*Poly), s.vals["arg:x0"].(*Poly))}
			for i := 0; i < eu.NumFields(); i++ {
				v := constInt(0)
				if where == "in" {
					v = s.read(row.obj, Path{{idx: add(row.off, s.vals["col"].(*Poly))}, {field: i}}, eu.Field(i).Type()).(*Poly)
				}
				want[eu.Field(i).Name()] = v
			}
			if block == nil && where == "in" {
				find(s, want, "a row")
			}
			for n, w := range want {
				i, ok := role[n]
				if !ok {
					r.ob("C19", "a pixel "+where+" the row: sum of "+n, r.nm, at, block == nil, "there is no such sum")
					continue
				}
				d := sub(read(s, num[i]), rewriteTo(s, pre[i]).(*Poly))
				r.ob("C19", "a pixel "+where+" the row: sum of "+n, r.nm, at, sameNum(s, d, w), "the sum grows by %s, not by %s", d.key, w.key)
			}
		}
		r.ob("C19", "a row is added", r.nm+" ("+where+")", at, n > 0, "no path returns")
	}
	for n, i := range role {
		after.vals["sum:"+n] = read(after, num[i])
	}
	for _, n := range []string{"sq", "r", "g", "b", "n"} {
		if after.vals["sum:"+n] == nil {
			after.vals["sum:"+n] = symPoly("nosum:" + n + r.nm)
		}
	}
	return []Outcome{{st: after}}
}

func symPoly(n string) *Poly { return atomPoly(symAtom(n, false, nil)) }

func cellName(c cellRef) string { return c.t.String() + " cell " + c.p.Key() }

// isShape: v is the shape the body was run for, as the rasteriser wants it.
func (r *shapeRun) isShape(s *State, v Value) bool {
	if r.tri {
		a := flatNums([]Value{v})
		b := flatNums([]Value{rewriteTo(s, r.sh)})[:6]
		if len(a) != 6 {
			return false
		}
		// the same three corners
		used := map[int]bool{}
		for i := 0; i < 6; i += 2 {
			ok := false
			for j := 0; j < 6 && !ok; j += 2 {
				if !used[j] && sameNum(s, a[i], b[j]) && sameNum(s, a[i+1], b[j+1]) {
					used[j], ok = true, true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	ok := false
	for _, f := range listsOf(v) {
		if r.learn {
			r.pObj = f.obj
			ok = true
			continue
		}
		pl, _ := s.read(r.pCell.o, r.pCell.p, r.pCell.t).(*Slice)
		ok = pl != nil && f.obj == r.pObj && f.obj == pl.obj && sameNum(s, f.len, pl.len) && sameNum(s, f.off, pl.off)
	}
	return ok
}

func listsOf(v Value) []*Slice {
	switch v := v.(type) {
	case *Slice:
		return []*Slice{v}
	case *Struct:
		var out []*Slice
		for _, f := range v.fs {
			out = append(out, listsOf(f)...)
		}
		return out
	}
	return nil
}

// finish judges the fitness returned after all shapes.
func (r *shapeRun) finish(s *State, res Value, at string) {
	got, ok := res.(*Poly)
	if !ok {
		panic(undecided("the fitness is not a number"))
	}
	next, cache := r.list2(s, "nextCache"), r.list2(s, "TriangleCache")
	r.ob("C08", "the records of this evaluation are handed over", r.nm, at, next != nil && cache != nil && next.obj == cache.obj && sameNum(s, next.len, cache.len) && sameNum(s, next.off, cache.off), "the cache becomes %s", showVal(cache))
	m := r.read(s, "maxDifference").(*Poly)
	q := clearRecip(sub(mul(sub(constInt(1), got), m), constInt(0)))
	rest := q
	coef := make([]*big.Rat, len(r.tot))
	for i, x := range r.tot {
		a := rewriteTo(s, x).(*Poly)
		coef[i] = new(big.Rat)
		for _, t := range q.terms {
			if t.key == a.key {
				coef[i] = t.c
			}
		}
		rest = sub(rest, mul(constRat(coef[i]), a))
	}
	k := constInt(255 * 255 * 3)
	fixed := constInt(0)
	if r.tri {
		fixed = mul(k, mul(rewriteTo(s, r.w).(*Poly), rewriteTo(s, r.h).(*Poly)))
	}
	r.ob("C19", "the fitness is one minus the total over the largest difference", r.nm, at, sameNum(s, rest, fixed), "besides the totals it depends on %s", rest.key)
	z := constInt(0)
	for i := range r.tot {
		if coef[i].Sign() != 0 {
			if r.init[i] == nil {
				panic(undecided("a total starts as something else than a number"))
			}
			z = add(z, mul(constRat(coef[i]), r.init[i]))
		}
	}
	r.ob("C19", "the totals start at zero", r.nm, at, s.facts.entails(cEQ(z)), "they start at %s", z.key)
	for _, o := range r.outs {
		d := constInt(0)
		for i := range o.delta {
			d = add(d, mul(constRat(coef[i]), o.delta[i]))
		}
		want := o.want
		if r.tri {
			want = sub(want, mul(k, mul(constRat(big.NewRat(1, 2)), app("abs", false, o.cross))))
		}
		r.ob("C19", "a shape enters the total with its variance", r.nm, at, sameNum(o.s, d, want), "it enters with %s, not %s", d.key, want.key)
	}
}
