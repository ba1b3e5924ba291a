package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C15", title: "Rendering describes every shape in order with its own average colour",
		rule: "The rendering functions are interpreted for arbitrary shapes and an arbitrary image with one shape, vertex and fan triangle picked out: the entry of the shape holds the shape scaled to the image and the average of a colour sum that starts empty, gets the colour of every pixel rasterised for exactly this shape once, and gets the colours at the clamped corners exactly when there was no pixel.",
		run:  checkRender})
}

func checkRender(c *Ctx) {
	L := c.L
	n := 0
	for _, f := range exportedFuncs(L) {
		if fnPkgPath(f) != modPath+"/render" || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		n++
		f := f
		c.guard("picture of "+f.Name(), func() { renderFn(c, f, "") })
		if r := newRender(c, f); !r.tri {
			c.guard("area of "+f.Name(), func() { renderFn(c, f, "area") })
			c.guard("outline of "+f.Name(), func() { renderFn(c, f, "outline") })
		}
	}
	c.need("rendering functions", n, 2)
	c.guard("average colours", func() { averageColour(c) })
}

type renderRun struct {
	c      *Ctx
	L      *Loaded
	e      *Engine
	f      *ssa.Function
	nm     string
	tri    bool
	fan    bool // judge only which triangles a polygon is made of
	line   bool // judge only the outline of a polygon
	shapes *Slice
	elemT  types.Type
	m, q   *Poly
	j      *Poly
	w, h   *Poly
	accT   types.Type
	iCount int
	iSum   int
	rgbT   types.Type
	pixel  bool
	px, py *Poly
	nAvg   int
	nRast  int
	stored map[string]bool
}

func newRender(c *Ctx, f *ssa.Function) *renderRun {
	r := &renderRun{c: c, L: c.L, f: f, nm: f.Name(), stored: map[string]bool{}}
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && strings.HasPrefix(typName(s.Elem()), "geom.") {
			r.shapes = sym("shapes:"+r.nm, p.Type()).(*Slice)
			r.elemT = s.Elem()
			u := s.Elem().Underlying().(*types.Struct)
			_, r.tri = u.Field(0).Type().Underlying().(*types.Array)
		}
	}
	if r.shapes == nil {
		panic(undecided("the shapes are not given as a list"))
	}
	r.accT = r.L.typ("color", "AverageRGB")
	r.rgbT = r.L.typ("color", "RGB")
	u := r.accT.Underlying().(*types.Struct)
	r.iCount, r.iSum = -1, -1
	for i := 0; i < u.NumFields(); i++ {
		if isIntType(u.Field(i).Type()) {
			r.iCount = i
		}
		if types.Identical(u.Field(i).Type(), r.rgbT) {
			r.iSum = i
		}
	}
	if r.iCount < 0 || r.iSum < 0 {
		panic(undecided("the average colour is not a sum and a count"))
	}
	return r
}

func (r *renderRun) colour(x, y *Poly) *Struct {
	out := &Struct{}
	for i := 0; i < 3; i++ {
		out.fs = append(out.fs, app("imageChannel"+fmt.Sprint(i), false, x, y))
	}
	return out
}

func (r *renderRun) sum(kind string) *Poly { return symPoly("sum of " + kind + " colours:" + r.nm) }

// pts is the list of vertices of the picked polygon.
func (r *renderRun) pts(s *State) *Slice {
	return rewriteTo(s, s.vals["pts"]).(*Slice)
}

// vertex i of the picked shape.
func (r *renderRun) vertex(s *State, i *Poly) []*Poly {
	if r.tri {
		n, _ := i.isConst()
		k := int(n.Num().Int64())
		sh := r.shape(s)
		all := flatNums([]Value{sh})
		return all[2*k : 2*k+2]
	}
	l := r.pts(s)
	return flatNums([]Value{s.read(l.obj, Path{{idx: add(l.off, i)}}, l.obj.typ)})
}

func (r *renderRun) shape(s *State) Value {
	l := rewriteTo(s, r.shapes).(*Slice)
	return s.read(l.obj, Path{{idx: add(l.off, r.m)}}, r.elemT)
}

func (r *renderRun) ob(rule, at string, ok bool, format string, a ...any) {
	r.e.obligation(rule, r.nm, at, ok, format, a...)
}

func renderFn(c *Ctx, f *ssa.Function, mode string) {
	r := newRender(c, f)
	fan := mode == "area"
	r.fan, r.line = fan, mode == "outline"
	e := newEngine(r.L)
	r.e = e
	e.eager = true
	idealConv = true
	e.onAlloc = func(e *Engine, s *State, o *Obj, zero bool) {
		if r.line && o.array && o.typ != nil && typName(o.typ) == "normgeom.NormPoint" {
			watchCell(s, "outline "+o.key, o, Path{{idx: r.q}}, o.typ)
		}
	}
	st := newState()
	r.m = skolem("shape:" + r.nm)
	r.q = skolem("vertex:" + r.nm)
	r.w = sym("rw:"+r.nm, types.Typ[types.Int]).(*Poly)
	r.h = sym("rh:"+r.nm, types.Typ[types.Int]).(*Poly)
	r.px, r.py = skolem("px:"+r.nm), skolem("py:"+r.nm)
	st.assume(cGT(r.w))
	st.assume(cGT(r.h))
	st.assume(cGE(r.m))
	st.assume(cGT(sub(r.shapes.len, r.m)))
	st.assume(cGE(r.q))
	st.vals["w"], st.vals["h"] = r.w, r.h
	if !r.tri {
		l, ok := r.shape(st).(*Struct).fs[0].(*Slice)
		if !ok || l.obj == nil {
			panic(undecided("the vertices are not a list"))
		}
		st.vals["pts"] = l
		if fan {
			r.j = skolem("fan:" + r.nm)
			st.assume(cGE(addInt(r.j, -2)))
			st.assume(cGT(sub(l.len, r.j)))
		} else {
			st.assume(cGT(sub(l.len, r.q)))
		}
	}
	for _, x := range []string{"cur", "rast", "fall", "v", "avg", "col", "shp", "pix", "used"} {
		st.tags[x] = ""
	}
	e.onLoad = r.onLoad
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if !o.array || len(p) == 0 || p[0].idx == nil || !r.isEntry(o.typ) || isVarargs(at) {
			return
		}
		r.store(s, e.at(at), p[0].idx, p[1:], v)
	}
	e.intercept = r.intercept
	var args []Value
	for _, p := range f.Params {
		if types.Identical(p.Type(), types.NewSlice(r.elemT)) {
			args = append(args, r.shapes)
		} else {
			args = append(args, sym("arg:"+r.nm+p.Name(), p.Type()))
		}
	}
	rets := 0
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		s, at := o.st, r.L.posOf(f.Pos())
		if fan {
			r.ob("every part of a shape is rasterised once", at, s.tags["rast"] == "1", "a part is rasterised %d times", len(s.tags["rast"]))
			continue
		}
		res, ok := o.res.(*Slice)
		r.ob("there is one entry for every shape", at, ok && sameNum(s, res.len, rewriteTo(s, r.shapes).(*Slice).len), "%s is returned", showVal(o.res))
		outline := "0"
		if r.tri {
			outline = "012345"
		}
		if !r.line {
			r.ob("the colour of every shape is stored", at, s.tags["col"] == "012", "its channels stored are %q", s.tags["col"])
		}
		if r.tri || r.line {
			r.ob("the outline of every shape is stored", at, s.tags["shp"] == outline, "its parts stored are %q", s.tags["shp"])
		}
		if r.tri {
			r.ob("every shape is rasterised once", at, s.tags["rast"] == "1", "it is rasterised %d times", len(s.tags["rast"]))
		}
	}
	c.need("returns of "+r.nm, rets, 1)
	if r.line {
		c.take(e)
		return
	}
	c.need("shapes rasterised by "+r.nm, r.nRast, 1)
	c.need("average colours taken by "+r.nm, r.nAvg, 1)
	c.take(e)
}

// isVarargs: the store prepares the arguments of an append.
func isVarargs(at ssa.Instruction) bool {
	st, ok := at.(*ssa.Store)
	if !ok {
		return false
	}
	x, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := x.X.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

func (r *renderRun) isEntry(t types.Type) bool {
	rt := r.f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	return t != nil && types.Identical(t, rt)
}

// onLoad notes which shape is being worked on.
func (r *renderRun) onLoad(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
	l := rewriteTo(s, r.shapes).(*Slice)
	if o.key == l.obj.key && len(p) > 0 && p[0].idx != nil {
		if s.ask(cEQ(sub(sub(p[0].idx, l.off), r.m))) {
			s.tags["cur"] = "1"
			q := append(Path{{idx: add(l.off, r.m)}}, p[1:]...)
			s.top().env[at.(ssa.Value)] = s.read(o, q, t)
		} else {
			s.tags["cur"] = "0"
		}
	}
	if r.tri || s.tags["cur"] != "1" {
		return
	}
	if v := r.pts(s); o.key == v.obj.key && len(p) > 0 && p[0].idx != nil {
		if r.line && s.ask(cEQ(sub(sub(p[0].idx, v.off), r.q))) {
			s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(v.off, r.q)}}, p[1:]...), t)
			return
		}
		s.vals["vx"] = sub(p[0].idx, v.off)
	}
}

// store judges what is put into the result.
func (r *renderRun) store(s *State, at string, idx *Poly, p Path, v Value) {
	if r.fan {
		return
	}
	hit := s.ask(cEQ(sub(idx, r.m)))
	if r.line {
		// the outline of this shape is done with
		defer func() { s.watch = nil }()
	}
	if !hit {
		return
	}
	u := r.f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	leaf := 0 // which number of the outline
	var put func(t types.Type, p Path, top int, v Value)
	put = func(t types.Type, p Path, top int, v Value) {
		switch x := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if len(p) > 0 && p[0].field != i {
					leaf += leaves(x.Field(i).Type())
					continue
				}
				n := top
				if n < 0 {
					n, leaf = i, 0
				}
				if len(p) > 0 {
					put(x.Field(i).Type(), p[1:], n, v)
					return
				}
				y, ok := v.(*Struct)
				if !ok {
					panic(undecided("an entry is stored as " + showVal(v)))
				}
				put(x.Field(i).Type(), nil, n, y.fs[i])
			}
			return
		case *types.Array:
			for i := int64(0); i < x.Len(); i++ {
				if len(p) > 0 {
					k := int64(p[0].field)
					if p[0].idx != nil {
						c, ok := p[0].idx.isConst()
						if !ok {
							panic(undecided("a corner is stored at an unknown place"))
						}
						k = c.Num().Int64()
					}
					if k != i {
						leaf += leaves(x.Elem())
						continue
					}
					put(x.Elem(), p[1:], top, v)
					return
				}
				y, ok := v.(*Struct)
				if !ok {
					panic(undecided("corners are stored as " + showVal(v)))
				}
				put(x.Elem(), nil, top, y.fs[i])
			}
			return
		}
		if top >= 0 && types.Identical(u.Field(top).Type(), r.rgbT) {
			if r.line {
				leaf++
				return
			}
			s.tags["col"] = mark(s.tags["col"], leaf)
			r.ob("the colour is the average of the shape", at, s.tags["cur"] == "1" && s.tags["avg"] == "1" && sameVal(s, v, r.avg(leaf)), "%s is stored", showVal(v))
		} else if r.tri || r.line {
			s.tags["shp"] = mark(s.tags["shp"], leaf)
			r.ob("the outline is the shape scaled to the image", at, s.tags["cur"] == "1" && r.scaled(s, v, leaf), "%s is stored", showVal(v))
		}
		leaf++
	}
	rt := r.f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	put(rt, p, -1, v)
}

// leaves counts the numbers and references a value is made of.
func leaves(t types.Type) int {
	switch x := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < x.NumFields(); i++ {
			n += leaves(x.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(x.Len()) * leaves(x.Elem())
	}
	return 1
}

// mark notes that leaf i was stored; storing one twice is noted as well.
func mark(t string, i int) string {
	x := fmt.Sprint(i)
	if strings.Contains(t, x) {
		if strings.HasSuffix(t, "!") {
			return t
		}
		return t + "!"
	}
	b := strings.Split(t+x, "")
	sortStrings(b)
	return strings.Join(b, "")
}

func tally(t string) string {
	if len(t) < 2 {
		return t + "1"
	}
	return t
}

func (r *renderRun) avg(k int) *Poly { return symPoly(fmt.Sprintf("average%d:%s", k, r.nm)) }

// scaled: number i of the outline is that of the shape over the size of its axis.
func (r *renderRun) scaled(s *State, v Value, i int) bool {
	size := []*Poly{rewriteTo(s, s.vals["w"]).(*Poly), rewriteTo(s, s.vals["h"]).(*Poly)}
	if r.tri {
		got, ok := v.(*Poly)
		want := flatNums([]Value{r.shape(s)})
		return ok && i < len(want) && sameNum(s, mul(got, size[i%2]), want[i])
	}
	l, ok := v.(*Slice)
	if !ok || l.obj == nil || !sameNum(s, l.len, r.pts(s).len) {
		return false
	}
	got := flatNums([]Value{s.read(l.obj, Path{{idx: add(l.off, r.q)}}, l.obj.typ)})
	want := r.vertex(s, r.q)
	for i := range got {
		if !sameNum(s, mul(got[i], size[i%2]), want[i]) {
			return false
		}
	}
	return len(got) == 2
}

func (r *renderRun) intercept(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	at := e.at(ci.instr)
	if ci.method != nil && ci.callee == nil && strings.HasPrefix(ifaceOwner(ci.method), "image.") {
		switch ci.method.Name() {
		case "Size":
			return []Outcome{{st: st, res: &Struct{fs: []Value{rewriteTo(st, r.w), rewriteTo(st, r.h)}}}}, true
		case "RGBAt":
			x, ok1 := ci.args[1].(*Poly)
			y, ok2 := ci.args[2].(*Poly)
			if !ok1 || !ok2 {
				panic(undecided("a pixel without coordinates"))
			}
			st.vals["rx"], st.vals["ry"] = x, y
			return []Outcome{{st: st, res: r.colour(x, y)}}, true
		}
	}
	g := ci.callee
	if g == nil {
		return nil, false
	}
	if !r.tri && !r.line && fnPkgPath(g) == modPath+"/geom" && g.Signature.Results().Len() == 1 && strings.HasPrefix(typName(g.Signature.Results().At(0).Type()), "normgeom.") {
		return []Outcome{{st: st, res: unknownValue(e, "outline:"+ci.ctx, g.Signature.Results().At(0).Type())}}, true
	}
	if g.Signature.Recv() != nil && types.Identical(elemOf(g.Signature.Recv().Type()), r.accT) {
		switch g.Name() {
		case "Add":
			if r.line {
				return []Outcome{{st: st}}, true
			}
			return r.add(st, at, ci), true
		case "Average":
			if r.line {
				return []Outcome{{st: st, res: unknownValue(e, "avg:"+ci.ctx, r.rgbT)}}, true
			}
			return r.average(st, at, ci), true
		}
	}
	if fnPkgPath(g) == modPath+"/rasterize" && g.Parent() == nil && len(ci.args) == 2 {
		if _, ok := ci.args[0].(*Struct); ok && len(flatNums(ci.args[:1])) == 6 {
			if r.line {
				return []Outcome{{st: st}}, true
			}
			return r.rasterize(st, at, ci), true
		}
	}
	return nil, false
}

func (r *renderRun) cells(p *Ptr) (count, sum cellRef) {
	u := r.accT.Underlying().(*types.Struct)
	count = cellRef{p.obj, p.path.with(Step{field: r.iCount}), u.Field(r.iCount).Type()}
	sum = cellRef{p.obj, p.path.with(Step{field: r.iSum}).with(Step{field: 0}), types.Typ[types.Float64]}
	return
}

// start: the sum of the picked shape starts empty.
func (r *renderRun) start(s *State, at string, p *Ptr) {
	if s.tags["cur"] != "1" || s.tags["used"] != "" {
		return
	}
	cc, sc := r.cells(p)
	n, ok1 := s.read(cc.o, cc.p, cc.t).(*Poly)
	v, ok2 := s.read(sc.o, sc.p, sc.t).(*Poly)
	ok := ok1 && ok2 && s.facts.entails(cEQ(n)) && s.facts.entails(cEQ(v))
	r.ob("the colours of a shape are summed from nothing", at, ok, "the count starts at %s", showVal(n))
	s.tags["used"] = "1"
}

// grow adds n colours.
func (r *renderRun) grow(s *State, p *Ptr, n *Poly) {
	cc, sc := r.cells(p)
	old, ok := s.read(cc.o, cc.p, cc.t).(*Poly)
	if !ok {
		panic(undecided("the count is not a number"))
	}
	s.write(cc.o, cc.p, cc.t, add(old, n), nil)
	kind := "other"
	if s.tags["cur"] == "1" {
		kind = "picked"
	}
	s.write(sc.o, sc.p, sc.t, r.sum(kind), nil)
}

func (r *renderRun) add(st *State, at string, ci *CallInfo) []Outcome {
	p, ok := ci.args[0].(*Ptr)
	if !ok {
		panic(undecided("a sum that is not known is added to"))
	}
	v, _ := ci.args[1].(*Struct)
	one := []Outcome{{st: st}}
	if r.pixel {
		want := r.colour(r.px, r.py)
		r.ob("a pixel adds its own colour", at, v != nil && sameVal(st, v, want), "%s is added", showVal(ci.args[1]))
		st.tags["pix"] = tally(st.tags["pix"])
		st.vals["acc"] = p
		return one
	}
	var out []Outcome
	for _, s := range r.e.leaf(st, func(s *State) {
		if s.tags["cur"] == "1" && !r.tri && !r.fan {
			if i, ok := s.vals["vx"].(*Poly); ok {
				s.ask(cEQ(sub(rewriteTo(s, i).(*Poly), r.q)))
			}
		}
	}) {
		if s.dead {
			continue
		}
		if s.tags["cur"] == "1" {
			r.start(s, at, p)
			cc, _ := r.cells(p)
			if s.tags["fall"] == "" {
				n, _ := s.read(cc.o, cc.p, cc.t).(*Poly)
				r.ob("corners count only when there is no pixel", at, n != nil && s.facts.entails(cEQ(n)), "the count may be %s", showVal(n))
				s.tags["fall"] = "1"
			}
			r.ob("colours are added before the average is taken", at, s.tags["avg"] == "", "one is added afterwards")
			r.corner(s, at, ci.args[1])
		}
		r.grow(s, p, constInt(1))
		out = append(out, Outcome{st: s})
	}
	return out
}

// corner judges a colour added for a shape without pixels.
func (r *renderRun) corner(s *State, at string, v Value) {
	v = rewriteTo(s, v)
	x, ok1 := s.vals["rx"].(*Poly)
	y, ok2 := s.vals["ry"].(*Poly)
	if !ok1 || !ok2 {
		r.ob("a corner adds the colour of its nearest pixel", at, false, "%s is added", showVal(v))
		return
	}
	x, y = rewriteTo(s, x).(*Poly), rewriteTo(s, y).(*Poly)
	if !sameVal(s, v, rewriteTo(s, r.colour(x, y))) && !sameVal(s, v, r.colour(x, y)) {
		r.ob("a corner adds the colour of its nearest pixel", at, false, "%s is added", showVal(v))
		return
	}
	clamped := func(got, want, size *Poly) bool {
		last := addInt(size, -1)
		return s.facts.entails(cGE(sub(want, got))) && s.facts.entails(cGE(sub(last, got))) && (sameNum(s, got, want) || sameNum(s, got, last))
	}
	w, h := rewriteTo(s, s.vals["w"]).(*Poly), rewriteTo(s, s.vals["h"]).(*Poly)
	is := func(i *Poly) bool {
		p := r.vertex(s, i)
		return len(p) == 2 && clamped(x, p[0], w) && clamped(y, p[1], h)
	}
	if r.tri {
		hit := false
		for k := int64(0); k < 3; k++ {
			if t := fmt.Sprint(k); is(constInt(k)) && !strings.Contains(s.tags["v"], t) {
				s.tags["v"] += t
				hit = true
				break
			}
		}
		r.ob("a corner adds the colour of its nearest pixel", at, hit, "%s, %s is no corner that has not been added", x.key, y.key)
		return
	}
	i, ok := s.vals["vx"].(*Poly)
	ok = ok && is(rewriteTo(s, i).(*Poly))
	r.ob("a corner adds the colour of its nearest pixel", at, ok, "%s, %s is no corner", x.key, y.key)
	if ok && !r.fan && s.facts.entails(cEQ(sub(rewriteTo(s, i).(*Poly), r.q))) {
		s.tags["v"] = tally(s.tags["v"])
	}
}

func (r *renderRun) average(st *State, at string, ci *CallInfo) []Outcome {
	v, ok := ci.args[0].(*Struct)
	if p, isP := ci.args[0].(*Ptr); isP {
		v, ok = st.read(p.obj, p.path, r.accT).(*Struct)
	}
	if !ok {
		panic(undecided("the sum that is averaged is not known"))
	}
	if st.tags["cur"] != "1" {
		return []Outcome{{st: st, res: unknownValue(r.e, "avgOther:"+ci.ctx, r.rgbT)}}
	}
	r.nAvg++
	n, _ := v.fs[r.iCount].(*Poly)
	s0, _ := v.fs[r.iSum].(*Struct)
	mine := s0 != nil && sameVal(st, s0.fs[0], r.sum("picked"))
	r.ob("the average is taken of the colours of the shape", at, mine && n != nil, "another sum is averaged")
	if n != nil && !r.fan {
		if st.tags["fall"] == "" {
			r.ob("a shape without pixels takes the colours at its corners", at, st.facts.entails(cGT(n)), "nothing may have been added")
		} else if r.tri {
			r.ob("every corner is added once", at, len(st.tags["v"]) == 3, "%d are added", len(st.tags["v"]))
		} else {
			r.ob("every corner is added once", at, st.tags["v"] == "1", "one is added %d times", len(st.tags["v"]))
		}
	}
	st.tags["avg"] = tally(st.tags["avg"])
	out := &Struct{}
	for k := 0; k < 3; k++ {
		out.fs = append(out.fs, r.avg(k))
	}
	return []Outcome{{st: st, res: out}}
}

// rasterize judges what is done with an arbitrary pixel.
func (r *renderRun) rasterize(st *State, at string, ci *CallInfo) []Outcome {
	e := r.e
	cb, ok := ci.args[1].(*Fn)
	if !ok {
		panic(undecided("what is done with a pixel is not known"))
	}
	r.nRast++
	if cb.fn.Signature.Params().Len() != 2 {
		panic(undecided("the pixels are not visited one by one"))
	}
	r.pixel = true
	var acc *Ptr
	s := st.clone()
	s.tags["pix"] = ""
	cells := carried(e, s, cb, []Value{r.px, r.py}, "pixel:"+ci.ctx)
	n := 0
	s = st.clone()
	s.tags["pix"] = ""
	for _, o := range e.callFn(s, cb, []Value{r.px, r.py}, "pixel:"+ci.ctx) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		r.ob("every pixel is added once", at, o.st.tags["pix"] == "1", "one is added %d times", len(o.st.tags["pix"]))
		if p, ok := o.st.vals["acc"].(*Ptr); ok {
			acc = p
		}
	}
	r.pixel = false
	r.ob("the pixels are added", at, n > 0 && acc != nil, "nothing is added")
	if acc == nil {
		return []Outcome{{st: st}}
	}
	var out []Outcome
	for _, s := range e.leaf(st, func(s *State) { r.part(s, ci.args[0]) }) {
		if s.dead {
			continue
		}
		if s.tags["cur"] == "1" {
			r.start(s, at, acc)
			r.ob("colours are added before the average is taken", at, s.tags["avg"] == "" && s.tags["fall"] == "", "pixels are added afterwards")
			ok, mine := r.part(s, ci.args[0])
			r.ob("the shape itself is rasterised", at, ok, "%s is rasterised", showVal(ci.args[0]))
			if mine {
				s.tags["rast"] = tally(s.tags["rast"])
			}
		}
		forget(e, s, cells, "pixels:"+ci.ctx)
		k := e.fresh("pixelcount:"+ci.ctx, types.Typ[types.Int]).(*Poly)
		s.assume(cGE(k))
		r.grow(s, acc, k)
		out = append(out, Outcome{st: s})
	}
	return out
}

// part tells whether a triangle is part of the picked shape, and whether it is
// the one that is counted.
func (r *renderRun) part(s *State, v Value) (ok, mine bool) {
	if s.tags["cur"] != "1" {
		return false, false
	}
	got := flatNums([]Value{rewriteTo(s, v)})
	var pts []*Poly
	for k := 0; k < 3; k++ {
		pts = append(pts, got[2*k], got[2*k+1])
	}
	if r.tri {
		want := flatNums([]Value{r.shape(s)})
		used := map[int]bool{}
		for k := 0; k < 3; k++ {
			hit := false
			for i := 0; i < 3 && !hit; i++ {
				if !used[i] && sameNum(s, pts[2*k], want[2*i]) && sameNum(s, pts[2*k+1], want[2*i+1]) {
					used[i], hit = true, true
				}
			}
			if !hit {
				return false, false
			}
		}
		return true, true
	}
	l := r.pts(s)
	var ix []*Poly
	for k := 0; k < 3; k++ {
		i := elemIndex(pts[2*k], l, 0)
		j := elemIndex(pts[2*k+1], l, 1)
		if i == nil || j == nil || !sameNum(s, i, j) {
			return false, false
		}
		ix = append(ix, i)
	}
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			if a == b {
				continue
			}
			k := 3 - a - b
			if sameNum(s, ix[a], constInt(0)) && sameNum(s, sub(ix[b], ix[k]), constInt(1)) && s.facts.entails(cGE(addInt(ix[b], -2))) {
				if r.fan {
					return true, s.ask(cEQ(sub(ix[b], r.j)))
				}
				return true, true
			}
		}
	}
	return false, false
}

// elemIndex is which element of l a number is read from, at field f.
func elemIndex(p *Poly, l *Slice, f int) *Poly {
	a := p.singleAtom()
	if a == nil || a.op != "sel" || a.obj == nil || a.obj.key != l.obj.key || len(a.path) != 2 || a.path[0].idx == nil || a.path[1].field != f {
		return nil
	}
	return sub(a.path[0].idx, l.off)
}

// averageColour: adding adds each channel and counts; the average is the
// quotient of each channel, and nothing at all is black.
func averageColour(c *Ctx) {
	L := c.L
	t := L.typ("color", "AverageRGB")
	x := exact{c, L}
	u := t.Underlying().(*types.Struct)
	r := &renderRun{rgbT: L.typ("color", "RGB")}
	for i := 0; i < u.NumFields(); i++ {
		if isIntType(u.Field(i).Type()) {
			r.iCount = i
		} else {
			r.iSum = i
		}
	}
	val := sym("average", t).(*Struct)
	f := L.method(types.NewPointer(t), "Add")
	rgb := sym("added", r.rgbT)
	c.guard("Add", func() {
		e := newEngine(L)
		st := newState()
		p := sym("sum", types.NewPointer(t)).(*Ptr)
		st.assume(e.isNil(p).not())
		st.assume(cGE(st.read(p.obj, p.path, t).(*Struct).fs[r.iCount].(*Poly)))
		pre := flatNums([]Value{st.read(p.obj, p.path, t).(*Struct).fs[r.iSum]})
		n0 := st.read(p.obj, p.path, t).(*Struct).fs[r.iCount].(*Poly)
		rets := 0
		for _, o := range e.execFunc(st, f, []Value{p, rgb}, nil, "Add", nil) {
			if o.panicked || o.st.dead {
				continue
			}
			rets++
			v := o.st.read(p.obj, p.path, t).(*Struct)
			got := flatNums([]Value{v.fs[r.iSum]})
			for i, d := range flatNums([]Value{rgb}) {
				e.obligation("every channel is added to its own sum", f.String(), L.posOf(f.Pos()), sameNum(o.st, got[i], add(pre[i], d)), "channel %d becomes %s", i, got[i].key)
			}
			n, _ := v.fs[r.iCount].(*Poly)
			e.obligation("every colour is counted", f.String(), L.posOf(f.Pos()), n != nil && sameNum(o.st, n, addInt(n0, 1)), "the count becomes %s", showVal(n))
		}
		c.need("returns of Add", rets, 1)
		c.take(e)
	})
	g := L.method(t, "Average")
	idealConv = true
	x.eachFrom(g, []Value{val}, func(st *State, e *Engine) {
		st.assume(cGE(val.fs[r.iCount].(*Poly)))
	}, func(e *Engine, s *State, args []Value, res Value) {
		v := args[0].(*Struct)
		n := v.fs[r.iCount].(*Poly)
		sums := flatNums([]Value{v.fs[r.iSum]})
		none := s.ask(cEQ(n))
		for i, got := range flatNums([]Value{res}) {
			if none {
				e.obligation("the average of nothing is black", g.String(), L.posOf(g.Pos()), sameNum(s, got, constInt(0)), "channel %d is %s", i, got.key)
			} else {
				e.obligation("the average is the quotient of each channel", g.String(), L.posOf(g.Pos()), sameNum(s, mul(got, n), sums[i]), "channel %d is %s", i, got.key)
			}
		}
	})
	k := L.method(t, "Count")
	x.eachFrom(k, []Value{val}, nil, func(e *Engine, s *State, args []Value, res Value) {
		n, ok := res.(*Poly)
		e.obligation("the count is the number of colours added", k.String(), L.posOf(k.Pos()), ok && sameNum(s, n, args[0].(*Struct).fs[r.iCount].(*Poly)), "it is %s", showVal(res))
	})
}
