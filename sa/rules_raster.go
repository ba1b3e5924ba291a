package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C13", title: "The rasteriser covers every row of a shape once, from edge to edge",
		rule: "DDATriangleLines is interpreted for an arbitrary triangle, once for each order of its vertices by height (and with a flat top or bottom), with one picked row above, in the upper part, in the lower part or below. A picked row of the triangle gets exactly one line, from the left edge to the right edge; edges are compared as polynomial identities (ideal arithmetic) and which is left follows from the facts on the path. A row outside gets no line. DDATriangle is interpreted on an arbitrary line and column, which is reported once if it lies on the line and never otherwise; the polygon rasterisers on an arbitrary triangle of the fan, which must be rasterised once with the functions given.",
		run:  checkRaster})
}

func checkRaster(c *Ctx) {
	n := map[string]int{}
	for _, f := range exportedFuncs(c.L) {
		f := f
		if fnPkgPath(f) != modPath+"/rasterize" || f.Signature.Recv() != nil || len(f.Params) < 2 {
			continue
		}
		mode := rasterMode(f)
		switch typName(f.Params[0].Type()) {
		case "geom.Triangle":
			n["triangle "+mode]++
			switch mode {
			case "pixels":
				c.guard("pixels of "+f.Name(), func() { rasterPixels(c, f) })
			case "lines":
				seen := map[string][]map[string]string{}
				for _, order := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
					for _, flat := range []string{"", "top", "bottom"} {
						for _, part := range []string{"above", "upper", "lower", "below"} {
							if flat == "top" && part == "upper" || flat == "bottom" && part == "lower" {
								continue // no such row
							}
							order, part, flat := order, part, flat
							c.guard(fmt.Sprint("rows of ", f.Name(), " ", order, " ", flat, " ", part), func() { rasterRows(c, f, mode, order, flat, part, seen) })
						}
					}
				}
			}
		case "geom.Polygon":
			n["polygon "+mode]++
			c.guard("triangles of "+f.Name(), func() { rasterFan(c, f, mode) })
		}
	}
	c.need("rasterisers of pixels", n["triangle pixels"], 1)
	c.need("rasterisers of lines", n["triangle lines"], 1)
	c.need("rasterisers of polygons", n["polygon pixels"]+n["polygon blocks"], 2)
}

// rasterMode tells rasterisers apart by what they call.
func rasterMode(f *ssa.Function) string {
	var fs []int
	for _, p := range f.Params {
		if g, ok := p.Type().Underlying().(*types.Signature); ok {
			fs = append(fs, g.Params().Len())
		}
	}
	switch fmt.Sprint(fs) {
	case "[2]":
		return "pixels"
	case "[3]":
		return "lines"
	case "[3 2]":
		return "blocks"
	}
	return ""
}

type raster struct {
	c    *Ctx
	e    *Engine
	nm   string
	x, y [3]*Poly // top, middle and bottom vertex
	r    *Poly
	in   bool
	part string
}

func (r *raster) ob(rule, at string, ok bool, format string, a ...any) {
	r.e.obligation(rule, r.nm, at, ok, format, a...)
}

// edge is where the edge from vertex i to vertex j crosses the picked row.
func (r *raster) edge(s *State, i, j int) *Poly {
	rw := func(p *Poly) *Poly { return p.rw(s) }
	xi, yi, xj, yj := rw(r.x[i]), rw(r.y[i]), rw(r.x[j]), rw(r.y[j])
	return add(xi, mul(mul(sub(xj, xi), recip(sub(yj, yi))), sub(rw(r.r), yi)))
}

// edges are the long edge and the other edge in the picked row.
func (r *raster) edges(s *State) (long, short *Poly) {
	long = r.edge(s, 0, 2)
	if r.part == "upper" {
		return long, r.edge(s, 0, 1)
	}
	return long, r.edge(s, 1, 2)
}

// cut: v is x, truncated.
func cut(s *State, v, x *Poly) bool {
	if a := v.singleAtom(); a != nil && a.op == "trunc" && len(a.args) == 1 {
		if p, ok := a.args[0].(*Poly); ok && sameNum(s, p, x) {
			return true
		}
	}
	return sameNum(s, v, x)
}

// middle: which side of the long edge the middle vertex is known to be on.
func (r *raster) middle(s *State) (right, left bool) {
	rw := func(p *Poly) *Poly { return p.rw(s) }
	var x, y [3]*Poly
	for i := range x {
		x[i], y[i] = rw(r.x[i]), rw(r.y[i])
	}
	slope := func(i, j int) *Poly { return mul(sub(x[j], x[i]), recip(sub(y[j], y[i]))) }
	try := func(d *Poly) {
		right = right || s.facts.entails(cGE(d))
		left = left || s.facts.entails(cGE(neg(d)))
	}
	// the product that tells the side
	try(sub(mul(sub(x[1], x[0]), sub(y[2], y[0])), mul(sub(x[2], x[0]), sub(y[1], y[0]))))
	if s.facts.entails(cGT(sub(y[1], y[0]))) {
		try(sub(slope(0, 1), slope(0, 2)))
	} else if s.facts.entails(cEQ(sub(y[1], y[0]))) {
		try(sub(x[1], x[0]))
	}
	if s.facts.entails(cGT(sub(y[2], y[1]))) {
		try(sub(slope(0, 2), slope(1, 2)))
	} else if s.facts.entails(cEQ(sub(y[2], y[1]))) {
		try(sub(x[1], x[2]))
	}
	return
}

// piece judges a piece of the picked row.
func (r *raster) piece(s *State, at string, a, b *Poly) {
	if !r.in {
		r.ob("a row outside the triangle gets nothing", at, r.absurd(s), "a line from %s to %s", a.key, b.key)
		s.dead = true
		return
	}
	long, short := r.edges(s)
	right, left := r.middle(s)
	side := s.tags["side"]
	switch s.tags["row"] {
	case "":
		ok := false
		if right && cut(s, a, long) {
			ok, side = true, "long"
		} else if left && cut(s, a, short) {
			ok, side = true, "short"
		}
		r.ob("a row starts at its left edge", at, ok, "it starts at %s", showVal(a))
	case "1":
		r.ob("a piece starts where the one before ends", at, s.nums["end"] != nil && sameNum(s, a, s.nums["end"].rw(s)), "it starts at %s after %s", showVal(a), s.nums["end"].key)
	default:
		r.ob("a row is covered once", at, false, "there is a piece after the right edge")
	}
	s.tags["side"], s.tags["row"] = side, "1"
	s.nums["end"] = b
	last := short
	if side == "short" {
		last = long
	}
	if cut(s, b, last) {
		s.tags["row"] = "2"
		s.nums["end"] = constInt(0)
	}
}

// again follows a call with numbers and callbacks only once for the same
// numbers and facts, whatever the order of the vertices was.
func (r *raster) again(st *State, ci *CallInfo, seen map[string][]map[string]string, part string) ([]Outcome, bool) {
	fns := 0
	key := part + ":" + ci.callee.String()
	for i, a := range ci.args {
		switch a.(type) {
		case *Poly:
		case *Opaque:
			if _, ok := ci.callee.Params[i].Type().Underlying().(*types.Signature); !ok {
				return nil, false
			}
			fns++
		default:
			return nil, false
		}
		key += "," + a.Key()
	}
	if fns != 2 || st.tags["row"] != "" {
		return nil, false
	}
	var fs []string
	for _, c := range st.facts.cs {
		fs = append(fs, c.Key())
	}
	sort.Strings(fs)
	key += ":" + strings.Join(fs, ";")
	if _, ok := seen[key]; !ok {
		seen[key] = []map[string]string{}
		for _, o := range r.e.execFunc(st.clone(), ci.callee, ci.args, nil, "rows", ci.instr) {
			if !o.panicked && !o.st.dead {
				seen[key] = append(seen[key], map[string]string{"row": o.st.tags["row"], "side": o.st.tags["side"]})
			}
		}
	}
	var out []Outcome
	had := map[string]bool{}
	for _, m := range seen[key] {
		if k := fmt.Sprint(m); !had[k] {
			had[k] = true
			t := st.clone()
			for n, v := range m {
				t.tags[n] = v
			}
			out = append(out, Outcome{st: t})
		}
	}
	return out, true
}

// absurd: the facts contradict each other.
func (r *raster) absurd(s *State) bool {
	return false
}

// split tells apart whether all of cs hold.
func split(st *State, f func(s *State, yes bool), cs ...*Cond) (out []Outcome) {
	var no []*State
	for _, c := range cs {
		t := st.clone()
		if t.assume(c.not()) {
			no = append(no, t)
		}
		if !st.assume(c) {
			st = nil
			break
		}
	}
	if st != nil {
		f(st, true)
		out = append(out, Outcome{st: st})
	}
	for _, t := range no {
		f(t, false)
		out = append(out, Outcome{st: t})
	}
	return
}

func rasterRows(c *Ctx, f *ssa.Function, mode string, order [3]int, flat, part string, seen map[string][]map[string]string) {
	r := &raster{c: c, nm: f.Name(), part: part, in: part == "upper" || part == "lower"}
	e := newEngine(c.L)
	r.e = e
	e.eager = true
	e.noMerge = true
	e.noIdle = func(*State) bool { return true }
	idealConv = true
	st := newState()
	args := []Value{nil}
	var pts []Value
	var bs *Poly
	// the vertices are named by their height, so that orders lead to the same states
	var rank [3]int
	for k, i := range order {
		rank[i] = k
	}
	for i := 0; i < 3; i++ {
		pts = append(pts, sym(fmt.Sprint("vertex:", f.Name(), rank[i]), structType(f.Params[0].Type()).Field(0).Type().Underlying().(*types.Array).Elem()))
	}
	args[0] = mkStruct([]Value{mkStruct(pts)})
	for i, p := range f.Params[1:] {
		v := sym(fmt.Sprint("raster:", f.Name(), i), p.Type())
		if q, ok := v.(*Poly); ok {
			bs = q
		}
		args = append(args, v)
	}
	for k, i := range order {
		q := flatNums(pts[i : i+1])
		r.x[k], r.y[k] = q[0], q[1]
	}
	if mode == "blocks" {
		if bs == nil {
			panic(undecided("the block size is not an argument"))
		}
		st.assume(cGT(bs))
	}
	r.r = skolem("row:" + f.Name())
	ok := true
	switch flat {
	case "top":
		st.assume(cEQ(sub(r.y[1], r.y[0])))
	case "bottom":
		st.assume(cEQ(sub(r.y[2], r.y[1])))
	}
	for i := range r.y {
		r.y[i] = r.y[i].rw(st)
	}
	if flat != "top" {
		ok = ok && st.assume(cGT(sub(r.y[1], r.y[0])))
	}
	if flat != "bottom" {
		ok = ok && st.assume(cGT(sub(r.y[2], r.y[1])))
	}
	switch part {
	case "above":
		ok = ok && st.assume(cGT(sub(r.y[0], r.r)))
	case "upper":
		ok = ok && st.assume(cGE(sub(r.r, r.y[0]))) && st.assume(cGT(sub(r.y[1], r.r)))
	case "lower":
		ok = ok && st.assume(cGE(sub(r.r, r.y[1]))) && st.assume(cGT(sub(r.y[2], r.r)))
	default:
		ok = ok && st.assume(cGE(sub(r.r, r.y[2])))
	}
	if !ok {
		panic(undecided("no such row"))
	}
	args[0] = rewriteTo(st, args[0])
	st.tags["row"], st.tags["side"] = "", ""
	st.nums["end"] = constInt(0)
	calls := 0
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.callee != nil && inModule(ci.callee) && mode == "blocks" {
			return r.again(st, ci, seen, part)
		}
		if ci.callee != nil || ci.method != nil || ci.fnVal == nil {
			return nil, false
		}
		which := 0
		for i, a := range args {
			if _, isFn := f.Params[i].Type().Underlying().(*types.Signature); isFn && a.Key() == ci.fnVal.Key() {
				which = i
			}
		}
		if which == 0 {
			return nil, false
		}
		at := e.at(ci.instr)
		q := flatNums(ci.args)
		row := r.r
		calls++
		switch len(q) {
		case 3:
			e.hint(cGE(sub(q[2], row)))
			e.hint(cGE(sub(row, q[2])))
			return split(st, func(s *State, yes bool) {
				if yes {
					r.piece(s, at, q[0].rw(s), q[1].rw(s))
				}
			}, cEQ(sub(q[2], row))), true
		case 2:
			return split(st, func(s *State, yes bool) {
				if yes {
					r.piece(s, at, q[0].rw(s), add(q[0], bs).rw(s))
				}
			}, cGE(sub(row, q[1])), cGT(sub(add(q[1], bs.rw(st)), row))), true
		}
		return nil, false
	}
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, f.Name(), nil) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		if r.in {
			r.ob("every row ends at its right edge", c.L.posOf(f.Pos()), o.st.tags["row"] == "2", "one has %s pieces", o.st.tags["row"])
		}
	}
	c.need("ways through "+f.Name(), n, 1)
	c.need("lines of "+f.Name(), calls, 1)
	c.take(e)
}

// rasterPixels: every pixel of an arbitrary line is handed out once, and no other.
func rasterPixels(c *Ctx, f *ssa.Function) {
	nm := f.Name()
	e := newEngine(c.L)
	e.eager = true
	e.noIdle = func(*State) bool { return true }
	st := newState()
	var args []Value
	for i, p := range f.Params {
		args = append(args, sym(fmt.Sprint("pixels:", nm, i), p.Type()))
	}
	ob := func(rule, at string, ok bool, format string, a ...any) { e.obligation(rule, nm, at, ok, format, a...) }
	px := skolem("column:" + nm)
	a, b, y := skolem("from:"+nm), skolem("to:"+nm), skolem("line:"+nm)
	st.tags["px"], st.tags["lines"] = "", ""
	inLine := ""
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		at := e.at(ci.instr)
		if g := ci.callee; g != nil && g.Signature.Recv() == nil && fnPkgPath(g) == modPath+"/rasterize" && rasterMode(g) == "lines" && g.Object().Exported() {
			ob("the lines of the triangle are used once", at, st.tags["lines"] == "" && sameVal(st, ci.args[0], rewriteTo(st, args[0])), "they are of %s", showVal(ci.args[0]))
			st.tags["lines"] = "1"
			cb, ok := ci.args[1].(*Fn)
			if !ok {
				panic(undecided("what is done with a line is not known"))
			}
			n := 0
			for _, inLine = range []string{"before", "in", "behind"} {
				s := st.clone()
				s.assume(cGE(sub(b, a)))
				switch inLine {
				case "before":
					s.assume(cGT(sub(a, px)))
				case "in":
					s.assume(cGE(sub(px, a)))
					s.assume(cGT(sub(b, px)))
				default:
					s.assume(cGE(sub(px, b)))
				}
				for _, o := range e.callFn(s, cb, []Value{a, b, y}, inLine+":"+ci.ctx) {
					if o.panicked || o.st.dead {
						continue
					}
					n++
					if inLine == "in" {
						ob("every pixel of a line is handed out once", at, o.st.tags["px"] == "1", "one is handed out %d times", len(o.st.tags["px"]))
					}
				}
			}
			inLine = ""
			c.need("ways through a line", n, 3)
			return []Outcome{{st: st}}, true
		}
		if ci.callee != nil || ci.method != nil || ci.fnVal == nil || ci.fnVal.Key() != args[1].Key() {
			return nil, false
		}
		q := flatNums(ci.args)
		ob("a pixel is one of a line", at, inLine != "" && len(q) == 2 && sameNum(st, q[1], y), "%s is handed out", showVal(mkStruct(ci.args)))
		if len(q) != 2 {
			return []Outcome{{st: st}}, true
		}
		e.hint(cGE(sub(px, q[0])))
		e.hint(cGE(sub(q[0], px)))
		return split(st, func(s *State, yes bool) {
			if yes {
				ob("a pixel is one of a line", at, inLine == "in", "one %s it is handed out", inLine)
				if len(s.tags["px"]) < 2 {
					s.tags["px"] += "1"
				}
			}
		}, cEQ(sub(q[0], px))), true
	}
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, nm, nil) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		ob("the lines of the triangle are used once", c.L.posOf(f.Pos()), o.st.tags["lines"] == "1", "they are not used")
	}
	c.need("ways through "+nm, n, 1)
	c.take(e)
}

// rasterFan: every triangle of the fan of a polygon is rasterised once, with the
// same callbacks.
func rasterFan(c *Ctx, f *ssa.Function, mode string) {
	nm := f.Name()
	e := newEngine(c.L)
	e.eager = true
	e.noIdle = func(*State) bool { return true }
	st := newState()
	var args []Value
	for i, p := range f.Params {
		args = append(args, sym(fmt.Sprint("fan:", nm, i), p.Type()))
	}
	ob := func(rule, at string, ok bool, format string, a ...any) { e.obligation(rule, nm, at, ok, format, a...) }
	pts := args[0].(*Struct).fs[0].(*Slice)
	k := skolem("corner:" + nm)
	st.assume(cGE(sub(k, constInt(2))))
	st.assume(cGT(sub(pts.len, k)))
	st.tags["tri"], st.tags["at"] = "", ""
	e.onLoad = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
		l := rewriteTo(s, pts).(*Slice)
		if o.key != l.obj.key || len(p) == 0 || p[0].idx == nil {
			return
		}
		for _, i := range []*Poly{k, addInt(k, -1), constInt(0)} {
			if s.ask(cEQ(sub(sub(p[0].idx, l.off), i))) {
				s.top().env[at.(ssa.Value)] = s.read(o, append(Path{{idx: add(l.off, i)}}, p[1:]...), t)
				return
			}
		}
	}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		g := ci.callee
		if g == nil || g.Signature.Recv() != nil || fnPkgPath(g) != modPath+"/rasterize" || len(ci.args) != len(args) || rasterMode(g) != mode || typName(g.Params[0].Type()) != "geom.Triangle" {
			return nil, false
		}
		at := e.at(ci.instr)
		for i := range args[1:] {
			ob("the triangles are rasterised for the caller", at, sameVal(st, ci.args[i+1], rewriteTo(st, args[i+1])), "%s is handed over", showVal(ci.args[i+1]))
		}
		l := rewriteTo(st, pts).(*Slice)
		corner := func(i *Poly) []*Poly {
			return flatNums([]Value{st.read(l.obj, Path{{idx: add(l.off, i)}}, l.obj.typ)})
		}
		got := flatNums(ci.args[:1])
		same := func(a, b []*Poly) bool {
			for i := range a {
				if !sameNum(st, a[i], b[i]) {
					return false
				}
			}
			return true
		}
		// which triangle it is: the corners of triangle k, in any order
		want := [][]*Poly{corner(k), corner(addInt(k, -1)), corner(constInt(0))}
		for _, o := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			if len(got) == 6 && same(got[:2], want[o[0]]) && same(got[2:4], want[o[1]]) && same(got[4:], want[o[2]]) {
				if len(st.tags["tri"]) < 2 {
					st.tags["tri"] += "1"
				}
				break
			}
		}
		return []Outcome{{st: st}}, true
	}
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, nm, nil) {
		if o.panicked || o.st.dead {
			continue
		}
		n++
		ob("every triangle of the fan is rasterised once", c.L.posOf(f.Pos()), o.st.tags["tri"] == "1", "one is rasterised %d times", len(o.st.tags["tri"]))
	}
	c.need("ways through "+nm, n, 1)
	c.take(e)
}
