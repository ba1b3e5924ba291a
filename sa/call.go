package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/RH12503/Triangula"

func (e *Engine) callInfo(st *State, in ssa.CallInstruction, c *ssa.CallCommon) *CallInfo {
	ci := &CallInfo{instr: in}
	fr := st.top()
	nm := "go"
	if v, ok := in.(ssa.Value); ok {
		nm = v.Name()
	}
	ci.ctx = fr.ctx + "/" + in.Parent().Name() + "." + nm
	if c.IsInvoke() {
		ci.method = c.Method
		ci.name = c.Method.FullName()
		ci.args = append(ci.args, e.val(st, c.Value))
		for _, a := range c.Args {
			ci.args = append(ci.args, e.val(st, a))
		}
		// a known dynamic type resolves the call
		if i, ok := ci.args[0].(*Iface); ok {
			if f := e.L.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name()); f != nil {
				ci.callee = f
				ci.args[0] = i.v
				ci.name = f.String()
			}
		}
		return ci
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, e.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.name = "builtin " + b.Name()
		return ci
	}
	if f := c.StaticCallee(); f != nil {
		ci.callee = f
		ci.name = f.String()
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.fnVal = e.val(st, c.Value)
		}
		return ci
	}
	ci.fnVal = e.val(st, c.Value)
	if f, ok := ci.fnVal.(*Fn); ok {
		ci.callee = f.fn
		ci.name = f.fn.String()
	} else {
		ci.name = "func value " + ci.fnVal.Key()
	}
	return ci
}

func (e *Engine) call(st *State, in *ssa.Call, c *ssa.CallCommon) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, in, b, c)
	}
	ci := e.callInfo(st, in, c)
	outs := e.invoke(st, ci, in.Type())
	for _, o := range outs {
		if o.panicked || o.st.dead {
			continue
		}
		v := o.res
		if v == nil {
			v = Nil{}
		}
		o.st.top().env[in] = v
	}
	return outs
}

// pushDefer keeps a call until the function returns.
func (e *Engine) pushDefer(st *State, in *ssa.Defer) {
	for _, l := range infoOf(in.Parent()).loops {
		if l.body[in.Block()] {
			panic(undecided("a call deferred in a loop at " + e.at(in)))
		}
	}
	if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() != "close" {
		panic(undecided("a deferred call of a builtin at " + e.at(in)))
	}
	fr := st.top()
	ci := e.callInfo(st, in, &in.Call)
	ci.ctx += fmt.Sprint("deferred", len(fr.defers))
	st.tags["deferred:"+ci.ctx] = "1" // paths with other calls to come stay apart
	fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], ci)
}

// runDefers runs the calls that were deferred, the last one first.
func (e *Engine) runDefers(st *State) []Outcome {
	ds := st.top().defers
	st.top().defers = nil
	for _, d := range ds {
		delete(st.tags, "deferred:"+d.ctx)
	}
	out := []Outcome{{st: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Outcome
		for _, o := range out {
			if o.panicked || o.st.dead {
				next = append(next, o)
				continue
			}
			ci := *ds[i]
			ci.args = append([]Value(nil), ci.args...)
			for j, a := range ci.args {
				ci.args[j] = rewriteTo(o.st, a)
			}
			if ci.fnVal != nil {
				ci.fnVal = rewriteTo(o.st, ci.fnVal)
			}
			if ci.name == "builtin close" {
				if e.onClose != nil {
					next = append(next, states(e.leaf(o.st, func(s *State) { e.onClose(e, s, ci.instr, ci.args[0]) }))...)
				} else {
					next = append(next, o)
				}
				continue
			}
			for _, r := range e.invoke(o.st, &ci, nil) {
				r.res = nil
				next = append(next, r)
			}
		}
		out = next
	}
	return out
}

// invoke runs a resolved call.
func (e *Engine) invoke(st *State, ci *CallInfo, rt types.Type) []Outcome {
	if e.intercept != nil {
		if outs, ok := e.intercept(e, st, ci); ok {
			return outs
		}
	}
	if ci.callee != nil {
		if outs, ok := e.model(st, ci, rt); ok {
			return outs
		}
		f := ci.callee
		if outs, ok := e.groupCopy(st, ci); ok {
			return outs
		}
		if len(f.Blocks) > 0 && inModule(f) {
			var binds []Value
			if fv, ok := ci.fnVal.(*Fn); ok {
				binds = fv.binds
			}
			return e.execFunc(st, f, ci.args, binds, ci.ctx, ci.instr)
		}
	}
	// unknown code: its result is unknown
	e.counts["opaque calls"]++
	e.note("opaque:" + ci.name)
	if ci.callee == nil && ci.method == nil {
		// unknown function value (a caller's callback)
		return []Outcome{{st: st, res: e.fresh("cb:"+ci.ctx, rt)}}
	}
	return []Outcome{{st: st, res: e.fresh("call:"+ci.ctx, rt)}}
}

func (e *Engine) note(s string) { e.counts["note "+s]++ }

func inModule(f *ssa.Function) bool {
	p := f.Pkg
	for g := f; p == nil && g != nil; g = g.Parent() {
		p = g.Pkg
	}
	if p == nil {
		// synthetic wrapper: look at the object
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return f.Synthetic != "" && strings.Contains(f.String(), modPath)
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// callFn calls a function value from a model.
func (e *Engine) callFn(st *State, f Value, args []Value, ctx string) []Outcome {
	fv, ok := f.(*Fn)
	if !ok {
		return []Outcome{{st: st}}
	}
	return e.execFunc(st, fv.fn, args, fv.binds, ctx, nil)
}

// model gives the meaning of library functions the repository uses.
func (e *Engine) model(st *State, ci *CallInfo, rt types.Type) ([]Outcome, bool) {
	f := ci.callee
	name := f.String()
	one := func(v Value) ([]Outcome, bool) { return []Outcome{{st: st, res: v}}, true }
	np := func(i int) *Poly {
		if p, ok := ci.args[i].(*Poly); ok {
			return p
		}
		return atomPoly(appAtom("num", false, ci.args[i]))
	}
	switch name {
	case "math.Abs":
		return one(app("abs", false, np(0)))
	case "math.Sqrt":
		return one(app("sqrt", false, np(0)))
	case "math.Floor":
		p := app("floor", false, np(0))
		markInt(p)
		return one(p)
	case "math.Ceil":
		p := app("ceil", false, np(0))
		markInt(p)
		return one(p)
	case "math.Round":
		p := app("round", false, np(0))
		markInt(p)
		return one(p)
	case "math.Max", "math.Min":
		var outs []Outcome
		a, b := np(0), np(1)
		if name == "math.Min" {
			a, b = b, a
		}
		t := st.clone()
		if st.assume(cGE(sub(a, b))) {
			outs = append(outs, Outcome{st: st, res: np(pick(name == "math.Max", 0, 1))})
		}
		if t.assume(cGT(sub(b, a))) {
			outs = append(outs, Outcome{st: t, res: np(pick(name == "math.Max", 1, 0))})
		}
		return outs, true
	case "math.Log", "math.Exp", "math.Pow", "math.Hypot":
		return one(app(name, false, ci.args...))
	case "math/rand.Float64", "math/rand.Float32", "(*github.com/dgryski/go-pcgr.Rand).Float32", "(*math/rand.Rand).Float64":
		v := e.fresh("rand:"+ci.ctx, rt).(*Poly)
		a := v.singleAtom()
		a.lo, a.hi = ratZero, one1
		return one(v)
	case "math/rand.Intn", "(*math/rand.Rand).Intn":
		v := e.fresh("rand:"+ci.ctx, rt).(*Poly)
		a := v.singleAtom()
		a.lo = ratZero
		n := np(len(ci.args) - 1)
		if !st.assume(cGT(sub(n, v))) {
			return nil, true
		}
		return one(v)
	case "sort.Slice", "sort.SliceStable":
		return e.sortSlice(st, ci), true
	}
	return nil, false
}

func pick(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

var one1 = one

func markInt(p *Poly) {
	if a := p.singleAtom(); a != nil {
		a.isInt = true
	}
}

// sortSlice permutes the slice: its content becomes unknown.
func (e *Engine) sortSlice(st *State, ci *CallInfo) []Outcome {
	v := ci.args[0]
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	s, ok := v.(*Slice)
	if !ok || s.obj == nil {
		return []Outcome{{st: st}}
	}
	ss := e.leaf(st, func(x *State) {
		if !isWeak(s.obj) {
			x.resolve(s.obj, true)
		}
	})
	ver := "v:sort:" + ci.ctx
	verScopes[ver] = e.scopeSet()
	for _, x := range ss {
		x.havocObj(s.obj, ver)
	}
	return states(ss)
}

func (e *Engine) builtin(st *State, in *ssa.Call, b *ssa.Builtin, c *ssa.CallCommon) []Outcome {
	ctx := st.top().ctx
	switch b.Name() {
	case "len", "cap":
		v := e.val(st, c.Args[0])
		if s, ok := v.(*Slice); ok {
			if b.Name() == "len" {
				set(st, in, s.len)
			} else if s.cap != nil {
				set(st, in, s.cap)
			} else {
				p := e.fresh("cap:"+ctx+":"+instrName(in), in.Type()).(*Poly)
				st.assume(cGE(sub(p, s.len)))
				set(st, in, p)
			}
		} else if s, ok := v.(*Struct); ok {
			set(st, in, constInt(int64(len(s.fs))))
		} else {
			set(st, in, app(b.Name(), true, v))
		}
		return []Outcome{{st: st}}
	case "append":
		return e.appendOp(st, in, c)
	case "copy":
		return e.copyOp(st, in, c)
	case "min", "max":
		acc := e.num(st, c.Args[0])
		ss := []*State{st}
		set(st, in, acc)
		for i := range c.Args[1:] {
			var next []*State
			for _, s := range ss {
				next = append(next, e.leaf(s, func(s *State) {
					x := e.num(s, c.Args[i+1])
					a := s.top().env[in].(*Poly)
					less := s.ask(cGT(sub(a, x))) // x < a
					if less == (b.Name() == "min") {
						set(s, in, e.num(s, c.Args[i+1]))
					}
				})...)
			}
			ss = next
		}
		return states(ss)
	case "close":
		if e.onClose != nil {
			return states(e.leaf(st, func(s *State) { e.onClose(e, s, in, e.val(s, c.Args[0])) }))
		}
		return []Outcome{{st: st}}
	case "print", "println", "delete", "clear":
		return []Outcome{{st: st}}
	case "ssa:wrapnilchk":
		set(st, in, e.val(st, c.Args[0]))
		return []Outcome{{st: st}}
	}
	panic(undecided("builtin " + b.Name()))
}

func (e *Engine) appendOp(st *State, in *ssa.Call, c *ssa.CallCommon) []Outcome {
	ctx := st.top().ctx
	elem := in.Type().Underlying().(*types.Slice).Elem()
	type plan struct {
		s, t *Slice
		n    int64 // element count if small, else -1
	}
	mk := func(s *State) plan {
		x, ok := e.val(s, c.Args[0]).(*Slice)
		if !ok {
			if _, isnil := e.val(s, c.Args[0]).(Nil); isnil {
				x = &Slice{off: constInt(0), len: constInt(0)}
			} else {
				panic(undecided("append to " + e.val(s, c.Args[0]).Key()))
			}
		}
		y, ok := e.val(s, c.Args[1]).(*Slice)
		if !ok {
			if _, isnil := e.val(s, c.Args[1]).(Nil); isnil {
				y = &Slice{off: constInt(0), len: constInt(0)}
			} else {
				panic(undecided("append of " + e.val(s, c.Args[1]).Key()))
			}
		}
		pl := plan{x, y, -1}
		if k, ok := y.len.isConst(); ok && k.IsInt() && k.Num().Int64() <= 4 {
			pl.n = k.Num().Int64()
		}
		if x.obj == nil {
			o := e.allocObj(ctx, instrName(in), elem, true)
			if _, ok := s.heap[o.key]; !ok {
				s.heap[o.key] = &Log{obj: o, base: "zero"}
				if e.onAlloc != nil {
					e.onAlloc(e, s, o, true)
				}
			}
			pl.s = &Slice{obj: o, off: constInt(0), len: constInt(0)}
		}
		return pl
	}
	ss := e.leaf(st, func(s *State) {
		pl := mk(s)
		if pl.t.obj == nil || pl.n == 0 {
			return
		}
		if pl.n > 0 {
			for i := int64(0); i < pl.n; i++ {
				s.read(pl.t.obj, Path{{idx: addInt(pl.t.off, i)}}, elem)
				e.checkWrite(s, pl.s.obj, Path{{idx: addInt(add(pl.s.off, pl.s.len), i)}}, elem)
			}
			return
		}
		if !isWeak(pl.s.obj) {
			s.resolve(pl.t.obj, false)
			s.resolve(pl.s.obj, true)
		}
	})
	var hooks []*State
	for _, s := range ss {
		pl := mk(s)
		if pl.t.obj == nil || pl.n == 0 {
			set(s, in, pl.s)
			if x, ok := e.val(s, c.Args[0]).(*Slice); ok && x.obj == nil {
				set(s, in, x)
			}
			hooks = append(hooks, s)
			continue
		}
		start := add(pl.s.off, pl.s.len)
		if pl.n > 0 {
			for i := int64(0); i < pl.n; i++ {
				v := s.read(pl.t.obj, Path{{idx: addInt(pl.t.off, i)}}, elem)
				s.write(pl.s.obj, Path{{idx: addInt(start, i)}}, elem, v, nil)
			}
		} else {
			s.copyRange(pl.s.obj, start, pl.t.len, pl.t.obj, pl.t.off)
		}
		set(s, in, &Slice{obj: pl.s.obj, off: pl.s.off, len: add(pl.s.len, pl.t.len)})
		hooks = append(hooks, s)
	}
	if e.onStore != nil || e.onRange != nil || e.onAppend != nil {
		var out []*State
		for _, s := range hooks {
			out = append(out, e.leaf(s, func(s *State) {
				r, ok := s.top().env[in].(*Slice)
				y, ok2 := e.val(s, c.Args[1]).(*Slice)
				if !ok || !ok2 || y.obj == nil || r.obj == nil {
					return
				}
				if k, kok := y.len.isConst(); kok && k.IsInt() && k.Num().Int64() <= 4 {
					n := k.Num().Int64()
					if x, ok := e.val(s, c.Args[0]).(*Slice); ok && e.onAppend != nil {
						var vs []Value
						for i := int64(0); i < n; i++ {
							vs = append(vs, s.read(y.obj, Path{{idx: addInt(y.off, i)}}, elem))
						}
						e.onAppend(e, s, in, x, r, vs)
					}
					if e.onStore != nil {
						for i := int64(0); i < n; i++ {
							p := Path{{idx: addInt(add(r.off, r.len), i-n)}}
							v := s.read(r.obj, p, elem)
							eachLeaf(p, elem, v, func(p Path, t types.Type, v Value) { e.onStore(e, s, in, r.obj, p, t, v) })
						}
					}
					return
				}
				if e.onRange != nil {
					e.onRange(e, s, in, r.obj, sub(add(r.off, r.len), y.len), y.len, y.obj, y.off)
				}
			})...)
		}
		hooks = out
	}
	return states(hooks)
}

func (e *Engine) copyOp(st *State, in *ssa.Call, c *ssa.CallCommon) []Outcome {
	return e.copyVals(st, in, func(s *State, n *Poly) { set(s, in, n) }, func(s *State) (Value, Value) {
		return e.val(s, c.Args[0]), e.val(s, c.Args[1])
	})
}

// groupCopy runs the copying methods of lists as one copy when they are written
// as loops over the elements; that they copy every element is C09.
func (e *Engine) groupCopy(st *State, ci *CallInfo) ([]Outcome, bool) {
	f := ci.callee
	sg := f.Signature
	if sg.Recv() == nil || !inModule(f) || len(f.Blocks) == 0 || len(infoOf(f).loops) == 0 {
		return nil, false
	}
	sl, ok := sg.Recv().Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	x, ok := ci.args[0].(*Slice)
	if !ok {
		return nil, false
	}
	none := func(*State, *Poly) {}
	switch {
	case isCopyOp(f):
		y, ok := ci.args[1].(*Slice)
		if !ok || !st.facts.entails(cEQ(sub(x.len, y.len))) {
			return nil, false
		}
		return e.copyVals(st, ci.instr, none, func(s *State) (Value, Value) { return rewriteTo(s, x), rewriteTo(s, y) }), true
	case f.Name() == "Copy" && sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), sg.Recv().Type()):
		o := e.allocObj(ci.ctx, f.Name(), sl.Elem(), true)
		st.heap[o.key] = &Log{obj: o, base: "zero"}
		if e.onAlloc != nil {
			e.onAlloc(e, st, o, true)
		}
		st.vals["copied"] = &Slice{obj: o, off: constInt(0), len: x.len}
		outs := e.copyVals(st, ci.instr, none, func(s *State) (Value, Value) { return s.vals["copied"], rewriteTo(s, x) })
		for i := range outs {
			outs[i].res = outs[i].st.vals["copied"]
			delete(outs[i].st.vals, "copied")
		}
		return outs, true
	}
	return nil, false
}

// copyVals copies elements between slices, as many as both have.
func (e *Engine) copyVals(st *State, in ssa.Instruction, done func(*State, *Poly), vals func(*State) (Value, Value)) []Outcome {
	get := func(s *State) (d, x *Slice, n *Poly) {
		a, b := vals(s)
		d, ok1 := a.(*Slice)
		x, ok2 := b.(*Slice)
		if !ok1 || !ok2 {
			panic(undecided("copy"))
		}
		if d.len.key == x.len.key {
			return d, x, d.len
		}
		if s.ask(cGE(sub(x.len, d.len))) {
			return d, x, d.len
		}
		return d, x, x.len
	}
	ss := e.leaf(st, func(s *State) {
		d, x, _ := get(s)
		if d.obj == nil || x.obj == nil {
			return
		}
		if !isWeak(d.obj) {
			s.resolve(x.obj, false)
			s.resolve(d.obj, true)
		}
	})
	for _, s := range ss {
		d, x, n := get(s)
		done(s, n)
		if d.obj != nil && x.obj != nil {
			s.copyRange(d.obj, d.off, n, x.obj, x.off)
		}
	}
	if e.onRange != nil {
		var out []*State
		for _, s := range ss {
			out = append(out, e.leaf(s, func(s *State) {
				d, x, n := get(s)
				if d.obj != nil && x.obj != nil {
					e.onRange(e, s, in, d.obj, d.off, n, x.obj, x.off)
				}
			})...)
		}
		ss = out
	}
	return states(ss)
}

var _ = fmt.Sprint
