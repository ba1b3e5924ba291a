package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The effect analysis follows references through the program from one entry
// point, context by context, and lists the memory each instruction may write.
// Memory is named by where it is reached from: an argument of the entry, a
// package-level variable, or the instruction that allocates it.

type eroot struct {
	id    int
	kind  string // "arg", "global", "new", "fn", "ext"
	name  string
	typ   types.Type // of what is at the root
	at    ssa.Instruction
	ctx   *ectx
	fn    *ssa.Function
	binds []eset
}

type eloc struct {
	root *eroot
	up   *eloc
	step string
	path string
	d    int
	sub  map[string]*eloc
	// contents
	heap   eset
	copies eset
}

type eset map[*eloc]bool

func (s eset) add(o eset) bool {
	ch := false
	for l := range o {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

type ectx struct {
	f     *ssa.Function
	up    *ectx
	site  ssa.CallInstruction
	name  string
	vals  map[ssa.Value]eset
	rets  []eset
	sub   map[string]*ectx
	binds []eset
	task  bool // run side by side with its caller
}

// eWrite is one possible write.
type eWrite struct {
	l   *eloc
	at  ssa.Instruction
	ctx *ectx
}

type eAt struct {
	at  ssa.Instruction
	ctx *ectx
}

type effects struct {
	L       *Loaded
	roots   map[string]*eroot
	ctxs    []*ectx
	changed bool
	writes  map[*eloc]map[eAt]bool
	reads   map[*eloc]map[eAt]bool // by tasks
	tasks   []*ectx
	calls   int
	unknown map[string]bool // calls whose callee is not known
	nfuncs  map[*ssa.Function]bool
	// stop leaves a callee out
	stop func(f *ssa.Function, via *ectx, at ssa.CallInstruction, args []eset) bool
}

func newEffects(L *Loaded) *effects {
	return &effects{L: L, roots: map[string]*eroot{}, writes: map[*eloc]map[eAt]bool{}, reads: map[*eloc]map[eAt]bool{}, unknown: map[string]bool{}, nfuncs: map[*ssa.Function]bool{}}
}

func (a *effects) root(kind, name string, t types.Type) *eloc {
	k := kind + "|" + name
	r := a.roots[k]
	if r == nil {
		r = &eroot{id: len(a.roots), kind: kind, name: name, typ: t}
		a.roots[k] = r
		a.top(r)
		a.changed = true
	}
	return r.loc()
}

var rootLocs = map[*eroot]*eloc{}

func (a *effects) top(r *eroot) {
	rootLocs[r] = &eloc{root: r, path: r.name, sub: map[string]*eloc{}, heap: eset{}, copies: eset{}}
}

func (r *eroot) loc() *eloc { return rootLocs[r] }

func (l *eloc) child(step string) *eloc {
	if l.d >= 9 {
		return l
	}
	c := l.sub[step]
	if c == nil {
		c = &eloc{root: l.root, up: l, step: step, path: l.path + step, d: l.d + 1, sub: map[string]*eloc{}, heap: eset{}, copies: eset{}}
		l.sub[step] = c
	}
	return c
}

// outside tells whether what is stored here before the entry runs is unknown.
func (r *eroot) outside() bool { return r.kind == "arg" || r.kind == "global" || r.kind == "ext" }

// load is what a reference stored at l may point to.
func (a *effects) load(l *eloc, out eset, seen map[*eloc]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	out.add(l.heap)
	if l.root.outside() {
		out[l.child("*")] = true
	}
	suffix := []string{}
	for p := l; p != nil; p = p.up {
		for c := range p.copies {
			t := c
			for i := len(suffix) - 1; i >= 0; i-- {
				t = t.child(suffix[i])
			}
			a.load(t, out, seen)
		}
		suffix = append(suffix, p.step)
	}
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// read is the value of type t at the locations: the targets of a reference, or
// the locations themselves for structs and arrays.
func (a *effects) read(ls eset, t types.Type) eset {
	out := eset{}
	switch {
	case isRef(t):
		for l := range ls {
			a.load(l, out, map[*eloc]bool{})
		}
	case isAgg(t):
		out.add(ls)
	}
	return out
}

func (a *effects) put(l *eloc, v eset, t types.Type) {
	if t == nil {
		return
	}
	if isRef(t) {
		if l.heap.add(v) {
			a.changed = true
		}
	} else if isAgg(t) {
		for x := range v {
			if x != l && !l.copies[x] {
				l.copies[x] = true
				a.changed = true
			}
		}
	}
}

func (a *effects) write(ctx *ectx, at ssa.Instruction, l *eloc) {
	a.note(a.writes, ctx, at, l)
}

func (a *effects) note(to map[*eloc]map[eAt]bool, ctx *ectx, at ssa.Instruction, l *eloc) {
	m := to[l]
	if m == nil {
		m = map[eAt]bool{}
		to[l] = m
	}
	if k := (eAt{at, ctx}); !m[k] {
		m[k] = true
		a.changed = true
	}
}

func children(ls eset, step string) eset {
	out := eset{}
	for l := range ls {
		out[l.child(step)] = true
	}
	return out
}

// run analyses an entry with given arguments until nothing changes.
func (a *effects) run(f *ssa.Function, args []eset) *ectx {
	top := a.context(nil, nil, f, nil)
	for i, p := range f.Params {
		a.set(top, p, args[i])
	}
	a.settle()
	return top
}

func (a *effects) settle() {
	for n := 0; n < 200; n++ {
		a.changed = false
		for i := 0; i < len(a.ctxs); i++ {
			a.pass(a.ctxs[i])
		}
		if !a.changed {
			return
		}
	}
	panic(undecided("the effect analysis does not settle"))
}

func (a *effects) context(up *ectx, site ssa.CallInstruction, f *ssa.Function, binds []eset) *ectx {
	for c := up; c != nil; c = c.up {
		if c.f == f {
			return c // recursion
		}
	}
	k := f.RelString(nil)
	if site != nil {
		k += "@" + fmt.Sprint(site.Pos()) + site.String()
	}
	if up != nil {
		if c := up.sub[k]; c != nil {
			return c
		}
	}
	c := &ectx{f: f, up: up, site: site, name: k, vals: map[ssa.Value]eset{}, sub: map[string]*ectx{}}
	if up != nil {
		up.sub[k] = c
		c.name = up.name + ">" + k
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		c.rets = append(c.rets, eset{})
	}
	for range f.FreeVars {
		c.binds = append(c.binds, eset{})
	}
	a.ctxs = append(a.ctxs, c)
	a.nfuncs[f] = true
	a.changed = true
	if len(a.ctxs) > 20000 {
		panic(undecided("too many calling contexts"))
	}
	return c
}

func (a *effects) set(c *ectx, v ssa.Value, s eset) {
	if len(s) == 0 {
		return
	}
	o := c.vals[v]
	if o == nil {
		o = eset{}
		c.vals[v] = o
	}
	if o.add(s) {
		a.changed = true
	}
}

func (a *effects) get(c *ectx, v ssa.Value) eset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return eset{a.root("global", x.RelString(nil), elemOf(x.Type())): true}
	case *ssa.Function:
		l := a.root("fn", x.RelString(nil), x.Type())
		l.root.fn = x
		return eset{l: true}
	case *ssa.FreeVar:
		for i, fv := range c.f.FreeVars {
			if fv == x && i < len(c.binds) {
				return c.binds[i]
			}
		}
		return nil
	}
	return c.vals[v]
}

func (a *effects) fresh(c *ectx, at ssa.Instruction, tag string, t types.Type) *eloc {
	v, _ := at.(ssa.Value)
	n := ""
	if v != nil {
		n = v.Name()
	}
	l := a.root("new", c.name+"/"+n+tag+fmt.Sprint(at.Pos()), t)
	l.root.at, l.root.ctx = at, c
	return l
}

func (a *effects) pass(c *ectx) {
	for _, b := range c.f.Blocks {
		for _, in := range b.Instrs {
			a.instr(c, in)
		}
	}
}

func (a *effects) instr(c *ectx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.set(c, x, eset{a.fresh(c, x, "", elemOf(x.Type())): true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.set(c, v, eset{a.fresh(c, in, "", v.Type()): true})
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(c, x, a.get(c, e))
		}
	case *ssa.FieldAddr:
		a.set(c, x, children(a.get(c, x.X), fieldStep(x.X.Type(), x.Field)))
	case *ssa.Field:
		a.set(c, x, a.read(children(a.get(c, x.X), fieldStep(x.X.Type(), x.Field)), x.Type()))
	case *ssa.IndexAddr:
		a.set(c, x, children(a.get(c, x.X), "[]"))
	case *ssa.Index:
		a.set(c, x, a.read(children(a.get(c, x.X), "[]"), x.Type()))
	case *ssa.Lookup:
		if c.task {
			for l := range a.get(c, x.X) {
				a.note(a.reads, c, x, l.child("[]"))
			}
		}
		t := x.Type()
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		a.set(c, x, a.read(children(a.get(c, x.X), "[]"), t))
	case *ssa.MapUpdate:
		for m := range a.get(c, x.Map) {
			a.put(m.child("[]"), a.get(c, x.Value), x.Value.Type())
			a.put(m.child("[k]"), a.get(c, x.Key), x.Key.Type())
			a.write(c, x, m.child("[]"))
		}
	case *ssa.Next:
		a.set(c, x, a.get(c, x.Iter))
	case *ssa.Range:
		a.set(c, x, a.get(c, x.X))
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			if c.task {
				for l := range a.get(c, x.X) {
					a.note(a.reads, c, x, l)
				}
			}
			a.set(c, x, a.read(a.get(c, x.X), x.Type()))
		case "<-":
			t := x.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			a.set(c, x, a.read(children(a.get(c, x.X), "<-"), t))
		}
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Next:
			step := "[]"
			if x.Index == 1 {
				step = "[k]"
			}
			a.set(c, x, a.read(children(a.get(c, y), step), x.Type()))
		case *ssa.Call:
			a.set(c, x, c.vals[tupleKey{y, x.Index}.val(a)])
		default:
			if x.Index == 0 || isRef(x.Type()) || isAgg(x.Type()) {
				a.set(c, x, a.get(c, x.Tuple))
			}
		}
	case *ssa.Store:
		v := a.get(c, x.Val)
		for l := range a.get(c, x.Addr) {
			a.put(l, v, x.Val.Type())
			a.write(c, x, l)
		}
	case *ssa.Send:
		for l := range a.get(c, x.Chan) {
			a.put(l.child("<-"), a.get(c, x.X), x.X.Type())
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil {
				for l := range a.get(c, s.Chan) {
					a.put(l.child("<-"), a.get(c, s.Send), s.Send.Type())
				}
			} else {
				ct := s.Chan.Type().Underlying().(*types.Chan)
				a.set(c, x, a.read(children(a.get(c, s.Chan), "<-"), ct.Elem()))
			}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Slice, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		a.set(c, v, a.get(c, *in.Operands(nil)[0]))
	case *ssa.Convert:
		if isRef(x.Type()) {
			if isRef(x.X.Type()) {
				a.set(c, x, a.get(c, x.X))
			} else {
				a.set(c, x, eset{a.fresh(c, x, "", x.Type()): true})
			}
		}
	case *ssa.MakeInterface:
		if isRef(x.X.Type()) {
			a.set(c, x, a.get(c, x.X))
		} else {
			l := a.fresh(c, x, "box", x.X.Type())
			a.put(l, a.get(c, x.X), x.X.Type())
			a.set(c, x, eset{l: true})
		}
	case *ssa.TypeAssert:
		a.set(c, x, a.get(c, x.X))
	case *ssa.MakeClosure:
		l := a.fresh(c, x, "fn", x.Type())
		l.root.kind, l.root.fn = "fn", x.Fn.(*ssa.Function)
		if l.root.binds == nil {
			for range x.Bindings {
				l.root.binds = append(l.root.binds, eset{})
			}
		}
		for i, b := range x.Bindings {
			if l.root.binds[i].add(a.get(c, b)) {
				a.changed = true
			}
		}
		a.set(c, x, eset{l: true})
	case *ssa.Return:
		for i, r := range x.Results {
			if c.rets[i].add(a.get(c, r)) {
				a.changed = true
			}
		}
	case ssa.CallInstruction:
		a.call(c, x)
	}
}

// tupleKey names one result of a call.
type tupleKey struct {
	call *ssa.Call
	i    int
}

var tupleVals = map[tupleKey]ssa.Value{}

func (k tupleKey) val(a *effects) ssa.Value {
	v := tupleVals[k]
	if v == nil {
		v = &ssa.Const{}
		tupleVals[k] = v
	}
	return v
}

func fieldStep(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (a *effects) call(c *ectx, in ssa.CallInstruction) {
	cc := in.Common()
	a.calls++
	result := func(i int, s eset) {
		v, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if cc.Signature().Results().Len() == 1 {
			a.set(c, v, s)
		} else {
			a.set(c, tupleKey{v, i}.val(a), s)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(c, in, b, result)
		return
	}
	type target struct {
		f     *ssa.Function
		binds []eset
		recv  eset
	}
	var ts []target
	var args []eset
	for _, x := range cc.Args {
		args = append(args, a.get(c, x))
	}
	switch {
	case cc.IsInvoke():
		recv := a.get(c, cc.Value)
		impl := a.L.implementors(cc.Value.Type())
		for _, t := range impl {
			f := a.L.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if f == nil || f.Blocks == nil {
				continue
			}
			// only what may be of this type
			rs := eset{}
			for l := range recv {
				if l.root.kind == "new" && l.up == nil && l.root.typ != nil && !types.Identical(l.root.typ, elemOf(t)) {
					continue
				}
				rs[l] = true
			}
			if len(rs) == 0 && len(recv) > 0 {
				continue
			}
			ts = append(ts, target{f: f, recv: rs})
		}
		if len(ts) == 0 {
			a.external(c, in, cc.Method.FullName(), args, result)
			return
		}
		for _, t := range ts {
			as := append([]eset{t.recv}, args...)
			a.invoke(c, in, t.f, nil, as, result, false)
		}
		return
	case cc.StaticCallee() != nil:
		f := cc.StaticCallee()
		if _, clo := cc.Value.(*ssa.MakeClosure); !clo {
			if f.Blocks == nil || !strings.HasPrefix(fnPkgPath(f), modPath) {
				a.external(c, in, f.RelString(nil), args, result)
				return
			}
			a.invoke(c, in, f, nil, args, result, false)
			return
		}
	}
	known := false
	for l := range a.get(c, cc.Value) {
		if l.root.fn != nil && l.up == nil {
			known = true
			if l.root.fn.Blocks == nil || !strings.HasPrefix(fnPkgPath(l.root.fn), modPath) {
				a.external(c, in, l.root.fn.RelString(nil), args, result)
				continue
			}
			a.invoke(c, in, l.root.fn, l.root.binds, args, result, false)
		}
	}
	if !known && len(a.get(c, cc.Value)) > 0 {
		a.external(c, in, "a function value", args, result)
	}
}

func (a *effects) invoke(c *ectx, in ssa.CallInstruction, f *ssa.Function, binds, args []eset, result func(int, eset), task bool) {
	if a.stop != nil && a.stop(f, c, in, args) {
		return
	}
	g := a.context(c, in, f, binds)
	_, isGo := in.(*ssa.Go)
	if (c.task || isGo || task) && !g.task && g != c {
		g.task = true
		a.changed = true
		if !c.task {
			a.tasks = append(a.tasks, g)
		}
	}
	for i, p := range f.Params {
		if i < len(args) {
			a.set(g, p, args[i])
		}
	}
	for i, b := range binds {
		if i < len(g.binds) && g.binds[i].add(b) {
			a.changed = true
		}
	}
	for i, r := range g.rets {
		result(i, r)
	}
}

func (a *effects) builtin(c *ectx, in ssa.CallInstruction, b *ssa.Builtin, result func(int, eset)) {
	cc := in.Common()
	switch b.Name() {
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		old := a.get(c, cc.Args[0])
		l := a.fresh(c, in, "append", cc.Args[0].Type())
		out := eset{l: true}
		out.add(old)
		for o := range old {
			a.copyElem(l.child("[]"), o.child("[]"), st.Elem())
		}
		if len(cc.Args) > 1 {
			for o := range old {
				a.write(c, in, o.child("[]"))
			}
			for s := range a.get(c, cc.Args[1]) {
				for d := range out {
					a.copyElem(d.child("[]"), s.child("[]"), st.Elem())
				}
			}
		}
		result(0, out)
	case "copy":
		for d := range a.get(c, cc.Args[0]) {
			a.write(c, in, d.child("[]"))
			st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			for s := range a.get(c, cc.Args[1]) {
				a.copyElem(d.child("[]"), s.child("[]"), st.Elem())
			}
		}
	case "delete", "clear":
		for m := range a.get(c, cc.Args[0]) {
			a.write(c, in, m.child("[]"))
		}
	case "ssa:wrapnilchk":
		result(0, a.get(c, cc.Args[0]))
	}
}

func (a *effects) copyElem(d, s *eloc, t types.Type) {
	if d == s {
		return
	}
	if isRef(t) {
		v := eset{}
		a.load(s, v, map[*eloc]bool{})
		a.put(d, v, t)
	} else {
		a.put(d, eset{s: true}, t)
	}
}

// external models a call into code outside the module: it may fill what the
// functions listed here are documented to fill, call the functions it is given,
// and returns memory of its own.
func (a *effects) external(c *ectx, in ssa.CallInstruction, name string, args []eset, result func(int, eset)) {
	cc := in.Common()
	fill := func(s eset) {
		for l := range s {
			a.write(c, in, l.child("[]"))
		}
	}
	switch {
	case strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") || strings.HasSuffix(name, "rand.Shuffle"):
		if len(args) > 0 {
			fill(args[0])
		}
	case strings.Contains(name, "Unmarshal") || strings.Contains(name, "Decode"):
		if len(args) > 0 {
			fill(args[len(args)-1])
		}
	case strings.Contains(name, "ReadFull") || strings.HasSuffix(name, ".Read"):
		if len(args) > 1 {
			fill(args[1])
		}
	case name == "a function value":
		a.unknown[c.f.RelString(nil)] = true
	}
	// sort.Sort and the like call methods of what they are given
	for i, x := range cc.Args {
		if _, ok := x.Type().Underlying().(*types.Interface); ok && !cc.IsInvoke() {
			it := x.Type().Underlying().(*types.Interface)
			if it.NumMethods() == 0 || !strings.HasPrefix(name, "sort.") {
				continue
			}
			for _, t := range a.L.implementors(x.Type()) {
				rs := eset{}
				for l := range args[i] {
					if l.root.kind == "new" && l.up == nil && l.root.typ != nil && !types.Identical(elemOf(l.root.typ), elemOf(t)) {
						continue
					}
					if l.up == nil && l.root.typ != nil && !types.IsInterface(l.root.typ) && !types.Identical(elemOf(l.root.typ), elemOf(t)) {
						continue
					}
					rs[l] = true
				}
				if len(rs) == 0 {
					continue
				}
				for m := 0; m < it.NumMethods(); m++ {
					if f := a.L.method(t, it.Method(m).Name()); f != nil && f.Blocks != nil {
						a.invoke(c, in, f, nil, []eset{rs}, func(int, eset) {}, false)
					}
				}
			}
		}
	}
	// callbacks
	for _, s := range args {
		for l := range s {
			if l.root.fn != nil && l.up == nil && strings.HasPrefix(fnPkgPath(l.root.fn), modPath) {
				as := make([]eset, len(l.root.fn.Params))
				for i, p := range l.root.fn.Params {
					if isRef(p.Type()) || isAgg(p.Type()) {
						as[i] = eset{a.root("ext", name+"#"+fmt.Sprint(i), p.Type()): true}
					}
				}
				a.invoke(c, in, l.root.fn, l.root.binds, as, func(int, eset) {}, !strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "slices."))
			}
		}
	}
	rs := cc.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isRef(t) || isAgg(t) {
			l := a.root("ext", name+"@"+c.name+fmt.Sprint(in.Pos(), i), t)
			l.root.at, l.root.ctx = in, c
			result(i, eset{l: true})
		}
	}
}

// listed writes, in a fixed order.
func (a *effects) all() []eWrite {
	var out []eWrite
	for l, m := range a.writes {
		for k := range m {
			out = append(out, eWrite{l, k.at, k.ctx})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].l.path != out[j].l.path {
			return out[i].l.path < out[j].l.path
		}
		if out[i].at.Pos() != out[j].at.Pos() {
			return out[i].at.Pos() < out[j].at.Pos()
		}
		return out[i].ctx.name < out[j].ctx.name
	})
	return out
}

func (l *eloc) String() string {
	p := l.path
	if i := strings.LastIndex(p, "/"); l.root.kind == "new" && i >= 0 {
		p = "new " + p[i+1:]
	}
	return l.root.kind + " " + p
}

func (c *ectx) chain(L *Loaded) string {
	var s []string
	for x := c; x != nil; x = x.up {
		s = append(s, x.f.RelString(nil))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.ReplaceAll(strings.Join(s, " -> "), modPath+"/", "")
}
