package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entry is one write in an object's log, oldest first.
type entry struct {
	path Path // cell write
	val  Value
	rng  bool // range write: indexes lo..lo+n come from src at srcOff
	lo   *Poly
	n    *Poly
	src  *Log
	sOff *Poly
}

// Log is the content of one object: a base version plus writes. Immutable.
type Log struct {
	obj  *Obj
	base string
	ents []entry
	key  string
}

func (l *Log) Key() string {
	if l.key == "" {
		var sb strings.Builder
		sb.WriteString(l.obj.key + "@" + l.base)
		for _, e := range l.ents {
			if e.rng {
				sb.WriteString("|R" + e.lo.key + "," + e.n.key + "<-(" + e.src.Key() + ")" + e.sOff.key)
			} else {
				sb.WriteString("|" + e.path.Key() + "=" + e.val.Key())
			}
		}
		l.key = sb.String()
	}
	return l.key
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]Value
	binds  []Value
	call   ssa.CallInstruction
	defers []*CallInfo
}

type Watch struct {
	class func(v Value) string // what distinguishes partitions; nil: the value
	name  string
	obj   *Obj
	path  Path
	typ   types.Type
}

type subst struct {
	from *Atom
	to   *Poly
}

type State struct {
	frames []*Frame
	facts  *Facts
	heap   map[string]*Log
	fam    map[string]string
	tags   map[string]string
	nums   map[string]*Poly
	vals   map[string]Value
	watch  []Watch
	subs   []subst
	dead   bool
	trail  []string
}

func newState() *State {
	return &State{facts: newFacts(), heap: map[string]*Log{}, fam: map[string]string{}, tags: map[string]string{}, nums: map[string]*Poly{}, vals: map[string]Value{}}
}

func (s *State) clone() *State {
	n := &State{facts: s.facts.clone(), heap: make(map[string]*Log, len(s.heap)), fam: map[string]string{}, tags: map[string]string{}, nums: map[string]*Poly{}, vals: map[string]Value{}}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames[i] = &g
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.fam {
		n.fam[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.nums {
		n.nums[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	n.watch = append([]Watch(nil), s.watch...)
	n.subs = append([]subst(nil), s.subs...)
	n.trail = append([]string(nil), s.trail...)
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// splitNeeded aborts an operation that needs c decided; the driver forks the trace.
type splitNeeded struct{ c *Cond }

// ask decides c on this trace, forking it if necessary.
func (s *State) ask(c *Cond) bool {
	switch s.facts.tri(c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(splitNeeded{c})
}

// assume adds c to the trace. It reports false if the trace becomes infeasible.
func (s *State) assume(c *Cond) bool {
	switch s.facts.tri(c) {
	case 1:
		return true
	case -1:
		s.dead = true
		return false
	}
	if c.op == 'E' {
		if s.eliminate(c.p) {
			return !s.dead
		}
	}
	if c.op == 'L' {
		// p>=0 and -p>=0 known together give an equality
		if s.facts.entails(cGE(neg(c.p))) {
			s.facts.add(c)
			if s.eliminate(c.p) {
				return !s.dead
			}
			return true
		}
	}
	s.facts.add(c)
	return true
}

// eliminate uses p==0 to replace one atom everywhere in the state.
func (s *State) eliminate(p *Poly) bool {
	var best *Atom
	var bt mono
	for _, t := range p.terms {
		if len(t.vars) != 1 || t.vars[0].e != 1 {
			continue
		}
		a := t.vars[0].a
		if a.skolem {
			continue
		}
		if p.integral() && !(t.c.Num().IsInt64() && t.c.IsInt() && (t.c.Num().Int64() == 1 || t.c.Num().Int64() == -1)) {
			continue
		}
		if a.isInt && !p.integral() {
			continue // it would no longer be known to be whole
		}
		// a must not occur elsewhere in p
		occ := 0
		deepAtoms(p, func(x *Atom) {
			for _, y := range x.args {
				deepAtoms(y, func(z *Atom) {
					if z == a {
						occ++
					}
				})
			}
			if x.obj != nil || len(x.path) > 0 {
				sub := &Ptr{x.obj, x.path}
				deepAtoms(sub, func(z *Atom) {
					if z == a {
						occ++
					}
				})
			}
		})
		for _, u := range p.terms {
			if u.key != t.key {
				for _, v := range u.vars {
					if v.a == a {
						occ++
					}
				}
			}
		}
		if occ > 0 {
			continue
		}
		if best == nil || elimRank(a) > elimRank(best) {
			best, bt = a, t
		}
	}
	if best == nil {
		return false
	}
	// best = -(p - c*best)/c
	c := bt.c
	rest := sub(p, scale(atomPoly(best), c))
	to := scale(rest, neg1(inv(c)))
	s.substitute(best, to)
	return true
}

// elimRank prefers eliminating loop-local, younger, compound atoms.
func elimRank(a *Atom) int {
	r := a.id
	r += 1000000 * len(a.scopes)
	if a.op == "cap" {
		r += 50000000
	}
	if a.op == "sym" && len(a.scopes) == 0 {
		r -= 100000000
	}
	return r
}

// renameObj replaces an object throughout the state.
func (s *State) renameObj(from, to *Obj) {
	r := newMultiRewriter(map[*Atom]*Poly{})
	r.objs = map[*Obj]*Obj{from: to}
	s.rewriteAll(r)
}

// rewriteAll applies r to everything but facts' own derived ranges.
func (s *State) rewriteAll(r *rewriter) {
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = r.value(v)
		}
		for i, b := range f.binds {
			if nb := r.value(b); nb != b {
				f.binds = append([]Value(nil), f.binds...)
				f.binds[i] = nb
			}
		}
	}
	nh := map[string]*Log{}
	for _, k := range sortedKeys(s.heap) {
		l := r.log(s.heap[k])
		if o, ok := nh[l.obj.key]; ok && o.Key() != l.Key() {
			// two explicit objects became one: keep the one with writes
			if len(o.ents) >= len(l.ents) {
				continue
			}
		}
		nh[l.obj.key] = l
	}
	s.heap = nh
	for k, v := range s.nums {
		s.nums[k] = r.poly(v)
	}
	for k, v := range s.vals {
		s.vals[k] = r.value(v)
	}
	for i, w := range s.watch {
		s.watch[i].obj = r.obj(w.obj)
		s.watch[i].path = r.path(w.path)
	}
	old := s.facts
	s.facts = newFacts()
	for _, c := range old.cs {
		s.facts.add(r.cond(c))
	}
	for _, c := range s.facts.cs {
		if c.op == 'F' {
			s.dead = true
		}
	}
}

func (s *State) substitute(from *Atom, to *Poly) {
	r := newRewriter(from, to)
	s.subs = append(s.subs, subst{from, to})
	s.rewriteAll(r)
	// the eliminated atom's own range still constrains what replaces it
	if from.lo != nil {
		s.addFact(cGE(sub(to, constRat(from.lo))))
	}
	if from.hi != nil {
		s.addFact(cGE(sub(constRat(from.hi), to)))
	}
	for _, c := range defFacts(from) {
		s.addFact(c2(r, c))
	}
	if !s.dead && s.facts.infeasible(nil, 0) {
		s.dead = true
	}
}

func c2(r *rewriter, c *Cond) *Cond { return r.cond(c) }

func (s *State) addFact(c *Cond) {
	if c.op == 'F' {
		s.dead = true
		return
	}
	s.facts.add(c)
}

func (r *rewriter) log(l *Log) *Log {
	o := r.obj(l.obj)
	ch := o != l.obj
	ents := make([]entry, len(l.ents))
	for i, e := range l.ents {
		n := e
		if e.rng {
			n.lo, n.n, n.sOff, n.src = r.poly(e.lo), r.poly(e.n), r.poly(e.sOff), r.log(e.src)
			if n.lo != e.lo || n.n != e.n || n.sOff != e.sOff || n.src != e.src {
				ch = true
			}
		} else {
			n.path, n.val = r.path(e.path), r.value(e.val)
			if n.val != e.val || n.path.Key() != e.path.Key() {
				ch = true
			}
		}
		ents[i] = n
	}
	if !ch {
		return l
	}
	return &Log{obj: o, base: l.base, ents: ents}
}

// defaultVer is the version of an object without an explicit log.
func (s *State) defaultVer(o *Obj) string {
	if v, ok := s.fam[o.family]; ok {
		return v
	}
	return "0"
}

func (s *State) log(o *Obj) *Log {
	if l, ok := s.heap[o.key]; ok {
		return l
	}
	return &Log{obj: o, base: s.defaultVer(o)}
}

// aliasIdx compares two index lists: -1 must differ, 1 must be equal, 0 with a
// splittable condition.
func (s *State) pathAlias(p, q Path) (int, *Cond) {
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	var undec *Cond
	for i := 0; i < n; i++ {
		a, b := p[i], q[i]
		if (a.idx == nil) != (b.idx == nil) {
			return -1, nil
		}
		if a.idx == nil {
			if a.field != b.field {
				return -1, nil
			}
			continue
		}
		if a.idx.key == b.idx.key {
			continue
		}
		c := cEQ(sub(a.idx, b.idx))
		switch s.facts.tri(c) {
		case -1:
			return -1, nil
		case 0:
			if undec == nil {
				undec = c
			}
		case 1:
		}
	}
	if undec != nil {
		return 0, undec
	}
	return 1, nil
}

// objAlias: -1 no, 1 same, 0 may (cond to split on, or nil if unresolvable)
func (s *State) objAlias(a, b *Obj) (int, *Cond) {
	if a == b {
		return 1, nil
	}
	if a.family != b.family || a.kind != "init" || b.kind != "init" {
		return -1, nil
	}
	if a.atom.op != "sel" || b.atom.op != "sel" {
		return -1, nil
	}
	r, c := s.pathAlias(a.atom.path, b.atom.path)
	if r == -1 {
		return -1, nil
	}
	r2, cc := s.objAlias(a.atom.obj, b.atom.obj)
	if r2 == -1 {
		return -1, nil
	}
	if r == 0 {
		return 0, c
	}
	if r2 == 0 {
		return 0, cc
	}
	if a.atom.ver == b.atom.ver {
		return 1, nil
	}
	return 0, nil
}

// resolve settles aliasing between o and every object with an explicit log, and
// returns the name under which o's content is kept.
func (s *State) resolve(o *Obj, write bool) *Obj {
	if o.kind == "mu" {
		panic(undecided("access through a pointer merged at a loop head: " + o.key))
	}
	res := o
	for _, k := range sortedKeys(s.heap) {
		l, ok := s.heap[k]
		if !ok || l.obj == o || l.obj.family != o.family {
			continue
		}
		if !write && len(l.ents) == 0 && l.base == s.defaultVer(o) {
			continue
		}
		r, c := s.objAlias(o, l.obj)
		if r == -1 {
			continue
		}
		if c != nil {
			panic(splitNeeded{c})
		}
		if r == 1 && res == o {
			ol, explicit := s.heap[o.key]
			if !explicit {
				res = l.obj
				continue
			}
			if len(ol.ents) == 0 && ol.base == s.defaultVer(o) {
				delete(s.heap, o.key)
				res = l.obj
				continue
			}
			if len(l.ents) == 0 && l.base == s.defaultVer(l.obj) {
				delete(s.heap, k)
				continue
			}
		}
		// unresolvable: forget both
		if debugDrop {
			fmt.Println("FORGET", o.key, l.obj.key)
		}
		s.heap[k] = &Log{obj: l.obj, base: freshVer("unk", l.obj.scopes())}
		s.heap[o.key] = &Log{obj: o, base: freshVer("unk", o.scopes())}
	}
	return res
}

var verSeq int

func freshVer(tag string, sc map[string]bool) string {
	verSeq++
	v := fmt.Sprintf("%s%d", tag, verSeq)
	verScopes[v] = sc
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// weakHook, when set, gives the unknown value read from an object whose content
// the current rule does not follow; writes to such objects are forgotten.
var weakHook func(o *Obj, t types.Type) Value

// lenHook, when set, gives the length of symbolic slices of an element type that
// the current rule assumes to have a common length.
var lenHook func(elem types.Type) *Poly

func isWeak(o *Obj) bool {
	return weakHook != nil && o != nil && weakHook(o, nil) != nil
}

// readLeaf reads one scalar cell.
func (s *State) readLeaf(o *Obj, p Path, t types.Type) Value {
	if weakHook != nil {
		if v := weakHook(o, t); v != nil {
			return v
		}
	}
	o = s.resolve(o, false)
	return s.readLog(s.log(o), p, t)
}

func (s *State) readLog(l *Log, p Path, t types.Type) Value {
	for i := len(l.ents) - 1; i >= 0; i-- {
		e := l.ents[i]
		if e.rng {
			if len(p) == 0 || p[0].idx == nil {
				continue
			}
			x := p[0].idx
			if !s.ask(cGE(sub(x, e.lo))) {
				continue
			}
			if !s.ask(cGT(sub(add(e.lo, e.n), x))) {
				continue
			}
			np := append(Path{{idx: add(sub(x, e.lo), e.sOff)}}, p[1:]...)
			return s.readLog(e.src, np, t)
		}
		r, c := s.pathAlias(e.path, p)
		if r == -1 {
			continue
		}
		if r == 0 {
			panic(splitNeeded{c})
		}
		return e.val
	}
	return s.current(s.baseLeaf(l.base, l.obj, p, t))
}

// current expresses a value read from unwritten memory without eliminated atoms.
func (s *State) current(v Value) Value {
	if len(s.subs) == 0 {
		return v
	}
	var as [2]*Atom
	switch x := v.(type) {
	case *Poly:
		as[0] = x.singleAtom()
	case *Slice:
		as[0] = x.len.singleAtom()
		if x.cap != nil {
			as[1] = x.cap.singleAtom()
		}
	}
	if as[0] == nil && as[1] == nil {
		return v
	}
	for i := range s.subs {
		if f := s.subs[i].from; f == as[0] || f == as[1] {
			for _, x := range s.subs[i:] {
				v = newRewriter(x.from, x.to).value(v)
			}
			break
		}
	}
	return v
}

func (s *State) writeLeaf(o *Obj, p Path, v Value) {
	if isWeak(o) {
		return
	}
	o = s.resolve(o, true)
	l := s.log(o)
	ents := make([]entry, 0, len(l.ents)+1)
	for _, e := range l.ents {
		if !e.rng {
			r, c := s.pathAlias(e.path, p)
			if r == 1 {
				continue
			}
			if r == 0 {
				panic(splitNeeded{c})
			}
		}
		ents = append(ents, e)
	}
	ents = append(ents, entry{path: p, val: v})
	s.heap[o.key] = &Log{obj: o, base: l.base, ents: ents}
}

// havocObj forgets the content of o.
func (s *State) havocObj(o *Obj, ver string) {
	if isWeak(o) {
		return
	}
	o = s.resolve(o, true)
	s.heap[o.key] = &Log{obj: o, base: ver}
}

// copyRange writes dst[lo:lo+n] = src[sOff:sOff+n].
func (s *State) copyRange(dst *Obj, lo, n *Poly, src *Obj, sOff *Poly) {
	if c, ok := n.isConst(); ok && c.Sign() <= 0 {
		return
	}
	if isWeak(dst) {
		return
	}
	dst = s.resolve(dst, true)
	var sl *Log
	if isWeak(src) {
		sl = &Log{obj: src, base: freshVer("weak", src.scopes())}
	} else {
		src = s.resolve(src, false)
		sl = s.log(src)
	}
	l := s.log(dst)
	ents := append(append([]entry(nil), l.ents...), entry{rng: true, lo: lo, n: n, src: sl, sOff: sOff})
	s.heap[dst.key] = &Log{obj: dst, base: l.base, ents: ents}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isNumType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

// leafValue makes the value named by atom a at type t.
func leafValue(a *Atom, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return atomPoly(a)
		case u.Info()&types.IsBoolean != 0:
			return cAtom(a)
		}
		return &Opaque{a}
	case *types.Slice:
		cp := appAtom("cap", true, &Opaque{a})
		if lenHook != nil {
			if n := lenHook(u.Elem()); n != nil {
				return &Slice{obj: initObj(a, u.Elem(), true), off: constInt(0), len: n, cap: atomPoly(cp)}
			}
		}
		ln := appAtom("len", true, &Opaque{a})
		return &Slice{obj: initObj(a, u.Elem(), true), off: constInt(0), len: atomPoly(ln), cap: atomPoly(cp)}
	case *types.Pointer:
		return &Ptr{obj: initObj(a, u.Elem(), false)}
	}
	return &Opaque{a}
}

func (s *State) baseLeaf(ver string, o *Obj, p Path, t types.Type) Value {
	if ver == "zero" {
		return zeroLeaf(t)
	}
	a := selAtom(ver, o, p, isIntType(t))
	if isUnsigned(t) && a.lo == nil {
		a.lo = ratZero
	}
	return leafValue(a, t)
}

func zeroLeaf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return constInt(0)
		case u.Info()&types.IsBoolean != 0:
			return cFalse
		case u.Info()&types.IsString != 0:
			return &Str{""}
		}
	case *types.Slice:
		return &Slice{off: constInt(0), len: constInt(0), cap: constInt(0)}
	case *types.Pointer:
		return &Ptr{}
	}
	return Nil{}
}

// flatten visits the leaves of a value of type t at path p.
func isLeaf(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return false
	case *types.Array:
		return u.Len() > 16
	}
	return true
}

// read reads a value of type t, assembling structs and small arrays.
func (s *State) read(o *Obj, p Path, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = s.read(o, p.with(Step{field: i}), u.Field(i).Type())
		}
		return mkStruct(fs)
	case *types.Array:
		if u.Len() <= 16 {
			fs := make([]Value, u.Len())
			for i := range fs {
				fs[i] = s.read(o, p.with(Step{idx: constInt(int64(i))}), u.Elem())
			}
			return mkStruct(fs)
		}
	}
	return s.readLeaf(o, p, t)
}

// write stores v of type t, leaf by leaf. hook sees each leaf.
func (s *State) write(o *Obj, p Path, t types.Type, v Value, hook func(p Path, t types.Type, v Value)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			var fv Value
			if ok {
				fv = sv.fs[i]
			} else {
				fv = fieldOf(v, i, ft)
			}
			s.write(o, p.with(Step{field: i}), ft, fv, hook)
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			sv, ok := v.(*Struct)
			for i := 0; i < int(u.Len()); i++ {
				var fv Value
				if ok {
					fv = sv.fs[i]
				} else {
					fv = fieldOf(v, i, u.Elem())
				}
				s.write(o, p.with(Step{idx: constInt(int64(i))}), u.Elem(), fv, hook)
			}
			return
		}
	}
	if hook != nil {
		hook(p, t, v)
	}
	s.writeLeaf(o, p, v)
}

// fieldOf projects an opaque aggregate.
func fieldOf(v Value, i int, t types.Type) Value {
	return symValue(appAtom(fmt.Sprintf("fld%d", i), isIntType(t), v), t)
}

// symValue makes an unknown value of type t from atom a.
func symValue(a *Atom, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		for i := range fs {
			ft := u.Field(i).Type()
			fs[i] = symValue(appAtom(fmt.Sprintf("fld%d", i), isIntType(ft), &Opaque{a}), ft)
		}
		return mkStruct(fs)
	case *types.Array:
		if u.Len() <= 16 {
			fs := make([]Value, u.Len())
			for i := range fs {
				fs[i] = symValue(appAtom(fmt.Sprintf("el%d", i), isIntType(u.Elem()), &Opaque{a}), u.Elem())
			}
			return mkStruct(fs)
		}
	case *types.Basic:
		if isUnsigned(t) && a.lo == nil {
			a.lo = ratZero
		}
	}
	return leafValue(a, t)
}

// sig is a key of everything observable in the state except facts.
func (s *State) sig() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.heap) {
		sb.WriteString(s.heap[k].Key())
		sb.WriteByte('\n')
	}
	for _, k := range sortedKeys(s.fam) {
		sb.WriteString(k + "=" + s.fam[k] + "\n")
	}
	sb.WriteString(s.ghostSig())
	return sb.String()
}

func (s *State) ghostSig() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.tags) {
		sb.WriteString(k + "=" + s.tags[k] + "\n")
	}
	for _, k := range sortedKeys(s.nums) {
		sb.WriteString(k + "=" + s.nums[k].key + "\n")
	}
	for _, k := range sortedKeys(s.vals) {
		sb.WriteString(k + "=" + s.vals[k].Key() + "\n")
	}
	return sb.String()
}
