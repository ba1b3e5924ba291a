package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. Key identifies it up to syntactic equality.
type Value interface{ Key() string }

// Cond is a boolean value or a fact.
type Cond struct {
	op byte // 'T','F','L' (p>=0),'l' (p>0),'E' (p==0),'N' (p!=0),'B' atom,'b' not atom
	p  *Poly
	a  *Atom
}

var cTrue, cFalse = &Cond{op: 'T'}, &Cond{op: 'F'}

func (c *Cond) Key() string {
	switch c.op {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'B':
		return "?" + c.a.short()
	case 'b':
		return "!" + c.a.short()
	}
	return string(c.op) + "[" + c.p.key + "]"
}

func mkBool(b bool) *Cond {
	if b {
		return cTrue
	}
	return cFalse
}

// cGE is p>=0, normalised.
func cGE(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return mkBool(c.Sign() >= 0)
	}
	return &Cond{op: 'L', p: p}
}
func cGT(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return mkBool(c.Sign() > 0)
	}
	if p.integral() {
		return &Cond{op: 'L', p: addInt(p, -1)}
	}
	return &Cond{op: 'l', p: p}
}
func normEq(p *Poly) *Poly {
	// make the leading coefficient 1 so p==0 and -p==0 have one key
	for _, t := range p.terms {
		if t.key != "" {
			return scale(p, new(big.Rat).Inv(t.c))
		}
	}
	return p
}
func cEQ(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return mkBool(c.Sign() == 0)
	}
	return &Cond{op: 'E', p: normEq(p)}
}
func cNE(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return mkBool(c.Sign() != 0)
	}
	return &Cond{op: 'N', p: normEq(p)}
}
func cAtom(a *Atom) *Cond { return &Cond{op: 'B', a: a} }

func (c *Cond) not() *Cond {
	switch c.op {
	case 'T':
		return cFalse
	case 'F':
		return cTrue
	case 'L':
		return cGT(neg(c.p))
	case 'l':
		return cGE(neg(c.p))
	case 'E':
		return &Cond{op: 'N', p: c.p}
	case 'N':
		return &Cond{op: 'E', p: c.p}
	case 'B':
		return &Cond{op: 'b', a: c.a}
	case 'b':
		return &Cond{op: 'B', a: c.a}
	}
	panic("cond")
}

// Step is one step of a path: a field or an index.
type Step struct {
	field int
	idx   *Poly
}
type Path []Step

func (p Path) Key() string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx != nil {
			sb.WriteString("[" + s.idx.key + "]")
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	return sb.String()
}

func (p Path) with(s Step) Path {
	r := make(Path, len(p)+1)
	copy(r, p)
	r[len(p)] = s
	return r
}
func (p Path) cat(q Path) Path {
	r := make(Path, 0, len(p)+len(q))
	r = append(r, p...)
	return append(r, q...)
}

// Obj is a memory object: a variable, a slice's backing array, or the target of a pointer.
type Obj struct {
	key    string
	kind   string     // alloc, init, global
	atom   *Atom      // init: the term naming it
	typ    types.Type // element type of a backing array, or the variable's type
	array  bool       // a backing array: paths begin with an index
	family string     // ownership family: the path pattern it was loaded from
	sc     map[string]bool
	name   string
	ctx    string
}

var objTab = map[string]*Obj{}

func internObj(o *Obj) *Obj {
	if x, ok := objTab[o.key]; ok {
		return x
	}
	objTab[o.key] = o
	return o
}

func (o *Obj) scopes() map[string]bool {
	if o.atom != nil {
		return unionScopes(o.sc, o.atom.scopes)
	}
	return o.sc
}

// initObj is the object designated by a slice or pointer term loaded from memory.
func initObj(a *Atom, elem types.Type, array bool) *Obj {
	k := "*" + a.short()
	fam := "*" + a.op
	if a.op == "sel" {
		fam = a.obj.family
		for _, s := range a.path {
			if s.idx != nil {
				fam += "[]"
			} else {
				fam += fmt.Sprintf(".%d", s.field)
			}
		}
		fam += "*"
	} else if a.op == "sym" {
		fam = "*" + a.key
	}
	return internObj(&Obj{key: k, kind: "init", atom: a, typ: elem, array: array, family: fam, name: k})
}

type Slice struct {
	obj      *Obj // nil for the nil slice
	off, len *Poly
	cap      *Poly // may be nil (unknown)
}

func (s *Slice) Key() string {
	if s.obj == nil {
		return "nilslice"
	}
	return "S{" + s.obj.key + "," + s.off.key + "," + s.len.key + "}"
}

type Ptr struct {
	obj  *Obj // nil for nil
	path Path
}

func (p *Ptr) Key() string {
	if p.obj == nil {
		return "nil"
	}
	return "&" + p.obj.key + p.path.Key()
}

type Struct struct {
	fs  []Value
	key string
}

func mkStruct(fs []Value) *Struct { return &Struct{fs: fs} }
func (s *Struct) Key() string {
	if s.key == "" {
		var sb strings.Builder
		sb.WriteByte('{')
		for i, f := range s.fs {
			if i > 0 {
				sb.WriteByte(';')
			}
			sb.WriteString(f.Key())
		}
		sb.WriteByte('}')
		s.key = sb.String()
	}
	return s.key
}

type Fn struct {
	fn    *ssa.Function
	binds []Value
}

func (f *Fn) Key() string {
	k := "fn:" + f.fn.String()
	for _, b := range f.binds {
		k += "," + b.Key()
	}
	return k
}

type Opaque struct{ a *Atom }

func (o *Opaque) Key() string { return "o:" + o.a.short() }

type Iface struct {
	t types.Type
	v Value
}

func (i *Iface) Key() string { return "I<" + i.t.String() + ">" + i.v.Key() }

// Nil is the untyped nil of pointers, functions, maps, channels and interfaces.
type Nil struct{}

func (Nil) Key() string { return "nil" }

// Str is a string constant.
type Str struct{ s string }

func (s *Str) Key() string { return fmt.Sprintf("%q", s.s) }

func scopesOf(v Value) map[string]bool {
	switch v := v.(type) {
	case *Poly:
		return v.scopes()
	case *Cond:
		if v.p != nil {
			return v.p.scopes()
		}
		if v.a != nil {
			return v.a.scopes
		}
	case *Slice:
		if v.obj == nil {
			return nil
		}
		return unionScopes(unionScopes(v.obj.scopes(), v.off.scopes()), v.len.scopes())
	case *Ptr:
		if v.obj == nil {
			return nil
		}
		sc := v.obj.scopes()
		for _, s := range v.path {
			if s.idx != nil {
				sc = unionScopes(sc, s.idx.scopes())
			}
		}
		return sc
	case *Struct:
		var sc map[string]bool
		for _, f := range v.fs {
			sc = unionScopes(sc, scopesOf(f))
		}
		return sc
	case *Fn:
		var sc map[string]bool
		for _, f := range v.binds {
			sc = unionScopes(sc, scopesOf(f))
		}
		return sc
	case *Opaque:
		return v.a.scopes
	case *Iface:
		return scopesOf(v.v)
	}
	return nil
}

// rewriting replaces atoms by polynomials throughout a value.
type rewriter struct {
	from  map[*Atom]*Poly
	memoA map[*Atom]*Atom
	memoP map[*Poly]*Poly
	memoO map[*Obj]*Obj
	objs  map[*Obj]*Obj
	mask  uint64
}

func newRewriter(from *Atom, to *Poly) *rewriter {
	return newMultiRewriter(map[*Atom]*Poly{from: to})
}

func newMultiRewriter(m map[*Atom]*Poly) *rewriter {
	r := &rewriter{from: m, memoA: map[*Atom]*Atom{}, memoP: map[*Poly]*Poly{}, memoO: map[*Obj]*Obj{}}
	for a := range m {
		r.mask |= uint64(1) << (uint(a.id*0x9E3779B1>>7) & 63)
	}
	return r
}

func (r *rewriter) atom(a *Atom) *Atom {
	if r.objs == nil && a.bloom&r.mask == 0 {
		return a
	}
	if x, ok := r.memoA[a]; ok {
		return x
	}
	res := a
	if a.op == "sel" {
		o, p := r.obj(a.obj), r.path(a.path)
		if o != a.obj || p.Key() != a.path.Key() {
			res = selAtom(a.ver, o, p, a.isInt)
			if res.lo == nil {
				res.lo = a.lo
			}
			if res.hi == nil {
				res.hi = a.hi
			}
		}
	} else if len(a.args) > 0 {
		ch := false
		args := make([]Value, len(a.args))
		for i, v := range a.args {
			args[i] = r.value(v)
			if args[i].Key() != v.Key() {
				ch = true
			}
		}
		if ch {
			res = appAtom(a.op, a.isInt, args...)
			if res.lo == nil {
				res.lo = a.lo
			}
			if res.hi == nil {
				res.hi = a.hi
			}
		}
	}
	r.memoA[a] = res
	return res
}

func (r *rewriter) poly(p *Poly) *Poly {
	if r.objs == nil && p.bloom()&r.mask == 0 {
		return p
	}
	if x, ok := r.memoP[p]; ok {
		return x
	}
	ch := false
	p.atoms(func(a *Atom) {
		if r.from[a] != nil || r.atom(a) != a {
			ch = true
		}
	})
	res := p
	if ch {
		acc := map[string]mono{}
		for _, t := range p.terms {
			same := true
			for _, v := range t.vars {
				if r.from[v.a] != nil || r.atom(v.a) != v.a {
					same = false
				}
			}
			if same {
				accMono(acc, t)
				continue
			}
			q := constRat(t.c)
			for _, v := range t.vars {
				if f := r.from[v.a]; f != nil {
					n := v.e
					if n < 0 {
						f = recip(f)
						n = -n
					}
					for i := 0; i < n; i++ {
						q = mul(q, f)
					}
				} else {
					b := r.atom(v.a)
					if b != v.a {
						// re-simplify applications
						bp := simplifyApp(b)
						n := v.e
						if n < 0 {
							bp = recip(bp)
							n = -n
						}
						for i := 0; i < n; i++ {
							q = mul(q, bp)
						}
					} else {
						q = mul(q, powPoly(b, v.e))
					}
				}
			}
			for _, t := range q.terms {
				accMono(acc, t)
			}
		}
		res = mkPoly(acc)
	}
	r.memoP[p] = res
	return res
}

func (r *rewriter) obj(o *Obj) *Obj {
	if n := r.objs[o]; n != nil {
		return n
	}
	if o == nil || o.atom == nil {
		return o
	}
	if x, ok := r.memoO[o]; ok {
		return x
	}
	res := o
	if b := r.atom(o.atom); b != o.atom {
		res = initObj(b, o.typ, o.array)
	}
	r.memoO[o] = res
	return res
}

func (r *rewriter) path(p Path) Path {
	var out Path
	for i, s := range p {
		if s.idx != nil {
			q := r.poly(s.idx)
			if q != s.idx && out == nil {
				out = append(Path{}, p[:i]...)
			}
			if out != nil {
				out = append(out, Step{idx: q})
			}
		} else if out != nil {
			out = append(out, s)
		}
	}
	if out == nil {
		return p
	}
	return out
}

func (r *rewriter) cond(c *Cond) *Cond {
	switch c.op {
	case 'T', 'F':
		return c
	case 'L':
		return cGE(r.poly(c.p))
	case 'l':
		return cGT(r.poly(c.p))
	case 'E':
		return cEQ(r.poly(c.p))
	case 'N':
		return cNE(r.poly(c.p))
	case 'B', 'b':
		if a := r.atom(c.a); a != c.a {
			return &Cond{op: c.op, a: a}
		}
	}
	return c
}

func (r *rewriter) value(v Value) Value {
	switch v := v.(type) {
	case *Poly:
		return r.poly(v)
	case *Cond:
		return r.cond(v)
	case *Slice:
		if v.obj == nil {
			return v
		}
		n := &Slice{obj: r.obj(v.obj), off: r.poly(v.off), len: r.poly(v.len)}
		if v.cap != nil {
			n.cap = r.poly(v.cap)
		}
		if n.obj == v.obj && n.off == v.off && n.len == v.len && n.cap == v.cap {
			return v
		}
		return n
	case *Ptr:
		if v.obj == nil {
			return v
		}
		o, p := r.obj(v.obj), r.path(v.path)
		if o == v.obj && (len(p) == 0 || &p[0] == &v.path[0]) {
			return v
		}
		return &Ptr{o, p}
	case *Struct:
		ch := false
		fs := make([]Value, len(v.fs))
		for i, f := range v.fs {
			fs[i] = r.value(f)
			if fs[i] != f {
				ch = true
			}
		}
		if !ch {
			return v
		}
		return mkStruct(fs)
	case *Fn:
		ch := false
		fs := make([]Value, len(v.binds))
		for i, f := range v.binds {
			fs[i] = r.value(f)
			if fs[i] != f {
				ch = true
			}
		}
		if !ch {
			return v
		}
		return &Fn{v.fn, fs}
	case *Opaque:
		if a := r.atom(v.a); a != v.a {
			return &Opaque{a}
		}
		return v
	case *Iface:
		if x := r.value(v.v); x != v.v {
			return &Iface{v.t, x}
		}
		return v
	}
	return v
}

type undecided string

func (u undecided) Error() string { return string(u) }
