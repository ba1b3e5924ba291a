package main

// Terms: the value vocabulary of the abstract interpreter. Numeric terms are
// polynomials with rational coefficients over atoms; atoms are hash-consed, so
// equal keys mean equal terms (a global value numbering of the program).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Atom is an uninterpreted symbol or application.
type Atom struct {
	id     int
	key    string
	op     string
	args   []Value // structured arguments (Poly, Slice, Obj refs ...)
	obj    *Obj    // for "sel": the object read
	path   Path    // for "sel": the path read
	ver    string  // for "sel": the version of the content read
	isInt  bool
	skolem bool // a distinguished element: never renamed
	lo, hi *big.Rat
	scopes map[string]bool // loop instances this atom is local to
	self   *Poly
	bloom  uint64 // over-approximates the atoms reachable from this one, itself included
}

func (a *Atom) short() string {
	if len(a.key) <= 28 {
		return a.key
	}
	return fmt.Sprintf("#%d", a.id)
}

var atomTab = map[string]*Atom{}
var atomSeq int

func unionScopes(a, b map[string]bool) map[string]bool {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	sub := true
	for k := range b {
		if !a[k] {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

func internAtom(a *Atom) *Atom {
	if x, ok := atomTab[a.key]; ok {
		return x
	}
	atomSeq++
	a.id = atomSeq
	for _, v := range a.args {
		a.scopes = unionScopes(a.scopes, scopesOf(v))
	}
	if a.obj != nil {
		a.scopes = unionScopes(a.scopes, a.obj.scopes())
	}
	for _, s := range a.path {
		if s.idx != nil {
			a.scopes = unionScopes(a.scopes, s.idx.scopes())
		}
	}
	if vs, ok := verScopes[a.ver]; ok {
		a.scopes = unionScopes(a.scopes, vs)
	}
	a.bloom = uint64(1) << (uint(a.id*0x9E3779B1>>7) & 63)
	for _, v := range a.args {
		a.bloom |= bloomOf(v)
	}
	a.bloom |= bloomObj(a.obj) | bloomPath(a.path)
	atomTab[a.key] = a
	return a
}

var verScopes = map[string]map[string]bool{}

// symAtom returns a named free symbol.
func symAtom(name string, isInt bool, scopes map[string]bool) *Atom {
	return internAtom(&Atom{key: name, op: "sym", isInt: isInt, scopes: scopes})
}

// appAtom returns an application of op to args.
func appAtom(op string, isInt bool, args ...Value) *Atom {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(a.Key())
	}
	sb.WriteByte(')')
	a := &Atom{key: sb.String(), op: op, args: args, isInt: isInt}
	if op == "len" || op == "cap" {
		a.lo = new(big.Rat)
	}
	return internAtom(a)
}

func selAtom(ver string, o *Obj, p Path, isInt bool) *Atom {
	return internAtom(&Atom{key: ver + ":" + o.key + p.Key(), op: "sel", obj: o, path: p, ver: ver, isInt: isInt})
}

type vp struct {
	a *Atom
	e int
}

type mono struct {
	vars []vp
	c    *big.Rat
	key  string
}

func monoKey(vars []vp) string {
	if len(vars) == 0 {
		return ""
	}
	var sb strings.Builder
	for i, v := range vars {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(v.a.short())
		if v.e != 1 {
			fmt.Fprintf(&sb, "^%d", v.e)
		}
	}
	return sb.String()
}

// Poly is an immutable polynomial; terms are sorted by key.
type Poly struct {
	terms []mono
	key   string
	sc    map[string]bool
	scOK  bool
	bl    uint64
	blOK  bool
}

func (p *Poly) bloom() uint64 {
	if !p.blOK {
		for _, t := range p.terms {
			for _, v := range t.vars {
				p.bl |= v.a.bloom
			}
		}
		p.blOK = true
	}
	return p.bl
}

func bloomObj(o *Obj) uint64 {
	if o == nil || o.atom == nil {
		return 0
	}
	return o.atom.bloom
}

func bloomPath(p Path) (b uint64) {
	for _, s := range p {
		if s.idx != nil {
			b |= s.idx.bloom()
		}
	}
	return b
}

func bloomOf(v Value) uint64 {
	switch v := v.(type) {
	case *Poly:
		return v.bloom()
	case *Cond:
		var b uint64
		if v.p != nil {
			b = v.p.bloom()
		}
		if v.a != nil {
			b |= v.a.bloom
		}
		return b
	case *Slice:
		if v.obj == nil {
			return 0
		}
		b := bloomObj(v.obj) | v.off.bloom() | v.len.bloom()
		if v.cap != nil {
			b |= v.cap.bloom()
		}
		return b
	case *Ptr:
		return bloomObj(v.obj) | bloomPath(v.path)
	case *Struct:
		var b uint64
		for _, f := range v.fs {
			b |= bloomOf(f)
		}
		return b
	case *Fn:
		var b uint64
		for _, f := range v.binds {
			b |= bloomOf(f)
		}
		return b
	case *Opaque:
		return v.a.bloom
	case *Iface:
		return bloomOf(v.v)
	}
	return 0
}

func mkPoly(m map[string]mono) *Poly {
	p := &Poly{}
	for _, t := range m {
		if t.c.Sign() != 0 {
			p.terms = append(p.terms, t)
		}
	}
	sort.Slice(p.terms, func(i, j int) bool { return p.terms[i].key < p.terms[j].key })
	var sb strings.Builder
	if len(p.terms) == 0 {
		sb.WriteByte('0')
	}
	for i, t := range p.terms {
		if i > 0 {
			sb.WriteByte('+')
		}
		if t.key == "" {
			sb.WriteString(t.c.RatString())
		} else {
			if t.c.Cmp(one) != 0 {
				sb.WriteString(t.c.RatString())
				sb.WriteByte('*')
			}
			sb.WriteString(t.key)
		}
	}
	p.key = sb.String()
	return p
}

var one = big.NewRat(1, 1)

func constRat(r *big.Rat) *Poly {
	return mkPoly(map[string]mono{"": {c: new(big.Rat).Set(r)}})
}
func constInt(n int64) *Poly { return constRat(big.NewRat(n, 1)) }

// accMono adds a monomial to a sum under construction.
func accMono(m map[string]mono, t mono) {
	if o, ok := m[t.key]; ok {
		t.c = new(big.Rat).Add(o.c, t.c)
	}
	m[t.key] = t
}

func atomPoly(a *Atom) *Poly {
	if a.self == nil {
		a.self = powPoly(a, 1)
	}
	return a.self
}
func powPoly(a *Atom, e int) *Poly {
	vars := []vp{{a, e}}
	return mkPoly(map[string]mono{"x": {vars: vars, c: one, key: monoKey(vars)}})
}

func (p *Poly) Key() string { return p.key }

func (p *Poly) scopes() map[string]bool {
	if !p.scOK {
		for _, t := range p.terms {
			for _, v := range t.vars {
				p.sc = unionScopes(p.sc, v.a.scopes)
			}
		}
		p.scOK = true
	}
	return p.sc
}

func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.terms) == 0 {
		return new(big.Rat), true
	}
	if len(p.terms) == 1 && p.terms[0].key == "" {
		return p.terms[0].c, true
	}
	return nil, false
}

func (p *Poly) constVal() *big.Rat {
	for _, t := range p.terms {
		if t.key == "" {
			return t.c
		}
	}
	return new(big.Rat)
}

func (p *Poly) integral() bool {
	for _, t := range p.terms {
		if !t.c.IsInt() {
			return false
		}
		for _, v := range t.vars {
			if !v.a.isInt || v.e < 0 {
				return false
			}
		}
	}
	return true
}

// singleAtom reports whether p is exactly one atom.
func (p *Poly) singleAtom() *Atom {
	if len(p.terms) == 1 && p.terms[0].c.Cmp(one) == 0 && len(p.terms[0].vars) == 1 && p.terms[0].vars[0].e == 1 {
		return p.terms[0].vars[0].a
	}
	return nil
}

func addScaled(p, q *Poly, c *big.Rat) *Poly {
	m := map[string]mono{}
	for _, t := range p.terms {
		m[t.key] = t
	}
	for _, t := range q.terms {
		cc := new(big.Rat).Mul(t.c, c)
		if o, ok := m[t.key]; ok {
			m[t.key] = mono{vars: t.vars, c: new(big.Rat).Add(o.c, cc), key: t.key}
		} else {
			m[t.key] = mono{vars: t.vars, c: cc, key: t.key}
		}
	}
	return mkPoly(m)
}

func add(p, q *Poly) *Poly { return addScaled(p, q, one) }
func sub(p, q *Poly) *Poly { return addScaled(p, q, big.NewRat(-1, 1)) }
func neg(p *Poly) *Poly    { return addScaled(constInt(0), p, big.NewRat(-1, 1)) }
func scale(p *Poly, c *big.Rat) *Poly {
	return addScaled(constInt(0), p, c)
}
func addInt(p *Poly, n int64) *Poly { return add(p, constInt(n)) }

func mul(p, q *Poly) *Poly {
	if len(p.terms)*len(q.terms) > 20000 {
		panic(undecided("polynomial too large"))
	}
	m := map[string]mono{}
	for _, s := range p.terms {
		for _, t := range q.terms {
			vars := mergeVars(s.vars, t.vars)
			k := monoKey(vars)
			c := new(big.Rat).Mul(s.c, t.c)
			if o, ok := m[k]; ok {
				c.Add(c, o.c)
			}
			m[k] = mono{vars: vars, c: c, key: k}
		}
	}
	return mkPoly(m)
}

func mergeVars(a, b []vp) []vp {
	var r []vp
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			r = append(r, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				r = append(r, vp{a[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

// recip is 1/p: monomials invert exactly, other polynomials become an atom.
func recip(p *Poly) *Poly {
	if len(p.terms) == 0 {
		return atomPoly(symAtom("div0", false, nil))
	}
	if len(p.terms) == 1 {
		t := p.terms[0]
		r := constRat(new(big.Rat).Inv(t.c))
		for _, v := range t.vars {
			r = mul(r, powPoly(v.a, -v.e))
		}
		return r
	}
	lead := p.terms[len(p.terms)-1].c
	q := scale(p, new(big.Rat).Inv(lead))
	a := appAtom("recip", false, q)
	return scale(atomPoly(a), new(big.Rat).Inv(lead))
}

// clearRecip multiplies p by powers of the argument of every recip atom so that
// no reciprocal is left: p == 0 iff the result == 0 wherever p is defined.
func clearRecip(p *Poly) *Poly {
	for round := 0; round < 8; round++ {
		var ra *Atom
		maxE := 0
		for _, t := range p.terms {
			for _, v := range t.vars {
				if v.a.op == "recip" && v.e > 0 {
					if ra == nil {
						ra = v.a
					}
					if v.a == ra && v.e > maxE {
						maxE = v.e
					}
				} else if v.e < 0 && (ra == nil || ra == v.a) {
					ra = v.a
					if -v.e > maxE {
						maxE = -v.e
					}
				}
			}
		}
		if ra == nil {
			return p
		}
		r := constInt(0)
		for _, t := range p.terms {
			e := 0
			var rest []vp
			for _, v := range t.vars {
				if v.a == ra {
					e = v.e
				} else {
					rest = append(rest, v)
				}
			}
			q := mkPoly(map[string]mono{"x": {vars: rest, c: t.c, key: monoKey(rest)}})
			if ra.op == "recip" {
				for i := 0; i < maxE-e; i++ {
					q = mul(q, ra.args[0].(*Poly))
				}
			} else {
				if maxE+e > 0 {
					q = mul(q, powPoly(ra, maxE+e))
				}
			}
			r = add(r, q)
		}
		p = r
	}
	return p
}

// atomsOf calls f for each distinct atom directly in p.
func (p *Poly) atoms(f func(*Atom)) {
	seen := map[*Atom]bool{}
	for _, t := range p.terms {
		for _, v := range t.vars {
			if !seen[v.a] {
				seen[v.a] = true
				f(v.a)
			}
		}
	}
}

// deepAtoms visits all atoms reachable from v, including inside arguments.
func deepAtoms(v Value, f func(*Atom)) {
	seen := map[*Atom]bool{}
	var va func(a *Atom)
	var vv func(v Value)
	vpth := func(p Path) {
		for _, s := range p {
			if s.idx != nil {
				vv(s.idx)
			}
		}
	}
	var vo func(o *Obj)
	vo = func(o *Obj) {
		if o != nil && o.atom != nil {
			va(o.atom)
		}
	}
	va = func(a *Atom) {
		if seen[a] {
			return
		}
		seen[a] = true
		f(a)
		for _, x := range a.args {
			vv(x)
		}
		vo(a.obj)
		vpth(a.path)
	}
	vv = func(v Value) {
		switch v := v.(type) {
		case *Poly:
			v.atoms(va)
		case *Cond:
			if v.p != nil {
				vv(v.p)
			}
			if v.a != nil {
				va(v.a)
			}
		case *Slice:
			vo(v.obj)
			vv(v.off)
			vv(v.len)
		case *Ptr:
			vo(v.obj)
			vpth(v.path)
		case *Struct:
			for _, x := range v.fs {
				vv(x)
			}
		case *Fn:
			for _, x := range v.binds {
				vv(x)
			}
		case *Opaque:
			va(v.a)
		case *Iface:
			vv(v.v)
		}
	}
	vv(v)
}
