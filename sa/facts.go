package main

import (
	"math/big"
)

// Facts is the set of constraints known on a trace.
type Facts struct {
	cs  []*Cond // L, l, N, E
	set map[string]bool
	h   [2]uint64 // identifies the set of facts, whatever their order
}

func newFacts() *Facts { return &Facts{set: map[string]bool{}} }

// factMemo remembers entailments across states: fixpoint iterations meet the
// same sets of facts again and again.
type factQuery struct {
	h [2]uint64
	q [2]uint64
}

var factMemo = map[factQuery]bool{}

func hash2(s string) [2]uint64 {
	a, b := uint64(14695981039346656037), uint64(0x9E3779B97F4A7C15)
	for i := 0; i < len(s); i++ {
		a = (a ^ uint64(s[i])) * 1099511628211
		b = (b + uint64(s[i]) + 1) * 0xD6E8FEB86659FD93
		b ^= b >> 29
	}
	a ^= a >> 31
	a *= 0xBF58476D1CE4E5B9
	a ^= a >> 27
	return [2]uint64{a, b}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	n.h = f.h
	n.cs = append([]*Cond(nil), f.cs...)
	for k := range f.set {
		n.set[k] = true
	}
	return n
}

func (f *Facts) add(c *Cond) {
	if c.op == 'T' {
		return
	}
	k := c.Key()
	if f.set[k] {
		return
	}
	f.set[k] = true
	f.cs = append(f.cs, c)
	h := hash2(k)
	f.h[0] ^= h[0]
	f.h[1] ^= h[1]
}

type linBuilder struct {
	vars  map[string]int
	atoms map[int][]*Atom
	cons  []linCon
}

func (b *linBuilder) lin(p *Poly, strict bool) (linCon, bool) {
	lc := linCon{co: map[int]rat{}, c: rat{0, 1}, strict: strict}
	// scale to integer coefficients
	for _, t := range p.terms {
		r, ok := toRat(t.c)
		if !ok {
			return lc, false
		}
		if t.key == "" {
			lc.c = r
			continue
		}
		v, ok := b.vars[t.key]
		if !ok {
			v = len(b.vars)
			b.vars[t.key] = v
		}
		lc.co[v] = r
	}
	return lc, true
}

// polyVars lists the monomial keys of p.
func polyVars(p *Poly) []string {
	var r []string
	for _, t := range p.terms {
		if t.key != "" {
			r = append(r, t.key)
		}
	}
	return r
}

// bounds returns constraints from the atoms' own ranges for single-atom monomials of p.
func rangeCons(p *Poly, seen map[string]bool, out *[]*Cond) {
	for _, t := range p.terms {
		if t.key == "" || seen[t.key] {
			continue
		}
		seen[t.key] = true
		if len(t.vars) == 1 && t.vars[0].e == 1 {
			a := t.vars[0].a
			if a.lo != nil {
				*out = append(*out, &Cond{op: 'L', p: addScaled(atomPoly(a), constRat(a.lo), big.NewRat(-1, 1))})
			}
			if a.hi != nil {
				*out = append(*out, &Cond{op: 'L', p: sub(constRat(a.hi), atomPoly(a))})
			}
			for _, c := range defFacts(a) {
				*out = append(*out, c)
			}
		}
	}
}

// defFacts are facts that hold of an atom by what it means.
func defFacts(a *Atom) []*Cond {
	var r []*Cond
	self := atomPoly(a)
	switch a.op {
	case "cap":
		if s, ok := a.args[0].(*Opaque); ok {
			l := appAtom("len", true, s)
			r = append(r, cGE(sub(self, atomPoly(l))))
		}
	case "pmod":
		// remainder of a nonnegative by a positive number
		x, y := a.args[0].(*Poly), a.args[1].(*Poly)
		r = append(r, cGE(self), cGE(sub(x, self)), cGT(sub(y, self)))
	case "min":
		for _, x := range a.args {
			r = append(r, cGE(sub(x.(*Poly), self)))
		}
	case "max":
		for _, x := range a.args {
			r = append(r, cGE(sub(self, x.(*Poly))))
		}
	case "floor":
		x := a.args[0].(*Poly)
		r = append(r, cGE(sub(x, self)), cGT(sub(addInt(self, 1), x)))
	case "ceil":
		x := a.args[0].(*Poly)
		r = append(r, cGE(sub(self, x)), cGT(sub(addInt(x, 1), self)))
	case "abs":
		x := a.args[0].(*Poly)
		r = append(r, cGE(self), cGE(sub(self, x)), cGE(add(self, x)))
	case "sqrt":
		r = append(r, cGE(self))
	}
	return r
}

// infeasible reports whether facts ∧ extra has no solution.
func (f *Facts) infeasible(extra []*Cond, depth int) bool {
	// collect connected constraints
	vars := map[string]bool{}
	var sel []*Cond
	add := func(c *Cond) {
		sel = append(sel, c)
		for _, v := range polyVars(c.p) {
			vars[v] = true
		}
	}
	for _, c := range extra {
		if c.op == 'F' {
			return true
		}
		if c.op == 'T' {
			continue
		}
		add(c)
	}
	used := map[int]bool{}
	rseen := map[string]bool{}
	for changed := true; changed; {
		changed = false
		var rc []*Cond
		for i := 0; i < len(sel); i++ {
			rangeCons(sel[i].p, rseen, &rc)
		}
		for _, c := range rc {
			if c.op == 'F' {
				return true
			}
			if c.op == 'T' {
				continue
			}
			add(c)
			changed = true
		}
		for i, c := range f.cs {
			if used[i] || c.p == nil || c.op == 'N' {
				continue
			}
			hit := false
			for _, t := range c.p.terms {
				if t.key != "" && vars[t.key] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				add(c)
				changed = true
			}
		}
	}
	b := &linBuilder{vars: map[string]int{}}
	for _, c := range sel {
		switch c.op {
		case 'L', 'l':
			if lc, ok := b.lin(c.p, c.op == 'l'); ok {
				b.cons = append(b.cons, lc)
			}
		case 'E':
			if lc, ok := b.lin(c.p, false); ok {
				b.cons = append(b.cons, lc)
				lc2, _ := b.lin(neg(c.p), false)
				b.cons = append(b.cons, lc2)
			}
		}
	}
	if !feasible(b.cons, len(b.vars)) {
		return true
	}
	if depth <= 0 {
		return false
	}
	// a minimum or maximum is one of its arguments
	for n, m := range minmaxAtoms(sel) {
		if n > 5 {
			break
		}
		done := false
		var cases []*Cond
		args := m.args
		if m.op == "abs" {
			args = []Value{args[0], neg(args[0].(*Poly))}
		}
		for _, x := range args {
			q := cEQ(sub(atomPoly(m), x.(*Poly)))
			cases = append(cases, q)
			for _, e := range extra {
				if e.Key() == q.Key() {
					done = true
				}
			}
		}
		if done {
			continue
		}
		for _, q := range cases {
			if !f.infeasible(append(append([]*Cond(nil), extra...), q), depth) {
				return false
			}
		}
		return true
	}
	// case split on a related disequality
	for _, c := range f.cs {
		if c.op != 'N' {
			continue
		}
		vs := polyVars(c.p)
		all := len(vs) > 0
		for _, v := range vs {
			if !vars[v] {
				all = false
			}
		}
		if !all {
			continue
		}
		done := false
		g1, g2 := cGT(c.p).Key(), cGT(neg(c.p)).Key()
		for _, e := range extra {
			if k := e.Key(); k == g1 || k == g2 {
				done = true
			}
		}
		if done {
			continue
		}
		if f.infeasible(append(append([]*Cond(nil), extra...), cGT(c.p)), depth-1) &&
			f.infeasible(append(append([]*Cond(nil), extra...), cGT(neg(c.p))), depth-1) {
			return true
		}
	}
	return false
}

// entails reports whether c holds on every state described by f.
func (f *Facts) entails(c *Cond) bool {
	switch c.op {
	case 'T':
		return true
	case 'F':
		return f.infeasibleSelf()
	case 'B', 'b':
		return f.set[c.Key()]
	}
	k := c.Key()
	if f.set[k] {
		return true
	}
	q := factQuery{f.h, hash2(k)}
	if r, ok := factMemo[q]; ok {
		return r
	}
	var r bool
	switch c.op {
	case 'L', 'l':
		r = f.infeasible([]*Cond{c.not()}, 2)
	case 'E':
		r = f.infeasible([]*Cond{cGT(c.p)}, 1) && f.infeasible([]*Cond{cGT(neg(c.p))}, 1)
	case 'N':
		r = f.infeasible([]*Cond{{op: 'E', p: c.p}}, 1)
	}
	if len(factMemo) > 4000000 {
		factMemo = map[factQuery]bool{}
	}
	factMemo[q] = r
	return r
}

func (f *Facts) infeasibleSelf() bool { return f.set["false"] }

// tri: 1 entailed, -1 refuted, 0 unknown
func (f *Facts) tri(c *Cond) int {
	switch c.op {
	case 'T':
		return 1
	case 'F':
		return -1
	}
	if f.entails(c) {
		return 1
	}
	if f.entails(c.not()) {
		return -1
	}
	return 0
}

// minmaxAtoms lists the minima and maxima the constraints talk about.
func minmaxAtoms(cs []*Cond) (out []*Atom) {
	seen := map[*Atom]bool{}
	for _, c := range cs {
		if c.p == nil {
			continue
		}
		for _, t := range c.p.terms {
			for _, v := range t.vars {
				if (v.a.op == "min" || v.a.op == "max" || v.a.op == "abs") && !seen[v.a] {
					seen[v.a] = true
					out = append(out, v.a)
				}
			}
		}
	}
	return
}
