package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// implementors lists the module's named types whose value or pointer method set
// satisfies an interface.
func (l *Loaded) implementors(it types.Type) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		panic(undecided(it.String() + " is not an interface"))
	}
	var out []types.Type
	for _, rel := range sortedKeys(l.pkgs) {
		p := l.pkgs[rel]
		for _, n := range sortedKeys(p.Members) {
			m, ok := p.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(m.Type()) {
				continue
			}
			if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(m.Type(), iface) {
				out = append(out, m.Type())
			} else if types.Implements(types.NewPointer(m.Type()), iface) {
				out = append(out, types.NewPointer(m.Type()))
			}
		}
	}
	return out
}

func typName(t types.Type) string {
	return strings.ReplaceAll(t.String(), modPath+"/", "")
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// sym makes a symbolic value of type t.
func sym(name string, t types.Type) Value {
	return symValue(symAtom(name, isIntType(t), nil), t)
}

// watchCell makes the leaves of o at p explicit and watched.
func watchCell(st *State, name string, o *Obj, p Path, t types.Type) {
	var lps []Path
	leafPaths(p, t, &lps)
	l := st.log(o)
	ents := append([]entry(nil), l.ents...)
	for _, lp := range lps {
		lt := cellType(o, lp)
		if lt == nil {
			continue
		}
		st.watch = append(st.watch, Watch{name: name + lp.Key(), obj: o, path: lp, typ: lt})
		has := false
		for _, en := range ents {
			if !en.rng && en.path.Key() == lp.Key() {
				has = true
			}
		}
		if !has {
			ents = append([]entry{{path: lp, val: st.baseLeaf(l.base, o, lp, lt)}}, ents...)
		}
	}
	st.heap[o.key] = &Log{obj: o, base: l.base, ents: ents}
}

// skolem is an arbitrary but fixed natural number.
func skolem(name string) *Poly {
	a := symAtom(name, true, nil)
	a.skolem = true
	a.lo = ratZero
	return atomPoly(a)
}

func fnPkgPath(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// randomSource treats the repository's own random package as a source of arbitrary numbers.
func randomSource(e *Engine, st *State, c *CallInfo) ([]Outcome, bool) {
	if c.callee == nil || fnPkgPath(c.callee) != modPath+"/random" {
		return nil, false
	}
	rs := c.callee.Signature.Results()
	if rs.Len() != 1 {
		return []Outcome{{st: st}}, true
	}
	t := rs.At(0).Type()
	v := e.fresh("rnd:"+c.ctx, t)
	if c.callee.Name() == "Intn" && len(c.args) == 1 {
		p := v.(*Poly)
		p.singleAtom().lo = ratZero
		n := c.args[0].(*Poly)
		if !st.assume(cGT(sub(n, p))) {
			return nil, true
		}
	}
	return []Outcome{{st: st, res: v}}, true
}

// fieldsOfType lists the indexes of a struct's fields with the given type.
func fieldsOfType(t types.Type, ft types.Type) []int {
	u := t.Underlying().(*types.Struct)
	var out []int
	for i := 0; i < u.NumFields(); i++ {
		if types.Identical(u.Field(i).Type(), ft) {
			out = append(out, i)
		}
	}
	return out
}

func fieldIdx(t types.Type, name string) int {
	u, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return i
			}
		}
	}
	panic(undecided("field " + name + " of " + t.String() + " not found"))
}

func sortStrings(x []string) []string { sort.Strings(x); return x }

func fmtKey(s string, n int) string { return s + "#" + strconv.Itoa(n) }

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
