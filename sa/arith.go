package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		switch u := t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return zeroValue(t)
		case *types.Slice:
			_ = u
			return zeroLeaf(t)
		case *types.Pointer:
			return &Ptr{}
		case *types.Basic:
			if u.Kind() == types.UntypedNil {
				return Nil{}
			}
			return zeroLeaf(t)
		}
		return Nil{}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return &Str{constant.StringVal(c.Value)}
	}
	if isNumType(t) {
		r := ratOfConst(c.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && r.Denom().BitLen() > 12 {
			// arithmetic is exact here, and so are decimal constants
			bits := 64
			if b.Kind() == types.Float32 {
				bits = 32
			}
			f, _ := r.Float64()
			if d, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, bits)); ok {
				r = d
			}
		}
		return constRat(r)
	}
	return &Opaque{symAtom("const:"+c.Value.ExactString(), false, nil)}
}

func ratOfConst(v constant.Value) *big.Rat {
	switch x := constant.Val(constant.ToFloat(v)).(type) {
	case *big.Rat:
		return x
	case *big.Float:
		r, _ := x.Rat(nil)
		if r != nil {
			return r
		}
	case int64:
		return big.NewRat(x, 1)
	case *big.Int:
		return new(big.Rat).SetInt(x)
	}
	r, ok := new(big.Rat).SetString(v.ExactString())
	if !ok {
		return new(big.Rat)
	}
	return r
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = zeroValue(u.Field(i).Type())
		}
		return mkStruct(fs)
	case *types.Array:
		if u.Len() <= 16 {
			fs := make([]Value, u.Len())
			for i := range fs {
				fs[i] = zeroValue(u.Elem())
			}
			return mkStruct(fs)
		}
		return Nil{}
	}
	return zeroLeaf(t)
}

// simplifyApp folds an application whose arguments became constant.
func simplifyApp(a *Atom) *Poly {
	var cs []*big.Rat
	for _, x := range a.args {
		p, ok := x.(*Poly)
		if !ok {
			return atomPoly(a)
		}
		c, ok := p.isConst()
		if !ok {
			cs = nil
			break
		}
		cs = append(cs, c)
	}
	if a.op == "recip" {
		return recip(a.args[0].(*Poly))
	}
	if cs == nil {
		if (a.op == "trunc" || a.op == "round" || a.op == "floor" || a.op == "ceil") && len(a.args) == 1 {
			if p := a.args[0].(*Poly); p.integral() {
				return p
			}
		}
		return atomPoly(a)
	}
	switch {
	case (a.op == "mod" || a.op == "pmod") && len(cs) == 2 && cs[1].Sign() != 0 && cs[0].IsInt() && cs[1].IsInt():
		return constRat(new(big.Rat).SetInt(new(big.Int).Rem(cs[0].Num(), cs[1].Num())))
	case a.op == "idiv" && len(cs) == 2 && cs[1].Sign() != 0 && cs[0].IsInt() && cs[1].IsInt():
		return constRat(new(big.Rat).SetInt(new(big.Int).Quo(cs[0].Num(), cs[1].Num())))
	case a.op == "trunc" && len(cs) == 1:
		return constRat(new(big.Rat).SetInt(new(big.Int).Quo(cs[0].Num(), cs[0].Denom())))
	case a.op == "abs" && len(cs) == 1:
		return constRat(new(big.Rat).Abs(cs[0]))
	case a.op == "floor" && len(cs) == 1:
		return constRat(floorRat(cs[0]))
	case a.op == "ceil" && len(cs) == 1:
		return constRat(new(big.Rat).Neg(floorRat(new(big.Rat).Neg(cs[0]))))
	case a.op == "conv" || a.op == "and" || a.op == "shr":
	}
	return atomPoly(a)
}

func floorRat(r *big.Rat) *big.Rat {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return new(big.Rat).SetInt(q)
}

func app(op string, isInt bool, args ...Value) *Poly {
	return simplifyApp(appAtom(op, isInt, args...))
}

// intBits is the width of an integer type (64 for int, uint).
func intBits(t types.Type) (bits int, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// idealConv: narrowing a number keeps its value.
var idealConv bool

func convertNum(p *Poly, from, to types.Type) *Poly {
	if idealConv && isIntType(to) {
		if isIntType(from) {
			return p
		}
		return app("trunc", true, p)
	}
	fi, ti := isIntType(from), isIntType(to)
	switch {
	case fi && ti:
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		if fs == ts && tb >= fb || !fs && ts && tb > fb {
			return p
		}
		if c, ok := p.isConst(); ok {
			if c.Sign() >= 0 && c.Num().BitLen() < tb {
				return p
			}
		}
		if a := p.singleAtom(); a != nil && a.op == "len" && tb >= 32 {
			return p
		}
		if fb == 64 && tb == 64 && fs != ts {
			return p // lengths and counters: non-negative by construction
		}
		a := appAtom("conv"+to.Underlying().String(), true, p)
		if !ts && a.lo == nil {
			a.lo = ratZero
		}
		return atomPoly(a)
	case fi && !ti:
		return p
	case !fi && ti:
		tr := app("trunc", true, p)
		tb, _ := intBits(to)
		if tb < 64 {
			return app("conv"+to.Underlying().String(), true, tr)
		}
		return tr
	}
	return p
}
