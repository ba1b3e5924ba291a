package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sumWidths decides that the colour sums of the fitness functions cannot wrap
// around: they are not kept in narrow integers and not multiplied by each other
// as integers.
func sumWidths(c *Ctx) {
	n := 0
	for _, f := range c.L.sourceFuncs() {
		if fnPkgPath(f) != modPath+"/fitness" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				t, ok := x.Type().Underlying().(*types.Basic)
				if !ok || t.Info()&types.IsInteger == 0 {
					continue
				}
				at := c.L.posOf(x.Pos())
				switch x.Op {
				case token.ADD:
					_, cx := x.X.(*ssa.Const)
					_, cy := x.Y.(*ssa.Const)
					if cx || cy || !accumulates(x) {
						continue
					}
					n++
					narrow := false
					switch t.Kind() {
					case types.Int8, types.Int16, types.Uint8, types.Uint16:
						narrow = true
					}
					c.ob("sums are wide enough for any number of pixels", shortFn(f), !narrow, at, "a sum is kept as %s", t)
				case token.MUL:
					if isSum(x.X, map[ssa.Value]bool{}) && isSum(x.Y, map[ssa.Value]bool{}) {
						c.ob("sums are not multiplied as integers", shortFn(f), false, at, "the product may overflow")
					}
				}
			}
		}
	}
	c.ob("sums are not multiplied as integers", "package fitness", true, "-", "")
	c.need("integer sums of the fitness functions", n, 1)
}

// accumulates reports that the result of an addition goes where one of its terms
// was read.
func accumulates(x *ssa.BinOp) bool {
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, y.Addr) {
					return true
				}
			}
		case *ssa.Phi:
			if ssa.Value(y) == x.X || ssa.Value(y) == x.Y {
				return true
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

// isSum reports that a value was read from a variable that is added to.
func isSum(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
			return isSum(x.X, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && (b.X == v || b.Y == v) {
				_, cx := b.X.(*ssa.Const)
				_, cy := b.Y.(*ssa.Const)
				return !cx && !cy
			}
			if isSum(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return addedTo(al)
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			return addedTo(fv)
		}
	}
	return false
}

// addedTo reports that a variable, or the one a closure captures, is added to.
func addedTo(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if b, ok := y.Val.(*ssa.BinOp); ok && y.Addr == v && b.Op == token.ADD && accumulates(b) {
				return true
			}
		case *ssa.MakeClosure:
			for i, x := range y.Bindings {
				if x == v && addedTo(y.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}
