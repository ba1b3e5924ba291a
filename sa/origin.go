package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// originTracer follows reference values back to where they come from, through
// copies, slicing, appending, results of functions of the module and arguments
// of their static callers.
type originTracer struct {
	L       *Loaded
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
}

func newOriginTracer(L *Loaded) *originTracer {
	t := &originTracer{L: L, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	for _, f := range L.sourceFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						t.callers[g] = append(t.callers[g], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == g && op == in.Operands(nil)[0] {
						continue
					}
					t.taken[g] = true
				}
			}
		}
	}
	return t
}

// origins lists where v may come from: "nil", "new" (made in this function or a
// callee), "field T.f", "param f#i", "element", or the kind of instruction.
func (t *originTracer) origins(v ssa.Value) []string {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if seen[v] || d > 60 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			out["nil"] = true
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			out["new"] = true
		case *ssa.Alloc:
			out["new"] = true
		case *ssa.FreeVar:
			for _, b := range bindings(x) {
				walk(b, d+1)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
		case *ssa.Slice:
			walk(x.X, d+1)
		case *ssa.ChangeType:
			walk(x.X, d+1)
		case *ssa.Convert:
			walk(x.X, d+1)
		case *ssa.MakeInterface:
			walk(x.X, d+1)
		case *ssa.TypeAssert:
			walk(x.X, d+1)
		case *ssa.Extract:
			walk(x.Tuple, d+1)
		case *ssa.UnOp:
			// a load: from a local cell, follow the stores; otherwise name the place
			a, ok := x.X.(*ssa.Alloc)
			if ok && onlyLocal(a) {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						walk(s.Val, d+1)
					}
				}
				return
			}
			if a := capturedAlloc(x.X); a != nil {
				for _, s := range cellStores(a) {
					if s == nil {
						out["captured "+x.X.Name()] = true
						continue
					}
					walk(s.Val, d+1)
				}
				return
			}
			out[placeName(x.X)] = true
		case *ssa.Field:
			out["field "+typeLast(x.X.Type())+"."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()] = true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					// the result is the old array or a new one
					walk(x.Call.Args[0], d+1)
					out["new"] = true
					return
				}
				out["builtin "+b.Name()] = true
				return
			}
			g := x.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 || !inModule(g) {
				out["call "+x.Call.String()] = true
				return
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, y := range r.Results {
						if types.Identical(y.Type(), v.Type()) {
							walk(y, d+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			g := x.Parent()
			i := -1
			for j, p := range g.Params {
				if p == x {
					i = j
				}
			}
			if t.taken[g] || len(t.callers[g]) == 0 {
				out[fmt.Sprintf("param %s#%d", shortFn(g), i)] = true
			}
			for _, ci := range t.callers[g] {
				walk(ci.Common().Args[i], d+1)
			}
		default:
			out[fmt.Sprintf("%T", v)] = true
		}
	}
	walk(v, 0)
	var l []string
	for k := range out {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func placeName(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		st := elemOf(x.X.Type())
		return "field " + typeLast(st) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return "element"
	case *ssa.Global:
		return "global " + x.Name()
	}
	return fmt.Sprintf("load %T", a)
}

// onlyLocal reports an address that is only loaded from and stored to.
func onlyLocal(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != a {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// bindings lists what a free variable is bound to where its closure is made.
func bindings(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	i := -1
	for j, x := range fn.FreeVars {
		if x == fv {
			i = j
		}
	}
	var out []ssa.Value
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

// capturedAlloc finds the variable behind an address in a closure or its maker.
func capturedAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			if _, isStruct := elemOf(x.Type()).Underlying().(*types.Struct); isStruct {
				return nil
			}
			return x
		case *ssa.FreeVar:
			bs := bindings(x)
			if len(bs) != 1 {
				return nil
			}
			v = bs[0]
		default:
			return nil
		}
	}
}

// cellStores lists every store to a variable, also from closures; nil stands for
// a use that cannot be followed.
func cellStores(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				} else {
					out = append(out, nil)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						visit(fn.FreeVars[i])
					}
				}
			default:
				out = append(out, nil)
			}
		}
	}
	visit(a)
	return out
}
