package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recvArgs gives the receiver argument of method f for the object behind p.
func recvArg(s *State, f *ssa.Function, p *Ptr) Value {
	if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
		return p
	}
	return s.read(p.obj, nil, f.Params[0].Type())
}

// checkRanking decides that the sort interface of every algorithm orders the
// members by fitness and moves everything that belongs to a member together.
func checkRanking(c *Ctx) {
	L := c.L
	for _, t := range L.implementors(L.typ("algorithm", "Algorithm")) {
		c.guard("ranking of "+typName(elemOf(t)), func() {
			z := &stepRun{c: c, L: L, a: describeAlgo(L, t)}
			z.ptT = L.typ("normgeom", "NormPoint")
			nm := z.a.nm
			entry := func() (*State, *Ptr) {
				st := newState()
				p := sym("rank:"+nm, types.NewPointer(z.a.named)).(*Ptr)
				z.recv = p.obj
				n := z.field(st, z.a.pop).(*Slice).len
				st.assume(cEQ(sub(z.field(st, z.a.fit).(*Slice).len, n)))
				i, j := skolem("i"), skolem("j")
				n = z.field(st, z.a.pop).(*Slice).len
				st.assume(cGT(sub(n, i)))
				st.assume(cGT(sub(n, j)))
				st.assume(cNE(sub(i, j)))
				st.vals["i"], st.vals["j"] = i, j
				return st, p
			}
			fitAt := func(s *State, i *Poly) *Poly {
				return z.elem(s, z.a.fit, i).(*Struct).fs[z.a.fitF].(*Poly)
			}
			// Len
			e := newEngine(L)
			st, p := entry()
			f := L.method(z.a.named, "Len")
			for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, p)}, nil, "Len", nil) {
				if o.panicked {
					continue
				}
				v, ok := o.res.(*Poly)
				e.obligation("all members are ranked", nm, L.posOf(f.Pos()), ok && o.st.facts.entails(cEQ(sub(v, z.field(o.st, z.a.fit).(*Slice).len))), "Len is not the number of members")
			}
			// Less
			st, p = entry()
			f = L.method(z.a.named, "Less")
			n := 0
			for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, p), st.vals["i"], st.vals["j"]}, nil, "Less", nil) {
				if o.panicked {
					continue
				}
				b, ok := o.res.(*Cond)
				if !ok {
					panic(undecided("Less returns " + o.res.Key()))
				}
				for _, want := range []*Cond{b, b.not()} {
					s := o.st.clone()
					if !s.assume(want) {
						continue
					}
					n++
					for _, s := range e.leaf(s, func(s *State) { fitAt(s, s.vals["i"].(*Poly)); fitAt(s, s.vals["j"].(*Poly)) }) {
						g := cGT(sub(fitAt(s, s.vals["i"].(*Poly)), fitAt(s, s.vals["j"].(*Poly))))
						if want != b {
							g = g.not()
						}
						e.obligation("higher fitness ranks first", nm, L.posOf(f.Pos()), s.facts.entails(g), "Less(i, j) is not fitness[i] > fitness[j]")
					}
				}
			}
			c.need("outcomes of Less in "+nm, n, 2)
			// Swap
			st, p = entry()
			f = L.method(z.a.named, "Swap")
			st.tags["eval"] = ""
			e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee == nil && ifaceOwner(ci.method) == "algorithm/evaluator.Evaluator" {
					if ci.method.Name() != "Swap" {
						return []Outcome{{st: st, res: getAtom(ci.args[1])}}, true
					}
					x, y := ci.args[1].Key(), ci.args[2].Key()
					i, j := st.vals["i"].Key(), st.vals["j"].Key()
					st.tags["eval"] += "."
					if !(x == i && y == j || x == j && y == i) {
						st.tags["eval"] += "?"
					}
					return []Outcome{{st: st}}, true
				}
				return nil, false
			}
			n = 0
			for _, o := range e.execFunc(st, f, []Value{p, st.vals["i"], st.vals["j"]}, nil, "Swap", nil) {
				if o.panicked {
					e.obligation("ranking exchanges two members", nm, L.posOf(f.Pos()), false, "Swap may panic")
					continue
				}
				n++
				at := L.posOf(f.Pos())
				e.obligation("ranking exchanges the evaluators of the two members", nm, at, o.st.tags["eval"] == ".", "evaluator.Swap is not called exactly once with both members (%q)", o.st.tags["eval"])
				s := o.st
				s.vals["x"] = skolem("x")
				s.assume(cGT(sub(z.field(s, z.a.pop).(*Slice).len, s.vals["x"].(*Poly))))
				for _, s := range e.leaf(s, func(s *State) {
					x := s.vals["x"].(*Poly)
					s.ask(cEQ(sub(x, s.vals["i"].(*Poly))))
					s.ask(cEQ(sub(x, s.vals["j"].(*Poly))))
					z.elem(s, z.a.pop, x)
					z.elem(s, z.a.fit, x)
				}) {
					x, i, j := s.vals["x"].(*Poly), s.vals["i"].(*Poly), s.vals["j"].(*Poly)
					src := x
					if s.facts.entails(cEQ(sub(x, i))) {
						src = j
					} else if s.facts.entails(cEQ(sub(x, j))) {
						src = i
					}
					z0 := newState()
					e.obligation("ranking moves the points", nm, at, sameVal(s, z.elem(s, z.a.pop, x), z.elem(z0, z.a.pop, src)), "after Swap(i, j) member %s does not hold the points of member %s", x.key, src.key)
					e.obligation("ranking moves the fitness", nm, at, sameVal(s, fitAt(s, x), fitAt(z0, src)), "after Swap(i, j) member %s does not hold the fitness of member %s", x.key, src.key)
				}
			}
			c.need("outcomes of Swap in "+nm, n, 1)
			c.take(e)
		})
	}
	checkEvaluators(c, true, false)
}

// checkEvaluators decides what evaluators do with members: an evaluator that
// hands bases to its functions exchanges them with the members, and Get and
// SetBase address the members they are given.
func checkEvaluators(c *Ctx, ranking, base bool) {
	L := c.L
	impls := L.implementors(L.typ("algorithm/evaluator", "Evaluator"))
	c.need("evaluators", len(impls), 2)
	stateful := 0
	for _, t := range impls {
		c.guard("evaluator "+typName(elemOf(t)), func() {
			n, st := structOf(t)
			if n == nil {
				n, _ = t.(*types.Named)
				st, _ = n.Underlying().(*types.Struct)
			}
			if st == nil {
				panic(undecided("evaluator is not a record"))
			}
			nm := typName(n)
			perMember := -1
			single := -1
			for i := 0; i < st.NumFields(); i++ {
				switch u := st.Field(i).Type().Underlying().(type) {
				case *types.Slice:
					if implementsFitness(L, u.Elem()) {
						perMember = i
					}
				case *types.Interface:
					if implementsFitness(L, st.Field(i).Type()) {
						single = i
					}
				}
			}
			if perMember < 0 {
				c.ob("instances", nm+" keeps one function", single >= 0, "", "holds no fitness function")
				return
			}
			et := st.Field(perMember).Type().Underlying().(*types.Slice).Elem()
			var recv *Obj
			elem := func(s *State, i *Poly) Value {
				sl := s.read(recv, Path{{field: perMember}}, st.Field(perMember).Type()).(*Slice)
				return s.read(sl.obj, Path{{idx: add(sl.off, i)}}, et)
			}
			entry := func() (*State, *Ptr) {
				s := newState()
				p := sym("eval:"+nm, types.NewPointer(n)).(*Ptr)
				recv = p.obj
				i, j := skolem("i"), skolem("j")
				ln := s.read(recv, Path{{field: perMember}}, st.Field(perMember).Type()).(*Slice).len
				s.assume(cGT(sub(ln, i)))
				s.assume(cGT(sub(ln, j)))
				s.assume(cNE(sub(i, j)))
				s.vals["i"], s.vals["j"] = i, j
				return s, p
			}
			// Get
			e := newEngine(L)
			s, p := entry()
			f := L.method(n, "Get")
			for _, o := range e.execFunc(s, f, []Value{recvArg(s, f, p), s.vals["i"]}, nil, "Get", nil) {
				v := unIface(o.res)
				e.obligation("Get returns the member's function", nm, L.posOf(f.Pos()), !o.panicked && v != nil && sameVal(o.st, v, unIface(elem(o.st, o.st.vals["i"].(*Poly)))), "Get(i) does not return function i")
			}
			// SetBase
			s, p = entry()
			f = L.method(n, "SetBase")
			s.tags["sb"] = ""
			calls := false
			e.intercept = func(e *Engine, x *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.callee == nil && ci.method != nil && ci.method.Name() == "SetBase" && strings.HasPrefix(ifaceOwner(ci.method), "fitness.") {
					calls = true
					z := newState()
					x.tags["sb"] += "."
					if !sameVal(x, unIface(ci.args[0]), unIface(elem(z, x.vals["i"].(*Poly)))) || !sameVal(x, unIface(ci.args[1]), unIface(elem(z, x.vals["j"].(*Poly)))) {
						x.tags["sb"] += "?"
					}
					return []Outcome{{st: x}}, true
				}
				return nil, false
			}
			for _, o := range e.execFunc(s, f, []Value{recvArg(s, f, p), s.vals["i"], s.vals["j"]}, nil, "SetBase", nil) {
				if base && (calls || hasSetBase(et)) {
					e.obligation("the function of the member is given the function of its base", nm, L.posOf(f.Pos()), !o.panicked && o.st.tags["sb"] == ".", "SetBase(i, base) does not give function i function base as its base exactly once (%q)", o.st.tags["sb"])
				}
			}
			if hasSetBase(et) {
				stateful++
			}
			// Swap
			if ranking && hasSetBase(et) {
				s, p = entry()
				f = L.method(n, "Swap")
				for _, o := range e.execFunc(s, f, []Value{recvArg(s, f, p), s.vals["i"], s.vals["j"]}, nil, "Swap", nil) {
					if o.panicked {
						e.obligation("functions move with their members", nm, L.posOf(f.Pos()), false, "Swap may panic")
						continue
					}
					s := o.st
					s.vals["x"] = skolem("x")
					s.assume(cGT(sub(s.read(recv, Path{{field: perMember}}, st.Field(perMember).Type()).(*Slice).len, s.vals["x"].(*Poly))))
					for _, s := range e.leaf(s, func(s *State) {
						x := s.vals["x"].(*Poly)
						s.ask(cEQ(sub(x, s.vals["i"].(*Poly))))
						s.ask(cEQ(sub(x, s.vals["j"].(*Poly))))
						elem(s, x)
					}) {
						x, i, j := s.vals["x"].(*Poly), s.vals["i"].(*Poly), s.vals["j"].(*Poly)
						src := x
						if s.facts.entails(cEQ(sub(x, i))) {
							src = j
						} else if s.facts.entails(cEQ(sub(x, j))) {
							src = i
						}
						e.obligation("functions move with their members", nm, L.posOf(f.Pos()), sameVal(s, elem(s, x), elem(newState(), src)), "after Swap(i, j) function %s is not the former function %s", x.key, src.key)
					}
				}
			}
			c.take(e)
		})
	}
	c.need("evaluators whose functions have bases", stateful, 1)
}

func implementsFitness(L *Loaded, t types.Type) bool {
	it, _ := L.typ("fitness", "Function").Underlying().(*types.Interface)
	return it != nil && types.Implements(t, it)
}

func hasSetBase(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "SetBase" {
			return true
		}
	}
	return false
}

func unIface(v Value) Value {
	if i, ok := v.(*Iface); ok {
		return i.v
	}
	return v
}

// checkCaptures decides that nothing captured by a concurrently run closure is
// assigned after the closure was made.
func checkCaptures(c *Ctx) {
	n := 0
	for _, f := range c.L.sourceFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || !isTask(mc) {
					continue
				}
				fn := mc.Fn.(*ssa.Function)
				for i, v := range mc.Bindings {
					al, ok := v.(*ssa.Alloc)
					if !ok {
						continue
					}
					n++
					at := c.L.posOf(mc.Pos())
					what := shortFn(f) + " captures " + fn.FreeVars[i].Name()
					w := storedAfter(c.L, mc, al)
					c.ob("captured variables are not assigned once the task exists", what, w == "", at, "%s", w)
				}
			}
		}
	}
	c.need("variables captured by tasks", n, 1)
}

// isTask reports that a closure may run concurrently with its maker.
func isTask(mc *ssa.MakeClosure) bool {
	fn := mc.Fn.(*ssa.Function)
	own := mc.Referrers() != nil // only run by its maker itself
	if own {
		for _, r := range *mc.Referrers() {
			switch x := r.(type) {
			case *ssa.Defer:
				own = own && x.Call.Value == ssa.Value(mc)
			case *ssa.Call:
				own = own && x.Call.Value == ssa.Value(mc)
			case *ssa.DebugRef:
			default:
				own = false
			}
		}
	}
	if own {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Send); ok {
				return true
			}
		}
	}
	work := []ssa.Value{mc}
	seen := map[ssa.Value]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Go:
				return true
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && strings.Contains(fnPkgPath(g), "panjf2000/ants") {
					return true
				}
			case *ssa.Phi:
				work = append(work, x)
			case *ssa.ChangeType:
				work = append(work, x)
			case *ssa.MakeInterface:
				work = append(work, x)
			}
		}
	}
	return false
}

// storedAfter finds an assignment to al that may execute after mc, before al is
// allocated anew.
func storedAfter(L *Loaded, mc *ssa.MakeClosure, al *ssa.Alloc) string {
	writes := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			return rootOf(x.Addr) == al
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == al && closureStores(x.Fn.(*ssa.Function), i, 0) {
					return true
				}
			}
		}
		return false
	}
	if closureOf := mc.Fn.(*ssa.Function); closureOf != nil {
		for i, b := range mc.Bindings {
			if b == al && closureStores(closureOf, i, 0) {
				return "the task itself assigns it"
			}
		}
	}
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	start := 0
	for i, in := range mc.Block().Instrs {
		if in == mc {
			start = i + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pos{{mc.Block(), start}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for _, in := range p.b.Instrs[p.i:] {
			if in == al {
				stop = true
				break
			}
			if in != mc && writes(in) {
				return "assigned at " + L.posOf(in.Pos()) + " while the task may run"
			}
		}
		if stop {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pos{s, 0})
			}
		}
	}
	return ""
}

// rootOf follows field and index addresses to the variable they lie in.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return x
			}
			v = x.X
		default:
			return v
		}
	}
}

// closureStores reports that a function assigns its i-th captured variable.
func closureStores(fn *ssa.Function, i, depth int) bool {
	if depth > 4 || i >= len(fn.FreeVars) {
		return depth > 4
	}
	fv := fn.FreeVars[i]
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if rootOf(x.Addr) == fv {
					return true
				}
			case *ssa.MakeClosure:
				for j, bd := range x.Bindings {
					if bd == fv && closureStores(x.Fn.(*ssa.Function), j, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}
