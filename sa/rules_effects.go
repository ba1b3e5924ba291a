package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C21", title: "Inputs are left as they were and nothing is kept between calls",
		rule: "References are followed from every exported function through all calls, closures and containers: no instruction may write memory reachable from an argument other than the receiver, except the points a mutation method is given, and none may write a package-level variable, except the state of the random number generator.",
		run:  checkInputs})
	register(&Check{id: "C04", title: "Evaluations that run side by side do not touch each other's memory",
		rule: "References are followed through Calculate, the constructors, the other methods and one generation: an evaluation writes only structures that only its function holds; functions made together share none of them; tasks write nothing that outlives them, and nothing they read is written before they are received; results are filed in a table that was not handed out for the generation being evaluated.",
		run:  checkIsolation})
}

// entryArgs gives every parameter of f memory of its own.
func (a *effects) entryArgs(f *ssa.Function) []eset {
	var out []eset
	for i, p := range f.Params {
		if !isRef(p.Type()) && !isAgg(p.Type()) {
			out = append(out, nil)
			continue
		}
		n := p.Name()
		if f.Signature.Recv() != nil && i == 0 {
			n = "receiver"
		}
		out = append(out, eset{a.root("arg", n, elemOf(p.Type())): true})
	}
	return out
}

// exportedFuncs are the functions a program using the module can call.
func exportedFuncs(L *Loaded) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range L.sourceFuncs() {
		if f.Parent() != nil || f.Blocks == nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

// checkInputs: no function changes what it is given, and none keeps state in
// package-level variables.
func checkInputs(c *Ctx) {
	L := c.L
	mut := L.typ("mutation", "Method")
	mutators := map[*ssa.Function]bool{}
	for _, t := range L.implementors(mut) {
		mutators[L.method(t, "Mutate")] = true
	}
	calcs := calculations(L)
	algoT := L.typ("algorithm", "Algorithm")
	n, w := 0, 0
	for _, f := range exportedFuncs(L) {
		f := f
		n++
		name := strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
		c.guard("what "+name+" writes", func() {
			a := newEffects(L)
			// evaluations are entries of their own
			a.stop = func(g *ssa.Function, via *ectx, at ssa.CallInstruction, args []eset) bool { return calcs[g] }
			a.run(f, a.entryArgs(f))
			c.count("calling contexts", len(a.ctxs))
			for g := range a.nfuncs {
				c.funcs[g.RelString(nil)] = true
			}
			ok := true
			reads := f.Signature.Recv() != nil && readsOnly(f)
			for _, x := range a.all() {
				w++
				at := L.posOf(x.at.Pos())
				switch x.l.root.kind {
				case "arg":
					if x.l.root.name == "receiver" {
						if reads {
							ok = false
							c.ob("a reading method leaves its receiver as it was", name, false, at, "%s is written (%s)", x.l.path, x.ctx.chain(L))
						}
						continue
					}
					if p := paramNamed(f, x.l.root.name); p != nil && types.Identical(p.Type(), algoT) {
						continue // running an algorithm changes it
					}
					if mutators[f] && x.l.root.name == f.Params[1].Name() {
						continue // a mutation method changes the points it is given
					}
					ok = false
					c.ob("an input is left as it was", name+": "+x.l.root.name, false, at, "%s is written (%s)", x.l.path, x.ctx.chain(L))
				case "global":
					if strings.HasPrefix(x.l.root.name, modPath+"/random.") {
						continue // the state of the random number generator
					}
					ok = false
					c.ob("nothing is kept in package-level variables", name, false, at, "%s is written (%s)", x.l.path, x.ctx.chain(L))
				}
			}
			if ok {
				c.ob("inputs are left as they were", name, true, L.posOf(f.Pos()), "")
			}
		})
	}
	c.count("writes", w)
	c.need("exported functions", n, 60)
}

func paramNamed(f *ssa.Function, n string) *ssa.Parameter {
	for _, p := range f.Params {
		if p.Name() == n {
			return p
		}
	}
	return nil
}

// readsOnly: a method of a value, which is not there to change what the value
// refers to.
func readsOnly(f *ssa.Function) bool {
	if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
		return false
	}
	for _, w := range []string{"Set", "Remove", "Add", "Swap"} {
		if strings.HasPrefix(f.Name(), w) {
			return false
		}
	}
	return true
}

// checkIsolation: evaluations that run side by side do not touch each other's memory.
func checkIsolation(c *Ctx) {
	n := 0
	for _, t := range c.L.implementors(c.L.typ("fitness", "CacheFunction")) {
		nt, st := structOf(t)
		if st == nil {
			continue
		}
		n++
		c.guard("memory of "+typName(nt), func() { isolate(c, nt, st) })
	}
	c.need("fitness functions", n, 2)
	c.guard("tasks", func() { isolateTasks(c) })
	c.guard("tables", func() { doubleBuffer(c) })
}

func under(l, p *eloc) bool {
	for x := l; x != nil; x = x.up {
		if x == p {
			return true
		}
	}
	return false
}

// through is the reference field of the root that l is reached through, or nil
// when l is part of the root itself.
func through(l *eloc) *eloc {
	var f *eloc
	for x := l; x.up != nil; x = x.up {
		if x.step == "*" {
			f = x.up
		}
	}
	return f
}

func isolate(c *Ctx, t types.Type, u *types.Struct) {
	L := c.L
	nm := typName(t)
	nt := t.(*types.Named)
	ptr := types.NewPointer(t)
	recv := func(a *effects) *eloc { return a.root("arg", "receiver", t) }
	fieldName := func(l *eloc) string { return l.path[len("receiver"):] }

	// what its other methods put into its fields from outside
	foreign := map[string]string{}
	shown := eset{}
	ms := L.prog.MethodSets.MethodSet(ptr)
	calc := L.method(t, "Calculate")
	a := newEffects(L)
	a.run(calc, a.entryArgs(calc))
	for i := 0; i < ms.Len(); i++ {
		f := L.prog.MethodValue(ms.At(i))
		if f == nil || f.Blocks == nil || f == calc || !f.Object().Exported() {
			continue
		}
		b := newEffects(L)
		b.run(f, b.entryArgs(f))
		for l := range leavesOf(recv(b), u) {
			for x := range l.heap {
				if x.root != l.root {
					foreign[fieldName(l)] = "set by " + f.Name()
				}
			}
		}
		// what it hands out, as Calculate left it
		top := b.ctxs[0]
		for i, r := range top.rets {
			rt := f.Signature.Results().At(i).Type()
			if !isRef(rt) {
				continue
			}
			for l := range r {
				if l.root.kind != "arg" || l.root.name != "receiver" {
					continue
				}
				shown[transfer(l, recv(a))] = true
			}
		}
	}
	published := eset{}
	for l := range shown {
		cur := eset{l: true}
		if l.step == "*" {
			cur = eset{}
			a.load(l.up, cur, map[*eloc]bool{})
		}
		for x := range cur {
			els := eset{}
			a.load(x.child("[]"), els, map[*eloc]bool{})
			for y := range els {
				a.closure(y, published)
			}
		}
	}
	// what Calculate writes
	deep := map[string]ssa.Instruction{}
	n := 0
	for _, x := range a.all() {
		n++
		at := L.posOf(x.at.Pos())
		chain := x.ctx.chain(L)
		switch x.l.root.kind {
		case "global":
			c.ob("an evaluation writes no package-level variable", nm+": "+x.l.root.name, false, at, "%s is written (%s)", x.l.path, chain)
		case "arg":
			if x.l.root.name != "receiver" {
				c.ob("an evaluation leaves what it is given as it was", nm+": "+x.l.path, false, at, "%s is written (%s)", x.l.path, chain)
				continue
			}
			f := through(x.l)
			if f == nil {
				continue
			}
			if _, ok := deep[fieldName(f)]; !ok {
				deep[fieldName(f)] = x.at
			}
			for p := range published {
				if p.root.kind == "arg" && under(x.l, p) {
					c.ob("an evaluation leaves filed results as they were", nm+": "+x.l.path, false, at, "%s is written (%s)", x.l.path, chain)
				}
			}
		}
	}
	c.count("writes", n)
	c.count("calling contexts", len(a.ctxs))
	for g := range a.nfuncs {
		c.funcs[g.RelString(nil)] = true
	}
	for g := range a.unknown {
		c.notes = append(c.notes, "a function value that is not known is called in "+g)
	}
	for _, f := range sortedKeys(deep) {
		at := L.posOf(deep[f].Pos())
		c.ob("an evaluation writes only memory of its own function", nm+f, foreign[f] == "", at, "the memory behind %s comes from outside (%s)", f, foreign[f])
	}
	c.need("structures written by "+nm, len(deep), 2)

	// no two functions share what one of them writes
	made := 0
	for _, f := range L.sourceFuncs() {
		if fnPkgPath(f) != nt.Obj().Pkg().Path() || f.Signature.Recv() != nil || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		b := newEffects(L)
		b.run(f, b.entryArgs(f))
		for _, r := range sortedRoots(b) {
			if r.kind != "new" || r.typ == nil || !types.Identical(r.typ, t) {
				continue
			}
			made++
			own := r.at
			for x := r.ctx; x.up != nil; x = x.up {
				own = x.site
			}
			for l := range leavesOf(r.loc(), u) {
				fn := l.path[len(r.loc().path):]
				if _, ok := deep[fn]; !ok {
					continue
				}
				vals := eset{}
				b.load(l, vals, map[*eloc]bool{})
				for v := range vals {
					ok := v.root.kind == "new" && v.root.at != nil
					if ok {
						in := v.root.at
						for x := v.root.ctx; x.up != nil; x = x.up {
							in = x.site
						}
						ok = !inLoopWithout(own, in)
					}
					c.ob("every function has memory of its own", strings.ReplaceAll(f.RelString(nil), modPath+"/", "")+fn, ok, L.posOf(f.Pos()), "functions made together share %s", v)
				}
			}
		}
	}
	c.need("functions of "+nm+" made", made, 1)
}

// inLoopWithout: a is in a loop that b is not in.
func inLoopWithout(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return true
	}
	x, y := a.Block(), b.Block()
	if x == y || !reaches(x, x) {
		return false
	}
	return !(reaches(x, y) && reaches(y, x))
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func sortedRoots(a *effects) []*eroot {
	var out []*eroot
	for _, k := range sortedKeys(a.roots) {
		out = append(out, a.roots[k])
	}
	return out
}

// leavesOf lists the reference fields of a struct at l.
func leavesOf(l *eloc, u *types.Struct) eset {
	out := eset{}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		c := l.child("." + f.Name())
		if isRef(f.Type()) {
			out[c] = true
		} else if s, ok := f.Type().Underlying().(*types.Struct); ok {
			out.add(leavesOf(c, s))
		}
	}
	return out
}

// transfer finds the same location under another root.
func transfer(l, root *eloc) *eloc {
	var steps []string
	for x := l; x.up != nil; x = x.up {
		steps = append(steps, x.step)
	}
	t := root
	for i := len(steps) - 1; i >= 0; i-- {
		t = t.child(steps[i])
	}
	return t
}

// closure collects what can be reached from y.
func (a *effects) closure(y *eloc, out eset) {
	if out[y] {
		return
	}
	out[y] = true
	if y.root.kind != "new" || y.up != nil || y.root.typ == nil {
		return
	}
	switch u := y.root.typ.Underlying().(type) {
	case *types.Struct:
		for l := range leavesOf(y, u) {
			v := eset{}
			a.load(l, v, map[*eloc]bool{})
			for x := range v {
				a.closure(x, out)
			}
		}
	case *types.Slice:
		if isRef(u.Elem()) {
			v := eset{}
			a.load(y.child("[]"), v, map[*eloc]bool{})
			for x := range v {
				a.closure(x, out)
			}
		}
	}
}

func calculations(L *Loaded) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, t := range L.implementors(L.typ("fitness", "Function")) {
		m[L.method(t, "Calculate")] = true
	}
	return m
}

// isolateTasks: what runs side by side with a generation.
func isolateTasks(c *Ctx) {
	L := c.L
	calcs := calculations(L)
	n, nt := 0, 0
	for _, t := range L.implementors(L.typ("algorithm", "Algorithm")) {
		nm := typName(elemOf(t))
		f := L.method(t, "Step")
		a := newEffects(L)
		deep := map[*eloc]eAt{}
		a.stop = func(f *ssa.Function, via *ectx, at ssa.CallInstruction, args []eset) bool {
			if !calcs[f] {
				return false
			}
			if via.task {
				for _, s := range args[1:] {
					for l := range s {
						if _, ok := deep[l]; !ok {
							deep[l] = eAt{at, via}
							a.changed = true
						}
					}
				}
			}
			return true
		}
		a.run(f, a.entryArgs(f))
		n++
		nt += len(a.tasks)
		c.count("calling contexts", len(a.ctxs))
		for g := range a.nfuncs {
			c.funcs[g.RelString(nil)] = true
		}
		// the points and mutations given to an evaluation are read through the
		// values they are copies of
		deepRefs := map[*eloc]eAt{}
		for l, at := range deep {
			for _, step := range []string{".Points", ".Mutations"} {
				v := eset{}
				a.load(l.child(step), v, map[*eloc]bool{})
				for x := range v {
					deepRefs[x] = at
				}
			}
		}
		if nt > 0 {
			c.need("what tasks of "+nm+" are given", len(deepRefs), 2)
		}
		for _, x := range a.all() {
			at := L.posOf(x.at.Pos())
			if x.ctx.task {
				ok := x.l.root.kind == "new" && x.l.root.ctx != nil && x.l.root.ctx.task
				c.ob("a task writes only variables of its own", nm+" "+at, ok, at, "%s is written (%s)", x.l, x.ctx.chain(L))
				continue
			}
			for _, tk := range a.tasks {
				if tk.up.task || !during(a, tk, x) {
					continue
				}
				for r, m := range a.reads {
					if !(r == x.l || plain(r, x.l)) {
						continue
					}
					for k := range m {
						if inTask(k.ctx, tk) {
							c.ob("nothing a running task reads is written", nm+" "+at, false, at, "%s is written while %s reads it at %s", x.l, tk.f.RelString(nil), L.posOf(k.at.Pos()))
						}
					}
				}
				for r, k := range deepRefs {
					if inTask(k.ctx, tk) && (under(x.l, r) || plain(r, x.l)) {
						c.ob("nothing a running evaluation is given is written", nm+" "+at, false, at, "%s is written while it is being evaluated (%s)", x.l, x.ctx.chain(L))
					}
				}
				c.ob("nothing a running task reads is written", nm+" "+at, true, at, "")
			}
		}
	}
	c.need("algorithms", n, 2)
	c.need("tasks", nt, 2)
}

// plain: r is part of what is stored at l.
func plain(r, l *eloc) bool {
	for x := r; x != nil; x = x.up {
		if x == l {
			return true
		}
		if x.step == "*" {
			return false
		}
	}
	return false
}

func inTask(x, tk *ectx) bool {
	for ; x != nil; x = x.up {
		if x == tk {
			return true
		}
	}
	return false
}

// during tells whether a write may happen after a task was started and before
// the last one was received.
func during(a *effects, tk *ectx, w eWrite) bool {
	recvs := []eAt{}
	for _, c := range a.ctxs {
		if c.task {
			continue
		}
		for _, b := range c.f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						recvs = append(recvs, eAt{in, c})
					}
				case *ssa.Select:
					recvs = append(recvs, eAt{in, c})
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Name() == "Wait" {
						recvs = append(recvs, eAt{in, c})
					}
				}
			}
		}
	}
	if len(recvs) == 0 {
		return true
	}
	steps := func(k eAt) map[*ectx]ssa.Instruction {
		m := map[*ectx]ssa.Instruction{}
		in := k.at
		for x := k.ctx; x != nil; x = x.up {
			m[x] = in
			if x.site != nil {
				in = x.site
			}
		}
		return m
	}
	var start ssa.Instruction = tk.site
	ls := steps(eAt{start, tk.up})
	for _, r := range recvs {
		rs := steps(r)
		in := w.at
		for x := w.ctx; x != nil; x = x.up {
			l, inL := ls[x]
			v, inR := rs[x]
			var avoid ssa.Instruction
			if w.l.root.kind == "new" && w.l.root.ctx == x && w.l.root.at != nil {
				avoid = w.l.root.at
			}
			switch {
			case inL && inR && l == v:
				// inside the call that contains both
				if in == l {
					break
				}
				return false
			case inL && inR:
				if reachesInstr(l, in, avoid) && (in == v || reachesInstr(in, v, nil)) {
					return true
				}
				if in != l && in != v {
					x = nil
				}
			case inL:
				if in != l && reachesInstr(l, in, avoid) {
					return true
				}
			case inR:
				if in != v && reachesInstr(in, v, nil) {
					return true
				}
			}
			if x == nil {
				break
			}
			if x.site != nil {
				in = x.site
			}
		}
	}
	return false
}

// reachesInstr: execution may go from just after a to b without passing avoid.
func reachesInstr(a, b, avoid ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(ins []ssa.Instruction, blk *ssa.BasicBlock) bool
	scan = func(ins []ssa.Instruction, blk *ssa.BasicBlock) bool {
		for _, in := range ins {
			if in == b {
				return true
			}
			if in == avoid {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s.Instrs, s) {
					return true
				}
			}
		}
		return false
	}
	blk := a.Block()
	for i, in := range blk.Instrs {
		if in == a {
			return scan(blk.Instrs[i+1:], blk)
		}
	}
	return false
}

// doubleBuffer: results are filed in a table that no evaluation of the same
// generation was handed.
func doubleBuffer(c *Ctx) {
	L := c.L
	dataT := L.typ("fitness", "CacheData")
	n := 0
	for _, t := range L.implementors(L.typ("algorithm/evaluator", "Evaluator")) {
		nt, u := structOf(t)
		if u == nil {
			continue
		}
		var tabs []int
		for i := 0; i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), types.NewSlice(dataT)) {
				tabs = append(tabs, i)
			}
		}
		hands := false
		for _, f := range L.sourceFuncs() {
			if f.Signature.Recv() != nil && types.Identical(elemOf(f.Signature.Recv().Type()), nt) && callsMethod(f, "SetCache") {
				hands = true
			}
		}
		if !hands {
			continue
		}
		n++
		c.guard("tables of "+typName(nt), func() { swapTables(c, nt, u, tabs) })
	}
	c.need("evaluators that share results", n, 1)
}

func callsMethod(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == name {
				return true
			}
		}
	}
	return false
}

func swapTables(c *Ctx, t types.Type, u *types.Struct, tabs []int) {
	L := c.L
	nm := typName(t)
	dataT := L.typ("fitness", "CacheData")
	e := newEngine(L)
	e.eager = true
	st := newState()
	recv := sym("tables:"+nm, types.NewPointer(t)).(*Ptr)
	i := skolem("tablesMember:" + nm)
	field := func(s *State, j int) *Slice {
		l, _ := s.read(recv.obj, recv.path.with(Step{field: j}), u.Field(j).Type()).(*Slice)
		return l
	}
	var objs []*Obj
	for _, j := range tabs {
		l := field(st, j)
		if l == nil || l.obj == nil {
			panic(undecided("a table is not a list"))
		}
		objs = append(objs, l.obj)
	}
	handed := map[string]bool{}
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.method == nil {
			return nil, false
		}
		switch own := ifaceOwner(ci.method); {
		case strings.HasPrefix(own, "fitness.CacheFunction") && ci.method.Name() == "Cache":
			return []Outcome{{st: st, res: sym("tablesResults:"+nm, types.NewSlice(dataT))}}, true
		case strings.HasPrefix(own, "fitness.CacheFunction") && ci.method.Name() == "SetCache":
			if l, ok := ci.args[1].(*Slice); ok && l.obj != nil {
				handed[l.obj.key] = true
			} else {
				handed["?"] = true
			}
			return []Outcome{{st: st}}, true
		case strings.HasPrefix(own, "fitness.CacheData") && ci.method.Name() == "CachedHash":
			return []Outcome{{st: st, res: app("tablesHash:"+nm, true, symPoly("record"))}}, true
		}
		return nil, false
	}
	e.onStore = func(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
		if types.Identical(t, dataT) && o.array {
			handed[o.key] = true
		}
	}
	update := func(st *State, what string) map[string]bool {
		handed = map[string]bool{}
		f := L.method(t, "Update")
		for range e.execFunc(st, f, []Value{recvArg(st, f, recv), i}, nil, what, nil) {
		}
		return handed
	}
	before := update(st.clone(), nm+".Update")
	f := L.method(t, "Prepare")
	at := L.posOf(f.Pos())
	rets := 0
	for _, o := range e.execFunc(st, f, []Value{recvArg(st, f, recv)}, nil, nm+".Prepare", nil) {
		if o.panicked || o.st.dead {
			continue
		}
		rets++
		seen := map[string]bool{}
		two := true
		for _, j := range tabs {
			l := field(o.st, j)
			if l == nil || l.obj == nil || seen[l.obj.key] {
				two = false
				continue
			}
			seen[l.obj.key] = true
		}
		e.obligation("the tables stay apart", nm, at, two && len(tabs) > 1, "two names for one table")
		after := update(o.st, nm+".Update'")
		for _, k := range sortedKeys(after) {
			e.obligation("results are filed away from what is being read", nm, at, !before[k] && k != "?", "the table in use is written again after %s", f.Name())
		}
		e.obligation("results are filed", nm, at, len(after) > 0 && len(before) > 0, "nothing is filed")
	}
	c.need("returns of Prepare of "+nm, rets, 1)
	c.take(e)

	// made apart
	made := 0
	for _, g := range L.sourceFuncs() {
		if fnPkgPath(g) != t.(*types.Named).Obj().Pkg().Path() || g.Signature.Recv() != nil || g.Parent() != nil || g.Blocks == nil || g.Synthetic != "" {
			continue
		}
		b := newEffects(L)
		b.run(g, b.entryArgs(g))
		for _, r := range sortedRoots(b) {
			if r.kind != "new" || r.typ == nil || !types.Identical(r.typ, t) {
				continue
			}
			made++
			used := eset{}
			for _, j := range tabs {
				v := eset{}
				b.load(r.loc().child("."+u.Field(j).Name()), v, map[*eloc]bool{})
				ok := true
				for x := range v {
					ok = ok && x.root.kind == "new" && !used[x]
				}
				used.add(v)
				c.ob("the tables are made apart", nm+"."+u.Field(j).Name(), ok && len(v) > 0, L.posOf(g.Pos()), "it shares its memory")
			}
		}
	}
	c.need("evaluators of "+nm+" made", made, 1)
}
