package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C01", title: "The best members survive every generation unmutated",
		rule:   "One whole generation of every algorithm, interpreted from an arbitrary valid state: when the members are ranked, an arbitrary member below the cutoff holds the points it held before, and an arbitrary other evaluated member was set to a member below the cutoff and mutated once.",
		assume: stepAssume, run: func(c *Ctx) { checkStep(c, "C01") }})
	register(&Check{id: "C02", title: "Ranking keeps points, fitness and evaluator aligned, and Best is the top rank",
		rule:   "Swap exchanges the fitness, the points and the evaluators of exactly the two members; the order is by descending fitness over all members; after a generation the best group is a separate copy of the first ranked points, the best fitness is its fitness, and the generation count is one more.",
		assume: stepAssume, run: func(c *Ctx) { checkStep(c, "C02"); checkRanking(c) }})
	register(&Check{id: "C03", title: "Every generation waits for each result exactly once and stores it in its slot",
		rule:   "One whole generation of every algorithm: every evaluated member is submitted once; its task sends one result, with its own index and the fitness of its own points; as many results are received as were submitted, each is stored in its own slot, and the channel is closed only when all have arrived; no captured variable and no memory read by a task is written while tasks may run.",
		assume: stepAssume, run: func(c *Ctx) { checkStep(c, "C03"); checkCaptures(c) }})
	register(&Check{id: "C11", title: "Evaluators are told the true base and mutations of every member",
		rule:   "One whole generation of every algorithm: the evaluator is told, for an arbitrary mutated member, the base whose points it was copied from; the mutation list passed to its evaluation is empty before mutation and afterwards holds what the mutation method reported, in order; the member of combined mutations is its base with those mutations applied.",
		assume: stepAssume, run: func(c *Ctx) { checkStep(c, "C11"); checkEvaluators(c, false, true) }})
}

var stepAssume = []string{
	"0 < cutoff and population size >= 2*cutoff",
	"all point groups of one algorithm have the same number of points",
	"the arrays of different members, and of different fields, do not overlap (established by the constructors, see C09)",
	"a mutation method writes only the group it is given and calls its callback any number of times (see C05)",
	"a submitted task runs exactly once and concurrently with everything up to the receipt of its result",
	"sort.Sort permutes its argument by calling Swap until Less is respected",
}

var weakSeq int

// algo describes one implementation of the algorithm interface by the types of its parts.
type algo struct {
	nm                                string
	named                             *types.Named
	st                                *types.Struct
	pop, newPop, fit, mut, best, eval int
	cutoff, stats, mutator            int
	fitF, fitI                        int // fields of the fitness record
	tail                              bool
	ben                               int
}

func structOf(t types.Type) (*types.Named, *types.Struct) {
	n, ok := elemOf(t).(*types.Named)
	if !ok {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func describeAlgo(L *Loaded, t types.Type) *algo {
	n, s := structOf(t)
	a := &algo{nm: typName(n), named: n, st: s, pop: -1, newPop: -1, fit: -1, mut: -1, best: -1, eval: -1, cutoff: -1, stats: -1, mutator: -1, ben: -1}
	group := L.typ("normgeom", "NormPointGroup")
	mutation := L.typ("mutation", "Mutation")
	fd := L.typ("algorithm", "FitnessData")
	var groups []int
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if types.Identical(ft, group) {
				a.best = i
			} else if types.Identical(u.Elem(), group) {
				groups = append(groups, i)
			} else if types.Identical(u.Elem(), fd) {
				a.fit = i
			} else if in, ok := u.Elem().Underlying().(*types.Slice); ok && types.Identical(in.Elem(), mutation) {
				a.mut = i
			} else if st, ok := u.Elem().Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if sl, ok := st.Field(j).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), mutation) {
						a.ben, a.tail = i, true
					}
				}
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				a.cutoff = i
			}
		case *types.Interface:
			if types.Identical(ft, L.typ("algorithm/evaluator", "Evaluator")) {
				a.eval = i
			} else if types.Identical(ft, L.typ("mutation", "Method")) {
				a.mutator = i
			}
		case *types.Struct:
			if types.Identical(ft, L.typ("algorithm", "Stats")) {
				a.stats = i
			}
		}
	}
	fds := fd.Underlying().(*types.Struct)
	for i := 0; i < fds.NumFields(); i++ {
		if isIntType(fds.Field(i).Type()) {
			a.fitI = i
		} else {
			a.fitF = i
		}
	}
	// the population is the field that ranking exchanges
	if len(groups) == 2 {
		e := newEngine(L)
		hit := map[int]bool{}
		sw := L.method(n, "Swap")
		e.onStore = func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
			if o.kind == "init" && o.atom.op == "sel" && len(o.atom.path) > 0 {
				hit[o.atom.path[0].field] = true
			}
		}
		e.execFunc(newState(), sw, symParams(sw), nil, "Swap", nil)
		if hit[groups[0]] != hit[groups[1]] {
			if hit[groups[0]] {
				a.pop, a.newPop = groups[0], groups[1]
			} else {
				a.pop, a.newPop = groups[1], groups[0]
			}
		}
	}
	for what, f := range map[string]int{"population": a.pop, "second population": a.newPop, "fitnesses": a.fit, "mutations": a.mut, "best group": a.best, "evaluator": a.eval, "cutoff": a.cutoff, "statistics": a.stats} {
		if f < 0 {
			panic(undecided("cannot find the " + what + " of " + a.nm))
		}
	}
	return a
}

// stepRun is the interpretation of one generation.
type stepRun struct {
	c      *Ctx
	e      *Engine
	L      *Loaded
	a      *algo
	prop   string
	recv   *Obj
	group  types.Type
	ptT    types.Type
	P      *Poly
	mutT   types.Type
	mutIx  int
	mutNew int
	inTask bool
	track  map[string]bool   // ghosts the property needs
	reads  map[string]string // location class read by tasks -> where
	writes map[string]string // location class written while tasks may run
}

// ob files an obligation of the given property.
func (r *stepRun) ob(prop, rule, at string, ok bool, format string, args ...any) {
	if prop != r.prop {
		return
	}
	r.e.obligation(rule, r.a.nm, at, ok, format, args...)
}

func (r *stepRun) field(s *State, f int) Value {
	return s.read(r.recv, Path{{field: f}}, r.a.st.Field(f).Type())
}

// elem reads element i of the slice field f.
func (r *stepRun) elem(s *State, f int, i *Poly) Value {
	sl := r.field(s, f).(*Slice)
	et := r.a.st.Field(f).Type().Underlying().(*types.Slice).Elem()
	return s.read(sl.obj, Path{{idx: add(sl.off, i)}}, et)
}

func (r *stepRun) point(s *State, g *Slice, k *Poly) *Struct {
	return s.read(g.obj, Path{{idx: add(g.off, k)}}, r.ptT).(*Struct)
}

// entryPoint is the value point k of member i had at the start of the generation.
func (r *stepRun) entryPoint(i, k *Poly) *Struct {
	z := newState()
	return r.point(z, r.elem(z, r.a.pop, i).(*Slice), k)
}

// set updates a ghost that the property needs.
func (r *stepRun) set(s *State, tag, v string) {
	if r.track[tag] {
		s.tags[tag] = v
	}
}

func m0(s *State) *Poly { return s.vals["m"].(*Poly) }
func k0(s *State) *Poly { return s.vals["k"].(*Poly) }

func sameVal(s *State, a, b Value) bool {
	if a.Key() == b.Key() {
		return true
	}
	switch x := a.(type) {
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !sameVal(s, x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case *Poly:
		y, ok := b.(*Poly)
		if !ok {
			return false
		}
		if xa, ya := x.singleAtom(), y.singleAtom(); xa != nil && ya != nil && sameAtom(s, xa, ya) {
			return true
		}
		return s.facts.entails(cEQ(sub(x, y)))
	case *Slice:
		y, ok := b.(*Slice)
		return ok && sameObj(s, x.obj, y.obj) && sameVal(s, x.off, y.off) && sameVal(s, x.len, y.len)
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.a.op != y.a.op || len(x.a.args) != len(y.a.args) || len(x.a.args) == 0 {
			return false
		}
		for i := range x.a.args {
			if !sameVal(s, x.a.args[i], y.a.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// sameAtom reports that two reads are of the same location and content.
func sameAtom(s *State, a, b *Atom) bool {
	if a.op != "sel" || b.op != "sel" || a.ver != b.ver || len(a.path) != len(b.path) || !sameObj(s, a.obj, b.obj) {
		return false
	}
	r, _ := s.pathAlias(a.path, b.path)
	return r == 1
}

func sameObj(s *State, a, b *Obj) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	r, _ := s.objAlias(a, b)
	return r == 1
}

func showVal(v Value) string {
	k := v.Key()
	if len(k) > 120 {
		k = k[:120] + "..."
	}
	return k
}

// sameMember splits on i == m and reports it.
func (r *stepRun) split(st *State, i *Poly) (eq, ne *State) {
	if len(r.track) == 0 {
		return nil, st
	}
	t := st.clone()
	if t.assume(cNE(sub(i, m0(t)))) {
		ne = t
	}
	if st.assume(cEQ(sub(i, m0(st)))) {
		eq = st
	}
	return
}

func getAtom(i Value) *Opaque { return &Opaque{appAtom("evaluator.Get", false, i)} }

func ifaceOwner(m *types.Func) string {
	if m == nil {
		return ""
	}
	rt := m.Type().(*types.Signature).Recv()
	if rt == nil {
		return ""
	}
	return typName(rt.Type())
}

func (r *stepRun) entry() (*State, *Ptr) {
	st := newState()
	p := sym("alg:"+r.a.nm, types.NewPointer(r.a.named)).(*Ptr)
	r.recv = p.obj
	m, k := skolem("m"), skolem("k")
	st.vals["m"], st.vals["k"] = m, k
	ln := func(f int) *Poly { return r.field(st, f).(*Slice).len }
	n := ln(r.a.pop)
	for _, f := range []int{r.a.newPop, r.a.fit, r.a.mut} {
		st.assume(cEQ(sub(ln(f), n)))
	}
	cut := r.field(st, r.a.cutoff).(*Poly)
	st.assume(cGT(cut))
	if r.a.tail {
		st.assume(cEQ(sub(ln(r.a.ben), cut)))
	}
	n = ln(r.a.pop)
	cut = r.field(st, r.a.cutoff).(*Poly)
	st.assume(cGE(sub(n, scale(cut, big.NewRat(2, 1)))))
	st.assume(cGT(sub(n, m)))
	// the distinguished member's groups have P points, k is one of them
	st.vals["P"] = r.P
	st.assume(cGT(sub(st.vals["P"].(*Poly), k)))
	for _, f := range []int{r.a.pop, r.a.newPop} {
		if !r.track["points"] {
			break
		}
		g := r.elem(st, f, m).(*Slice)
		watchCell(st, fmt.Sprintf("points%d", f), g.obj, Path{{idx: add(g.off, k)}}, r.ptT)
	}
	fs := r.field(st, r.a.fit).(*Slice)
	if r.track["fitness"] {
		watchCell(st, "fitness", fs.obj, Path{{idx: add(fs.off, m)}, {field: r.a.fitF}}, types.Typ[types.Float64])
	}
	ms := r.field(st, r.a.mut).(*Slice)
	if r.track["mutations"] {
		watchCell(st, "mutations", ms.obj, Path{{idx: add(ms.off, m)}}, r.a.st.Field(r.a.mut).Type().Underlying().(*types.Slice).Elem())
	}
	for i := range st.watch {
		w := &st.watch[i]
		entry := w.obj.key
		switch {
		case strings.HasPrefix(w.name, "points"):
			mk := k.key
			w.class = func(v Value) string {
				if x, ok := v.(*Poly); ok {
					if a := x.singleAtom(); a != nil && a.op == "sel" && a.ver == "0" && len(a.path) > 0 && a.path[0].idx != nil && a.path[0].idx.key == mk {
						if ga := a.obj.atom; ga != nil && len(ga.path) > 0 && ga.path[len(ga.path)-1].idx != nil && ga.path[len(ga.path)-1].idx.key == m.key {
							return a.obj.key
						}
					}
				}
				return "?"
			}
		case strings.HasPrefix(w.name, "mutations"):
			w.class = func(v Value) string {
				if x, ok := v.(*Slice); ok {
					if c, ok := x.len.isConst(); ok && c.Sign() == 0 {
						return "empty"
					}
				}
				return "?"
			}
		default:
			w.class = func(v Value) string {
				if x, ok := v.(*Poly); ok {
					if a := x.singleAtom(); a != nil && (a.op == "sel" && a.obj.key == entry || a.key == "fit:m") {
						return a.key
					}
				}
				return "?"
			}
		}
	}
	st.nums["submitted"], st.nums["received"] = constInt(0), constInt(0)
	st.tags["sorted"] = "0"
	for t := range r.track {
		st.tags[t] = "0"
	}
	st.vals["gen0"] = s0stat(r, st, "Generation")
	return st, p
}

func s0stat(r *stepRun, s *State, name string) Value {
	t := r.a.st.Field(r.a.stats).Type()
	i := fieldIdx(t, name)
	return s.read(r.recv, Path{{field: r.a.stats}, {field: i}}, t.Underlying().(*types.Struct).Field(i).Type())
}

func newStepRun(c *Ctx, t types.Type, prop string) *stepRun {
	L := c.L
	r := &stepRun{c: c, L: L, a: describeAlgo(L, t), prop: prop, reads: map[string]string{}, writes: map[string]string{}}
	r.track = map[string]bool{}
	for _, t := range map[string][]string{
		"C01": {"points", "sub", "calc", "mutated"},
		"C03": {"sub", "got", "calc", "upd", "prep", "closed", "fitness"},
		"C11": {"points", "mutations", "base", "mutated", "sub", "calc", "rec", "exp", "agree"},
	}[prop] {
		r.track[t] = true
	}
	r.group = L.typ("normgeom", "NormPointGroup")
	r.ptT = L.typ("normgeom", "NormPoint")
	r.mutT = L.typ("mutation", "Mutation")
	r.mutIx, r.mutNew = fieldIdx(r.mutT, "Index"), fieldIdx(r.mutT, "New")
	r.e = newEngine(L)
	r.e.intercept = r.intercept
	r.e.onRecv = r.onRecv
	r.e.onClose = r.onClose
	r.e.onSend = r.onSend
	r.e.onStore = r.onStore
	r.e.onLoad = r.onLoad
	r.e.onAppend = r.onAppend
	r.e.memoForced = true
	P := symAtom("P", true, nil)
	P.lo = ratZero
	r.P = atomPoly(P)
	lenHook = func(t types.Type) *Poly {
		if types.Identical(t, r.ptT) {
			return r.P
		}
		return nil
	}
	var bestFam string
	{
		z := newState()
		p := sym("alg:"+r.a.nm, types.NewPointer(r.a.named)).(*Ptr)
		bestFam = z.read(p.obj, Path{{field: r.a.best}}, r.a.st.Field(r.a.best).Type()).(*Slice).obj.family
	}
	md := L.typ("algorithm", "MutationsData")
	weakHook = func(o *Obj, t types.Type) Value {
		if o.typ == nil || o.kind != "init" && !o.array {
			return nil
		}
		switch {
		case types.Identical(o.typ, r.ptT) && o.array && (prop == "C03" || prop == "C02" && o.family != bestFam && (o.atom == nil || !strings.HasPrefix(o.atom.ver, "ranked"))):
		case types.Identical(o.typ, md):
		case types.Identical(o.typ, types.Typ[types.Int]) && o.array:
		case types.Identical(o.typ, r.mutT) && o.array:
		default:
			return nil
		}
		if t == nil {
			return Nil{}
		}
		weakSeq++
		return leafValue(symAtom(fmt.Sprintf("weak%d", weakSeq), isIntType(t), r.e.scopeSet()), t)
	}
	return r
}

func checkStep(c *Ctx, prop string) {
	L := c.L
	impls := L.implementors(L.typ("algorithm", "Algorithm"))
	c.need("algorithms", len(impls), 2)
	for _, t := range impls {
		if o := os.Getenv("TRISA_ONLY"); o != "" && !strings.Contains(typName(elemOf(t)), o) {
			continue
		}
		c.guard("one generation of "+typName(elemOf(t)), func() {
			r := newStepRun(c, t, prop)
			step := L.method(r.a.named, "Step")
			st, p := r.entry()
			n := 0
			for _, o := range r.e.execFunc(st, step, []Value{p}, nil, "Step", nil) {
				if o.panicked || o.st.dead {
					continue
				}
				n++
				r.atReturn(o.st, L.posOf(step.Pos()))
			}
			c.ob("instances", r.a.nm+" generation returns", n > 0, "", "no path returns")
			for _, k := range []string{"tasks", "sorts", "mutate calls", "bases", "receives"} {
				c.need(k+" seen in "+r.a.nm, r.e.counts[k], 1)
			}
			if prop == "C03" {
				n := 0
				for _, cl := range sortedKeys(r.reads) {
					n++
					if w, bad := r.writes[cl]; bad {
						r.e.obligation("no write to memory a running task reads", r.a.nm+" "+cl, w, false, "%s is read by a task at %s", cl, r.reads[cl])
					} else {
						r.e.obligation("no write to memory a running task reads", r.a.nm+" "+cl, "", true, "")
					}
				}
				c.need("locations read by tasks of "+r.a.nm, n, 1)
			}
			c.take(r.e)
		})
	}
}

// locClass abstracts a location to its access path without indexes.
func locClass(o *Obj, p Path) string {
	s := o.family
	for _, x := range p {
		if x.idx != nil {
			s += "[]"
		} else {
			s += fmt.Sprintf(".%d", x.field)
		}
	}
	return s
}

func (r *stepRun) inFlight(s *State) bool {
	// tasks may be running: some submitted result has not been received
	if c, ok := s.nums["submitted"].isConst(); ok && c.Sign() == 0 {
		return false
	}
	return !s.facts.entails(cEQ(sub(s.nums["submitted"], s.nums["received"])))
}

func (r *stepRun) onLoad(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type) {
	if e.mute == 0 && r.inTask && o.kind != "alloc" {
		r.reads[locClass(o, p)] = e.at(at)
	}
}

func (r *stepRun) onStore(e *Engine, s *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value) {
	if e.mute > 0 || o.kind == "alloc" {
		return
	}
	if r.inTask {
		r.ob("C03", "tasks write no shared memory", e.at(at), false, "a task writes %s", locClass(o, p))
		return
	}
	if r.inFlight(s) {
		r.writes[locClass(o, p)] = e.at(at)
	}
	if s.tags["sorted"] == "1" {
		// after ranking only the best copy and the statistics change
		pop := r.field(s, r.a.pop).(*Slice)
		fit := r.field(s, r.a.fit).(*Slice)
		bad := o == fit.obj || o == pop.obj || strings.HasPrefix(o.family, pop.obj.family+"[]") && o.family != "" && o.kind == "init"
		if o == r.recv && len(p) > 0 && (p[0].field == r.a.pop || p[0].field == r.a.fit) {
			bad = true
		}
		r.ob("C02", "nothing ranked changes after ranking", e.at(at), !bad, "%s is written after the members were ranked", locClass(o, p))
	}
	if r.prop == "C11" && s.tags["mutated"] == "0" && s.tags["base"] != "0" {
		if pt, ok := r.watchedPoint(s, o, p); ok {
			r.agree(s, pt)
		}
	}
}

// watchedPoint reports whether o,p lies in point k of the distinguished member,
// and the value that point has now.
func (r *stepRun) watchedPoint(s *State, o *Obj, p Path) (*Struct, bool) {
	if o.typ == nil || !types.Identical(o.typ, r.ptT) || !o.array || len(p) == 0 || p[0].idx == nil {
		return nil, false
	}
	g := r.elem(s, r.a.pop, m0(s)).(*Slice)
	if !sameObj(s, s.resolve(o, true), g.obj) || !s.ask(cEQ(sub(p[0].idx, add(g.off, k0(s))))) {
		return nil, false
	}
	return r.point(s, g, k0(s)), true
}

// agree notes whether point k is what the last recorded mutation of it says.
func (r *stepRun) agree(s *State, pt *Struct) {
	v := "0"
	if s.tags["exp"] == "1" && sameVal(s, pt, s.vals["exp"]) {
		v = "1"
	}
	s.tags["agree"] = v
}

// onAppend follows the list of the distinguished member's recorded mutations.
func (r *stepRun) onAppend(e *Engine, s *State, at ssa.Instruction, x, res *Slice, vals []Value) {
	if r.prop != "C11" || r.inTask || res.obj == nil || res.obj.typ == nil || !types.Identical(res.obj.typ, r.mutT) || len(vals) != 1 {
		return
	}
	direct := s.tags["mutated"] == "0" && s.tags["pend"] == ""
	if direct && s.tags["base"] == "0" {
		return
	}
	var ok bool
	if s.tags["rec"] == "0" {
		ok = s.facts.entails(cEQ(x.len))
	} else {
		ok = sameVal(s, x, s.vals["seq"])
	}
	if direct {
		if h := r.elem(s, r.a.mut, m0(s)); !ok || !sameVal(s, h, x) {
			return
		}
		s.tags["rec"], s.vals["seq"] = "1", res
		mv := vals[0].(*Struct)
		if s.ask(cEQ(sub(mv.fs[r.mutIx].(*Poly), k0(s)))) {
			s.tags["exp"], s.vals["exp"] = "1", mv.fs[r.mutNew]
			r.agree(s, r.point(s, r.elem(s, r.a.pop, m0(s)).(*Slice), k0(s)))
		}
		return
	}
	if ok && s.tags["pend"] == "1" && sameVal(s, vals[0], s.vals["mut"]) {
		s.tags["rec"], s.vals["seq"], s.tags["pend"] = "1", res, "0"
	}
}

// listOK reports that the list of the distinguished member holds what was recorded for it.
func (r *stepRun) listOK(s *State) bool {
	h := r.elem(s, r.a.mut, m0(s)).(*Slice)
	if s.tags["rec"] == "0" {
		return s.facts.entails(cEQ(h.len))
	}
	return sameVal(s, h, s.vals["seq"])
}

func (r *stepRun) intercept(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
	one := []Outcome{{st: st}}
	at := e.at(ci.instr)
	if ci.callee != nil && fnPkgPath(ci.callee) == "time" {
		return nil, false
	}
	switch ifaceOwner(ci.method) {
	case "algorithm/evaluator.Evaluator":
		if ci.callee != nil {
			break
		}
		switch ci.method.Name() {
		case "Get":
			return []Outcome{{st: st, res: getAtom(ci.args[1])}}, true
		case "SetBase":
			return r.setBase(st, at, ci.args[1].(*Poly), ci.args[2].(*Poly)), true
		case "Prepare":
			if r.inTask {
				break
			}
			e.counts["prepare"]++
			r.ob("C03", "the evaluator is prepared once", at, st.tags["prep"] == "0", "prepared twice in one generation")
			r.set(st, "prep", "1")
			return one, true
		case "Update":
			return r.update(st, at, ci.args[1].(*Poly)), true
		case "Swap":
			r.ob("C02", "evaluators are exchanged only by ranking", at, false, "evaluators exchanged during a generation")
			return one, true
		}
	case "mutation.Method":
		if ci.method.Name() == "Mutate" && ci.callee == nil {
			return r.mutate(st, at, ci), true
		}
	case "fitness.Function", "fitness.CacheFunction":
		if ci.method.Name() == "Calculate" && ci.callee == nil {
			return r.calculate(st, at, ci), true
		}
	}
	if ci.callee != nil {
		p := fnPkgPath(ci.callee)
		if strings.Contains(p, "panjf2000/ants") {
			for _, a := range ci.args {
				if f, ok := a.(*Fn); ok {
					return r.task(st, at, f, nil, ci.ctx), true
				}
			}
		}
		switch ci.name {
		case "sort.Sort", "sort.Stable":
			return r.rank(st, at, ci), true
		}
	}
	return nil, false
}

func (r *stepRun) setBase(st *State, at string, i, b *Poly) []Outcome {
	r.e.counts["bases"]++
	eq, ne := r.split(st, i)
	var out []Outcome
	if ne != nil {
		out = append(out, Outcome{st: ne})
	}
	if eq != nil {
		s := eq
		cut := r.field(s, r.a.cutoff).(*Poly)
		r.ob("C11", "the base given is a survivor", at, s.facts.entails(cGE(b)) && s.facts.entails(cGT(sub(cut, b))), "base %s may not be below the cutoff", b.key)
		if s.tags["sorted"] == "1" {
			r.ob("C11", "bases are given before ranking", at, false, "base set after ranking")
		}
		s.vals["base"] = b
		r.set(s, "base", "1")
		if pre, ok := s.vals["pre"]; ok {
			r.ob("C11", "the base given is the member it was copied from", at, sameVal(s, pre, r.entryPoint(b, k0(s))), "the member holds %s, not the points of base %s", showVal(pre), b.key)
			r.set(s, "base", "ok")
			delete(s.vals, "pre")
			delete(s.vals, "base")
		}
		out = append(out, Outcome{st: s})
	}
	return out
}

// member finds which member's group g is, in the population being built or current.
func (r *stepRun) isMember(s *State, g *Slice, i *Poly) bool {
	for _, f := range []int{r.a.pop, r.a.newPop} {
		if h, ok := r.elem(s, f, i).(*Slice); ok && sameObj(s, h.obj, g.obj) {
			return true
		}
	}
	return false
}

func (r *stepRun) mutate(st *State, at string, ci *CallInfo) []Outcome {
	e := r.e
	e.counts["mutate calls"]++
	g, ok := ci.args[1].(*Slice)
	if !ok || g.obj == nil {
		panic(undecided("mutated group " + ci.args[1].Key()))
	}
	// is it the distinguished member's group?
	var out []Outcome
	for _, s := range e.leaf(st, func(s *State) {
		if g2, ok := rewriteTo(s, g).(*Slice); ok {
			s.resolve(g2.obj, true)
			r.elem(s, r.a.newPop, m0(s))
			r.elem(s, r.a.pop, m0(s))
			r.elem(s, r.a.mut, m0(s))
			r.point(s, g2, k0(s))
		}
	}) {
		g := rewriteTo(s, g).(*Slice)
		mine := r.isMember(s, g, m0(s))
		if mine {
			cut := r.field(s, r.a.cutoff).(*Poly)
			r.ob("C01", "survivors are not mutated", at, s.facts.entails(cGE(sub(m0(s), cut))), "a member below the cutoff may be mutated")
			r.ob("C01", "members are mutated once", at, s.tags["mutated"] == "0", "a member may be mutated twice")
			old := r.field(newState(), r.a.pop).(*Slice)
			cur := r.elem(s, r.a.newPop, m0(s)).(*Slice)
			_ = old
			_ = cur
			pre := r.point(s, g, k0(s))
			fromEntry := r.copiedFrom(s, pre)
			r.ob("C01", "a mutated member starts as a survivor", at, fromEntry != nil && s.facts.entails(cGE(fromEntry)) && s.facts.entails(cGT(sub(cut, fromEntry))), "before mutation the member holds %s, which is not a point of a member below the cutoff", showVal(pre))
			if s.tags["base"] == "1" {
				b := s.vals["base"].(*Poly)
				r.ob("C11", "the base given is the member it was copied from", at, sameVal(s, pre, r.entryPoint(b, k0(s))), "the member holds %s, not the points of base %s", showVal(pre), b.key)
				r.set(s, "base", "ok")
				delete(s.vals, "base")
			} else if s.tags["base"] == "0" {
				s.vals["pre"] = pre
			}
			r.set(s, "mutated", "1")
		}
		// the callback runs any number of times
		cb, ok := ci.args[2].(*Fn)
		if !ok {
			panic(undecided("mutation callback " + ci.args[2].Key()))
		}
		depth := len(s.frames)
		id := "mutate:" + ci.ctx
		body := func(h *State) regionResult {
			var res regionResult
			x := h.clone()
			res.exits = append(res.exits, exitItem{st: x})
			h.vals["mut"] = e.fresh("mutation:"+ci.ctx, r.mutT)
			h.tags["pend"] = "0"
			if mine {
				h.tags["pend"] = "1"
			}
			for _, o := range e.callFn(h, rewriteVal(h, cb), []Value{h.vals["mut"]}, ci.ctx+"/cb") {
				if o.panicked || o.st.dead {
					continue
				}
				s := o.st
				s.frames = s.frames[:depth]
				if mine {
					r.ob("C11", "each reported mutation is recorded", at, s.tags["pend"] == "0", "a reported mutation is not appended to its member's list")
				}
				delete(s.vals, "mut")
				delete(s.tags, "pend")
				res.backs = append(res.backs, s)
			}
			return res
		}
		// the method itself writes the group
		s.havocObj(g.obj, freshVer("mutated", e.scopeSet()))
		if mine {
			rewatch(s, g.obj)
		}
		rr := e.genericLoop(s, id, nil, body)
		for _, x := range rr.exits {
			y := x.st
			if mine {
				y = x.st
			}
			out = append(out, Outcome{st: y})
		}
	}
	return out
}

// copiedFrom returns the member index if v is point k of a member at entry.
func (r *stepRun) copiedFrom(s *State, v *Struct) *Poly {
	x, ok := v.fs[0].(*Poly)
	if !ok {
		return nil
	}
	a := x.singleAtom()
	if a == nil || a.op != "sel" || a.obj.kind != "init" || a.obj.atom.op != "sel" {
		return nil
	}
	ga := a.obj.atom
	pop := r.field(newState(), r.a.pop).(*Slice)
	if !sameObj(s, ga.obj, pop.obj) || len(ga.path) != 1 || ga.path[0].idx == nil {
		return nil
	}
	i := ga.path[0].idx
	if !sameVal(s, v, r.entryPoint(i, k0(s))) {
		return nil
	}
	return i
}

func (r *stepRun) update(st *State, at string, i *Poly) []Outcome {
	r.ob("C03", "the evaluator is prepared before it is updated", at, st.tags["prep"] == "1", "updated before being prepared")
	eq, ne := r.split(st, i)
	var out []Outcome
	if ne != nil {
		out = append(out, Outcome{st: ne})
	}
	if eq != nil {
		r.ob("C03", "the evaluator is updated after the member's result", at, eq.tags["got"] == "1" || eq.tags["calc"] == "1", "updated before the member's result arrived")
		r.ob("C03", "the evaluator is updated once per result", at, eq.tags["upd"] == "0", "updated twice")
		r.set(eq, "upd", "1")
		out = append(out, Outcome{st: eq})
	}
	return out
}

// rewriteTo expresses an older value in the current vocabulary of s.
func rewriteTo(s *State, v Value) Value {
	for _, x := range s.subs {
		v = newRewriter(x.from, x.to).value(v)
	}
	return v
}
func rewriteVal(s *State, v Value) Value { return rewriteTo(s, v) }

// rewatch makes the watched cells of o explicit again.
func rewatch(s *State, o *Obj) {
	ws := s.watch
	s.watch = nil
	for _, w := range ws {
		if w.obj == o {
			l := s.log(o)
			ents := append([]entry(nil), l.ents...)
			ents = append(ents, entry{path: w.path, val: s.baseLeaf(l.base, o, w.path, w.typ)})
			s.heap[o.key] = &Log{obj: o, base: l.base, ents: ents}
		}
	}
	s.watch = ws
}

// calculate is an evaluation, in a task or directly.
func (r *stepRun) calculate(st *State, at string, ci *CallInfo) []Outcome {
	e := r.e
	var out []Outcome
	recv, ok := ci.args[0].(*Opaque)
	if !ok || recv.a.op != "evaluator.Get" {
		panic(undecided("evaluation by " + ci.args[0].Key()))
	}
	pd := ci.args[1].(*Struct)
	pdT := r.L.typ("fitness", "PointsData")
	st.vals["recv"], st.vals["pd"] = recv, pd
	for _, s := range e.leaf(st, func(s *State) {
		i := s.vals["recv"].(*Opaque).a.args[0].(*Poly)
		r.elem(s, r.a.pop, i)
		r.elem(s, r.a.mut, i)
		if !r.inTask {
			r.elem(s, r.a.mut, m0(s))
			r.elem(s, r.a.pop, m0(s))
		}
	}) {
		i := s.vals["recv"].(*Opaque).a.args[0].(*Poly)
		pd := s.vals["pd"].(*Struct)
		delete(s.vals, "recv")
		delete(s.vals, "pd")
		pts, _ := pd.fs[fieldIdx(pdT, "Points")].(*Slice)
		muts, _ := pd.fs[fieldIdx(pdT, "Mutations")].(*Slice)
		pop := r.elem(s, r.a.pop, i).(*Slice)
		ml := r.elem(s, r.a.mut, i).(*Slice)
		r.ob("C03", "a member is evaluated on its own points", at, pts != nil && sameVal(s, pts, pop), "evaluator %s is given %s", i.key, showVal(pd.fs[0]))
		r.ob("C11", "a member is evaluated with its own mutations", at, muts != nil && sameVal(s, muts, ml), "evaluator %s is given the mutations %s", i.key, showVal(pd.fs[1]))
		if r.inTask {
			f := atomPoly(symAtom("fit:"+ci.ctx, false, e.scopeSet()))
			r.ob("C03", "one evaluation per task", at, s.tags["calcs"] == "", "a task evaluates twice")
			s.tags["calcs"] = "1"
			s.vals["taskI"], s.vals["taskF"] = i, f
			out = append(out, Outcome{st: s, res: f})
			continue
		}
		r.ob("C03", "direct evaluations do not overlap running tasks", at, !r.inFlight(s), "evaluates while tasks may run")
		eq, ne := r.split(s, i)
		if ne != nil {
			out = append(out, Outcome{st: ne, res: e.fresh("fit:"+ci.ctx, types.Typ[types.Float64])})
		}
		if eq != nil {
			s := eq
			r.ob("C03", "a member is evaluated once", at, s.tags["sub"] == "0" && s.tags["calc"] == "0", "evaluated twice in one generation")
			r.set(s, "calc", "1")
			f := atomPoly(symAtom("fit:m", false, nil))
			s.vals["F"] = f
			r.combined(s, at)
			out = append(out, Outcome{st: s, res: f})
		}
	}
	return out
}

// combined judges the member of combined mutations when it is evaluated.
func (r *stepRun) combined(s *State, at string) {
	if r.prop != "C11" {
		return
	}
	b, ok := s.vals["base"].(*Poly)
	r.ob("C11", "the combined member has a base", at, ok && s.tags["base"] == "1", "evaluated without a base")
	if !ok || s.tags["base"] != "1" {
		return
	}
	for _, x := range r.e.leaf(s.clone(), func(x *State) {
		r.point(x, r.elem(x, r.a.pop, m0(x)).(*Slice), k0(x))
		r.point(x, r.elem(x, r.a.pop, b).(*Slice), k0(x))
		r.elem(x, r.a.mut, m0(x))
	}) {
		r.ob("C11", "the list given is what was applied", at, r.listOK(x), "the list given is %s (recorded: %s)", showVal(r.elem(x, r.a.mut, m0(x))), x.tags["rec"])
		if x.tags["exp"] == "1" {
			r.ob("C11", "the combined member holds its listed mutations", at, x.tags["agree"] == "1", "a point with a listed mutation is not at the mutation's new position")
			continue
		}
		v := r.point(x, r.elem(x, r.a.pop, m0(x)).(*Slice), k0(x))
		w := r.point(x, r.elem(x, r.a.pop, b).(*Slice), k0(x))
		r.ob("C11", "the combined member is otherwise its base", at, sameVal(x, v, w), "a point without a listed mutation is %s, the base's is %s", showVal(v), showVal(w))
	}
}

func (r *stepRun) task(st *State, at string, f *Fn, args []Value, ctx string) []Outcome {
	e := r.e
	e.counts["tasks"]++
	r.ob("C03", "tasks start before results are awaited", at, st.tags["closed"] == "0", "a task starts after the results were closed")
	c := st.clone()
	r.inTask = true
	c.tags["sends"] = "0"
	outs := e.callFn(c, f, args, ctx+"/task")
	r.inTask = false
	var idx *Poly
	okAll := len(outs) > 0
	for _, o := range outs {
		s := o.st
		if s.dead {
			continue
		}
		r.ob("C03", "a task delivers one result", at, !o.panicked && s.tags["sends"] == "1", "a task may end without sending exactly one result")
		if o.panicked || s.tags["sends"] != "1" {
			okAll = false
			continue
		}
		i := s.vals["sentI"].(*Poly)
		ti, _ := s.vals["taskI"].(*Poly)
		tf, _ := s.vals["taskF"].(*Poly)
		r.ob("C03", "a task delivers its own member's fitness", at, ti != nil && sameVal(s, ti, i) && sameVal(s, tf, s.vals["sentF"]), "the result carries index %s and fitness %s", i.key, showVal(s.vals["sentF"]))
		idx = i
	}
	if !okAll || idx == nil {
		idx = atomPoly(symAtom("task?:"+ctx, true, e.scopeSet()))
	}
	eq, ne := r.split(st, idx)
	var out []Outcome
	inc := func(s *State) {
		s.nums["submitted"] = addInt(s.nums["submitted"], 1)
	}
	if ne != nil {
		inc(ne)
		out = append(out, Outcome{st: ne, res: Nil{}})
	}
	if eq != nil {
		r.ob("C03", "a member is evaluated once", at, eq.tags["sub"] == "0" && eq.tags["calc"] == "0", "submitted twice in one generation")
		inc(eq)
		r.set(eq, "sub", "1")
		eq.vals["F"] = atomPoly(symAtom("fit:m", false, nil))
		cut := r.field(eq, r.a.cutoff).(*Poly)
		if eq.tags["mutated"] == "0" {
			r.ob("C01", "only survivors are evaluated unmutated", at, eq.facts.entails(cGT(sub(cut, m0(eq)))), "a member past the cutoff (%s) is evaluated without having been mutated %s", cut.key, factsStr(eq))
		} else {
			r.ob("C11", "mutated members have the right base", at, eq.tags["base"] == "ok", "a mutated member is evaluated without having been given its base")
		}
		if r.prop == "C11" {
			for _, x := range e.leaf(eq.clone(), func(x *State) { r.elem(x, r.a.mut, m0(x)) }) {
				r.ob("C11", "the list given is what was reported", at, r.listOK(x), "the list given is %s (recorded: %s)", showVal(r.elem(x, r.a.mut, m0(x))), x.tags["rec"])
			}
		}
		r.survivor(eq, at)
		out = append(out, Outcome{st: eq, res: Nil{}})
	}
	return out
}

// survivor judges the points of the distinguished member if it is below the cutoff.
func (r *stepRun) survivor(s *State, at string) {
	cut := r.field(s, r.a.cutoff).(*Poly)
	if s.facts.entails(cGE(sub(m0(s), cut))) {
		return
	}
	for _, x := range r.e.leaf(s.clone(), func(x *State) {
		x.ask(cGT(sub(r.field(x, r.a.cutoff).(*Poly), m0(x))))
		r.point(x, r.elem(x, r.a.pop, m0(x)).(*Slice), k0(x))
	}) {
		if !x.facts.entails(cGT(sub(r.field(x, r.a.cutoff).(*Poly), m0(x)))) {
			continue
		}
		g := r.elem(x, r.a.pop, m0(x)).(*Slice)
		v := r.point(x, g, k0(x))
		r.ob("C01", "survivors keep their points", at, sameVal(x, v, r.entryPoint(m0(x), k0(x))), "a point of a member below the cutoff becomes %s", showVal(v))
		r.ob("C01", "survivors keep their size", at, x.facts.entails(cEQ(sub(g.len, r.P))), "the group has %s points", g.len.key)
		r.ob("C11", "survivors are not rebased", at, x.tags["base"] == "0", "a survivor is given a base")
	}
}

func (r *stepRun) onSend(e *Engine, s *State, at *ssa.Send, ch, v Value) {
	if !r.inTask {
		panic(undecided("send outside a task at " + e.at(at)))
	}
	x, ok := v.(*Struct)
	if !ok {
		panic(undecided("result sent is " + v.Key()))
	}
	var iv, fv *Poly
	st, ok := at.X.Type().Underlying().(*types.Struct)
	if !ok {
		panic(undecided("result sent is not a record"))
	}
	for i := 0; i < st.NumFields(); i++ {
		if isIntType(st.Field(i).Type()) {
			iv, _ = x.fs[i].(*Poly)
		} else if isNumType(st.Field(i).Type()) {
			fv, _ = x.fs[i].(*Poly)
		}
	}
	if iv == nil || fv == nil {
		panic(undecided("result sent has no index and fitness"))
	}
	if s.tags["sends"] == "0" {
		s.tags["sends"] = "1"
	} else {
		s.tags["sends"] = "many"
	}
	s.vals["sentI"], s.vals["sentF"] = iv, fv
}

func (r *stepRun) onRecv(e *Engine, st *State, at *ssa.UnOp, ch Value) []Outcome {
	if e.mute == 0 {
		e.counts["receives"]++
	}
	rt := at.Type()
	if at.CommaOk {
		rt = rt.(*types.Tuple).At(0).Type()
	}
	sty, ok := rt.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("received value is not a record"))
	}
	mk := func(i, f *Poly) Value {
		fs := make([]Value, sty.NumFields())
		for j := range fs {
			if isIntType(sty.Field(j).Type()) {
				fs[j] = i
			} else if isNumType(sty.Field(j).Type()) {
				fs[j] = f
			} else {
				fs[j] = e.fresh(fmt.Sprintf("recv%d:%s", j, e.at(at)), sty.Field(j).Type())
			}
		}
		v := Value(mkStruct(fs))
		if at.CommaOk {
			v = mkStruct([]Value{v, cTrue})
		}
		return v
	}
	var out []Outcome
	fresh := func(s *State) Value {
		i := e.fresh("recvI:"+e.at(at), types.Typ[types.Int]).(*Poly)
		if x := i.singleAtom(); x != nil {
			x.lo = ratZero
		}
		s.vals["recvI"] = i
		return mk(i, e.fresh("recvF:"+e.at(at), types.Typ[types.Float64]).(*Poly))
	}
	if !r.track["got"] {
		// any result, or the end
		a := st.clone()
		v := fresh(a)
		delete(a.vals, "recvI")
		out = append(out, Outcome{st: a, res: v})
		if at.CommaOk {
			out = append(out, Outcome{st: st, res: mkStruct([]Value{zeroValue(rt), cFalse})})
		}
		return out
	}
	// a result is there
	a := st.clone()
	if a.assume(cGT(sub(a.nums["submitted"], a.nums["received"]))) {
		inc := func(s *State) { s.nums["received"] = addInt(s.nums["received"], 1) }
		b := a.clone()
		// another member's
		v := fresh(b)
		i := b.vals["recvI"].(*Poly)
		delete(b.vals, "recvI")
		if b.assume(cNE(sub(i, m0(b)))) {
			live := true
			if b.tags["sub"] == "1" && b.tags["got"] == "0" {
				live = b.assume(cGT(addInt(sub(b.nums["submitted"], b.nums["received"]), -1)))
			}
			inc(b)
			if live {
				out = append(out, Outcome{st: b, res: v})
			}
		}
		if a.tags["sub"] == "1" && a.tags["got"] == "0" {
			inc(a)
			r.set(a, "got", "1")
			out = append(out, Outcome{st: a, res: mk(m0(a), a.vals["F"].(*Poly))})
		}
	}
	// nothing left
	if st.assume(cEQ(sub(st.nums["submitted"], st.nums["received"]))) {
		closed := st.tags["closed"] == "1"
		r.ob("C03", "no result is awaited that was not submitted", e.at(at), closed, "waits for another result although every submitted one has arrived")
		if closed {
			v := zeroValue(rt)
			if at.CommaOk {
				v = mkStruct([]Value{v, cFalse})
			}
			out = append(out, Outcome{st: st, res: v})
		}
	}
	return out
}

func (r *stepRun) onClose(e *Engine, s *State, at ssa.Instruction, ch Value) {
	r.ob("C03", "results are closed only when all have arrived", e.at(at), s.facts.entails(cEQ(sub(s.nums["submitted"], s.nums["received"]))), "closed while results may be outstanding")
	r.ob("C03", "results are closed once", e.at(at), s.tags["closed"] == "0", "closed twice")
	r.set(s, "closed", "1")
}

// rank is the call that sorts the members.
func (r *stepRun) rank(st *State, at string, ci *CallInfo) []Outcome {
	e := r.e
	e.counts["sorts"]++
	v := ci.args[0]
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	p, ok := v.(*Ptr)
	r.ob("C02", "the members themselves are ranked", at, ok && p.obj == r.recv && len(p.path) == 0, "sorts %s", showVal(v))
	r.ob("C02", "members are ranked once", at, st.tags["sorted"] == "0", "ranked twice")
	r.ob("C03", "all results have arrived before ranking", at, st.facts.entails(cEQ(sub(st.nums["submitted"], st.nums["received"]))), "ranks while results may be outstanding")
	r.ob("C03", "the evaluator is prepared once", at, st.tags["prep"] == "1", "never prepared in a generation")
	var out []Outcome
	for _, s := range e.leaf(st, func(s *State) {
		r.elem(s, r.a.fit, m0(s))
		r.point(s, r.elem(s, r.a.pop, m0(s)).(*Slice), k0(s))
	}) {
		r.survivor(s, at)
		fv := r.elem(s, r.a.fit, m0(s)).(*Struct).fs[r.a.fitF].(*Poly)
		switch {
		case s.tags["sub"] == "1" || s.tags["calc"] == "1":
			F, _ := s.vals["F"].(*Poly)
			r.ob("C03", "each result is stored in its member's slot", at, F != nil && sameVal(s, fv, F), "the member's fitness is %s when it is ranked", fv.key)
			r.ob("C03", "the evaluator is updated once per result", at, s.tags["upd"] == "1", "a member's evaluator is not updated with its result")
		default:
			r.ob("C03", "members without an evaluation rank last", at, s.facts.entails(cGE(neg(fv))), "a member that was not evaluated has fitness %s", fv.key)
			cut := r.field(s, r.a.cutoff).(*Poly)
			r.ob("C03", "every survivor is evaluated", at, s.facts.entails(cGE(sub(m0(s), cut))), "a survivor is not evaluated")
		}
		// afterwards the members are in an unknown order
		n := r.field(s, r.a.pop).(*Slice)
		f := r.field(s, r.a.fit).(*Slice)
		for _, o := range []*Obj{n.obj, f.obj} {
			s.heap[o.key] = &Log{obj: o, base: freshVer("ranked", e.scopeSet())}
		}
		for _, fld := range []int{r.a.pop, r.a.newPop} {
			fam := r.elem(newState(), fld, constInt(0)).(*Slice).obj.family
			for k, l := range s.heap {
				if l.obj.family == fam {
					delete(s.heap, k)
				}
			}
			s.fam[fam] = freshVer("ranked", e.scopeSet())
		}
		s.watch = nil
		s.tags["sorted"] = "1"
		s.vals["n"] = f.len
		out = append(out, Outcome{st: s})
	}
	return out
}

func (r *stepRun) atReturn(st *State, at string) {
	r.ob("C02", "members are ranked once", at, st.tags["sorted"] == "1", "a generation ends without ranking")
	r.ob("C03", "all results have arrived before ranking", at, st.facts.entails(cEQ(sub(st.nums["submitted"], st.nums["received"]))), "a generation ends while results may be outstanding")
	if st.tags["sorted"] != "1" {
		return
	}
	for _, s := range r.e.leaf(st, func(s *State) {
		top := r.elem(s, r.a.pop, constInt(0)).(*Slice)
		b := r.field(s, r.a.best).(*Slice)
		if !s.ask(cGT(sub(b.len, k0(s)))) {
			return
		}
		r.point(s, top, k0(s))
		r.point(s, b, k0(s))
		r.elem(s, r.a.fit, constInt(0))
		s0stat(r, s, "BestFitness")
		s0stat(r, s, "Generation")
	}) {
		top := r.elem(s, r.a.pop, constInt(0)).(*Slice)
		b := r.field(s, r.a.best).(*Slice)
		r.ob("C02", "the best group is a copy", at, !sameObj(s, b.obj, top.obj), "the best group shares its array with the first member")
		r.ob("C02", "the best group has the size of the first member", at, sameVal(s, b.len, top.len), "%s points against %s", b.len.key, top.len.key)
		if s.facts.entails(cGT(sub(b.len, k0(s)))) {
			r.ob("C02", "the best group equals the first member", at, sameVal(s, r.point(s, b, k0(s)), r.point(s, top, k0(s))), "a point of the best group is %s", showVal(r.point(s, b, k0(s))))
		}
		ff := r.elem(s, r.a.fit, constInt(0)).(*Struct).fs[r.a.fitF]
		bf := s0stat(r, s, "BestFitness")
		r.ob("C02", "the best fitness is the first member's", at, sameVal(s, bf, ff), "the best fitness is %s", showVal(bf))
		g := s0stat(r, s, "Generation").(*Poly)
		r.ob("C02", "the generation count grows by one", at, sameVal(s, g, addInt(s.vals["gen0"].(*Poly), 1)), "the count becomes %s", g.key)
	}
}

func factsStr(s *State) string {
	var b []string
	for _, c := range s.facts.cs {
		b = append(b, c.Key())
	}
	return strings.Join(b, " ")
}
