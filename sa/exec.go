package main

// The abstract interpreter: trace-partitioned execution of SSA functions with
// calls inlined and loops summarised by a fixpoint over a generic iteration.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st       *State
	res      Value // nil, a value, or a Struct for several results
	panicked bool
}

type CallInfo struct {
	instr  ssa.CallInstruction
	callee *ssa.Function // static callee or known closure
	method *types.Func   // interface method
	fnVal  Value         // dynamic function value
	args   []Value       // receiver first
	ctx    string
	name   string // printable callee name
}

type Engine struct {
	mergeWatch bool              // do not keep loop traces apart by the watched cells
	minmax     bool              // numbers that are clamped by branches become minima and maxima
	noIdle     func(*State) bool // analyse the loop by induction although it changes nothing
	unroll     bool              // follow loops of a few constant rounds round by round
	ratios     []int64           // try invariants where one count is this many times another
	memoForced bool              // reuse what earlier runs of a loop found to change
	noMerge    bool              // keep all traces of a loop-free function apart
	truncSplit bool              // keep the signs of truncated numbers apart
	eager      bool              // start a round of a loop again as soon as something turns out to change
	busyLoops  map[string]bool
	forced     map[string]map[string]map[string]bool
	L          *Loaded
	intercept  func(e *Engine, st *State, c *CallInfo) ([]Outcome, bool)
	onStore    func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type, v Value)
	onRange    func(e *Engine, st *State, at ssa.Instruction, dst *Obj, lo, n *Poly, src *Obj, sOff *Poly)
	onLoad     func(e *Engine, st *State, at ssa.Instruction, o *Obj, p Path, t types.Type)
	onSend     func(e *Engine, st *State, at *ssa.Send, ch, v Value)
	onRecv     func(e *Engine, st *State, at *ssa.UnOp, ch Value) []Outcome
	onAppend   func(e *Engine, st *State, at ssa.Instruction, x, res *Slice, vals []Value)
	onClose    func(e *Engine, st *State, at ssa.Instruction, ch Value)
	onPanic    func(e *Engine, st *State, at ssa.Instruction)
	onGo       func(e *Engine, st *State, at ssa.Instruction, c *CallInfo)
	rounds     int                                   // loops entered so far
	outer      bool                                  // the round that is done entered another loop
	onBack     func(e *Engine, st *State, id string) // a round of a loop is done; may not ask
	onAlloc    func(e *Engine, st *State, o *Obj, zero bool)
	onIndex    func(e *Engine, st *State, at ssa.Instruction, idx, ln *Poly)
	mute       int // >0 while a loop is being iterated to its fixpoint
	loops      []string
	active     map[*ssa.Function]int
	steps      int
	maxSteps   int
	conds      map[string]map[string]*Poly // loop id -> branch polynomials
	funcs      map[string]bool
	counts     map[string]int
	seenOb     map[string]bool
	obs        map[string]*Ob
	obOrder    []string
	trace      bool
	curPos     string
}

func newEngine(l *Loaded) *Engine {
	weakHook, lenHook, idealConv = nil, nil, false
	return &Engine{L: l, active: map[*ssa.Function]int{}, maxSteps: 3000000,
		conds: map[string]map[string]*Poly{}, funcs: map[string]bool{}, counts: map[string]int{}, seenOb: map[string]bool{}, obs: map[string]*Ob{}}
}

// obligation records that a rule holds, or not, of a construct on the current trace.
func (e *Engine) obligation(rule, construct, at string, ok bool, format string, a ...any) bool {
	if e.mute > 0 {
		return ok
	}
	k := rule + "|" + construct
	o := e.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct, OK: true, At: at}
		e.obs[k] = o
		e.obOrder = append(e.obOrder, k)
	}
	if !ok && o.OK {
		o.OK, o.At, o.Detail = false, at, fmt.Sprintf(format, a...)
	}
	return ok
}

func (e *Engine) at(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := i.Pos()
	if p == token.NoPos {
		// nearest positioned instruction in the block
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos() != token.NoPos {
					p = x.Pos()
				}
				if x == i && p != token.NoPos {
					break
				}
			}
		}
	}
	fn := ""
	if i.Parent() != nil {
		fn = shortFn(i.Parent())
	}
	return e.L.posOf(p) + " (" + fn + ")"
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

// leaf runs an atomic operation, forking the trace when it needs a decision.
func (e *Engine) leaf(st *State, f func(s *State)) []*State {
	var out []*State
	work := []*State{st}
	for n := 0; len(work) > 0; n++ {
		if n > 400 {
			if debugDrop {
				for _, x := range work {
					for _, c := range x.facts.cs {
						fmt.Fprint(os.Stderr, " ", c.Key())
					}
					fmt.Fprintln(os.Stderr)
				}
			}
			panic(undecided("too many case splits in one operation at " + e.curPos))
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.dead {
			continue
		}
		c := tryOp(s, f)
		if c == nil {
			if !s.dead {
				out = append(out, s)
			}
			continue
		}
		t := s.clone()
		if t.assume(c.not()) {
			work = append(work, t)
		}
		if s.assume(c) {
			work = append(work, s)
		}
	}
	return out
}

func tryOp(s *State, f func(s *State)) (c *Cond) {
	defer func() {
		if r := recover(); r != nil {
			if sp, ok := r.(splitNeeded); ok {
				c = sp.c
				return
			}
			panic(r)
		}
	}()
	f(s)
	return nil
}

// ---- functions

func (e *Engine) execFunc(st *State, fn *ssa.Function, args, binds []Value, ctx string, call ssa.CallInstruction) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(undecided("no body: " + fn.String()))
	}
	if e.active[fn] > 1 || len(st.frames) > 40 {
		panic(undecided("recursion at " + fn.String()))
	}
	e.active[fn]++
	defer func() { e.active[fn]-- }()
	e.funcs[shortFn(fn)] = true
	f := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]Value{}, binds: binds, call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.env[v] = binds[i]
		}
	}
	st.frames = append(st.frames, f)
	depth := len(st.frames)
	r := e.region(fn, nil, fn.Blocks[0], []item{{st: st}}, ctx)
	for i := range r.rets {
		s := r.rets[i].st
		s.frames = s.frames[:depth-1]
	}
	if e.minmax && !e.noMerge && len(r.rets) > 1 {
		return joinReturns(r.rets)
	}
	return r.rets
}

// joinReturns joins pairs of returns that differ only in a result that is the
// smaller (or the larger) of two numbers on both.
func joinReturns(rets []Outcome) []Outcome {
	var out []Outcome
	for _, r := range rets {
		joined := false
		for i := range out {
			if joinReturn(&out[i], r) {
				joined = true
				break
			}
		}
		if !joined {
			out = append(out, r)
		}
	}
	return out
}

func joinReturn(x *Outcome, y Outcome) bool {
	if x.panicked || y.panicked || len(x.st.subs) != len(y.st.subs) {
		return false
	}
	p, ok1 := x.res.(*Poly)
	q, ok2 := y.res.(*Poly)
	if !ok1 || !ok2 || p.integral() != q.integral() || x.st.frameSig() != y.st.frameSig() {
		return false
	}
	op := ""
	switch fx, fy := x.st.facts, y.st.facts; {
	case fx.entails(cGE(sub(p, q))) && fy.entails(cGE(sub(q, p))):
		op = "max"
	case fx.entails(cGE(sub(q, p))) && fy.entails(cGE(sub(p, q))):
		op = "min"
	default:
		return false
	}
	nf := newFacts()
	for _, c := range x.st.facts.cs {
		if y.st.facts.entails(c) {
			nf.add(c)
		}
	}
	for _, c := range y.st.facts.cs {
		if x.st.facts.entails(c) {
			nf.add(c)
		}
	}
	x.st.facts = nf
	x.res = extremum(op, p.integral(), p, q)
	return true
}

// frameSig describes everything a state knows besides its facts.
func (s *State) frameSig() string {
	var sb strings.Builder
	for _, f := range s.frames {
		var ks []string
		for v, x := range f.env {
			ks = append(ks, v.Name()+"="+x.Key())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ";") + "\n")
	}
	sb.WriteString(s.sig())
	return sb.String()
}

type item struct {
	st   *State
	pred *ssa.BasicBlock
}
type exitItem struct {
	st       *State
	from, to *ssa.BasicBlock
}
type regionResult struct {
	rets  []Outcome
	backs []*State
	exits []exitItem
}

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*natLoop // by header
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// liveness
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						for i, p := range s.Preds {
							if p == b {
								live[phi.Edges[i]] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					live[in.(ssa.Value)] = true // phis are set on the edge
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

func (s *State) liveSig(b *ssa.BasicBlock, fi *fnInfo) string {
	var sb strings.Builder
	env := s.top().env
	live := fi.liveIn[b]
	var ks []string
	for v := range live {
		if x, ok := env[v]; ok {
			ks = append(ks, v.Name()+"="+x.Key())
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(k + ";")
	}
	sb.WriteString("\n")
	// callers' frames are the same unless rewritten
	for _, f := range s.frames[:len(s.frames)-1] {
		var ks []string
		for v, x := range f.env {
			ks = append(ks, v.Name()+"="+x.Key())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ";") + "\n")
	}
	sb.WriteString(s.sig())
	return sb.String()
}

// merge joins states that agree on everything but facts.
func (e *Engine) mergeStates(items []item, b *ssa.BasicBlock, fi *fnInfo) []item {
	if e.noMerge {
		return items
	}
	if len(items) < 2 {
		return items
	}
	if e.minmax {
		items = mergeClamps(items, b, fi)
	}
	groups := map[string][]item{}
	var order []string
	for _, it := range items {
		k := it.st.liveSig(b, fi)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out []item
	for _, k := range order {
		g := groups[k]
		// drop exact duplicates of facts
		var uniq []item
		seen := map[string]bool{}
		for _, it := range g {
			fk := strings.Join(sortedKeys(it.st.facts.set), ";")
			if !seen[fk] {
				seen[fk] = true
				uniq = append(uniq, it)
			}
		}
		if len(uniq) > 1 {
			// keep the constraints every trace satisfies
			base := uniq[0].st
			// substitutions made on only some traces are no longer common:
			// there they are equalities
			n := len(base.subs)
			for _, it := range uniq[1:] {
				m := 0
				for m < n && m < len(it.st.subs) && it.st.subs[m].from == base.subs[m].from && it.st.subs[m].to.key == base.subs[m].to.key {
					m++
				}
				n = m
			}
			for _, it := range uniq {
				for _, x := range it.st.subs[n:] {
					it.st.facts.add(cEQ(sub(atomPoly(x.from), x.to)))
				}
			}
			nf := newFacts()
			seenC := map[string]bool{}
			for _, it := range uniq {
				for _, c := range it.st.facts.cs {
					if seenC[c.Key()] {
						continue
					}
					seenC[c.Key()] = true
					ok := true
					for _, jt := range uniq {
						if !jt.st.facts.entails(c) {
							ok = false
							break
						}
					}
					if ok {
						nf.add(c)
					}
				}
			}
			base.facts = nf
			base.subs = base.subs[:n]
			uniq = uniq[:1]
		}
		out = append(out, uniq...)
	}
	return out
}

// mergeClamps joins pairs of traces that differ only in a number that is the
// smaller (or the larger) of two on both.
func mergeClamps(items []item, b *ssa.BasicBlock, fi *fnInfo) []item {
	var out []item
	for _, it := range items {
		joined := false
		for i := range out {
			if joinClamp(out[i].st, it.st, b, fi) {
				joined = true
				break
			}
		}
		if !joined {
			out = append(out, it)
		}
	}
	return out
}

// extremum is the minimum or maximum of two numbers, in normal form.
func extremum(op string, integer bool, ps ...*Poly) *Poly {
	m := map[string]*Poly{}
	var put func(p *Poly)
	put = func(p *Poly) {
		if len(p.terms) == 1 && p.terms[0].c.Cmp(one) == 0 {
			if vs := p.terms[0].vars; len(vs) == 1 && vs[0].e == 1 && vs[0].a.op == op {
				for _, x := range vs[0].a.args {
					put(x.(*Poly))
				}
				return
			}
		}
		m[p.key] = p
	}
	for _, p := range ps {
		put(p)
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var args []Value
	for _, k := range ks {
		args = append(args, m[k])
	}
	if len(args) == 1 {
		return args[0].(*Poly)
	}
	return atomPoly(appAtom(op, integer, args...))
}

func joinClamp(x, y *State, b *ssa.BasicBlock, fi *fnInfo) bool {
	var at ssa.Value
	ex, ey := x.top().env, y.top().env
	for v := range fi.liveIn[b] {
		vx, vy := ex[v], ey[v]
		if (vx == nil) != (vy == nil) {
			return false
		}
		if vx == nil || vx.Key() == vy.Key() {
			continue
		}
		if at != nil {
			return false
		}
		at = v
	}
	if at == nil {
		return false
	}
	p, ok1 := ex[at].(*Poly)
	q, ok2 := ey[at].(*Poly)
	if !ok1 || !ok2 {
		return false
	}
	op := ""
	switch {
	case x.facts.entails(cGE(sub(p, q))) && y.facts.entails(cGE(sub(q, p))):
		op = "max"
	case x.facts.entails(cGE(sub(q, p))) && y.facts.entails(cGE(sub(p, q))):
		op = "min"
	default:
		return false
	}
	// everything else must agree
	ex[at], ey[at] = constInt(0), constInt(0)
	same := x.liveSig(b, fi) == y.liveSig(b, fi) && len(x.subs) == len(y.subs)
	ex[at], ey[at] = p, q
	if !same {
		return false
	}
	v := extremum(op, isIntType(at.Type()), p, q)
	nf := newFacts()
	for _, c := range x.facts.cs {
		if y.facts.entails(c) {
			nf.add(c)
		}
	}
	for _, c := range y.facts.cs {
		if x.facts.entails(c) {
			nf.add(c)
		}
	}
	x.facts = nf
	ex[at] = v
	return true
}

// region executes the blocks of a function (loop nil) or of one loop body.
func (e *Engine) region(fn *ssa.Function, loop *natLoop, start *ssa.BasicBlock, items []item, ctx string) regionResult {
	fi := infoOf(fn)
	var res regionResult
	pending := map[*ssa.BasicBlock][]item{start: items}
	first := true
	goTo := func(st *State, from, to *ssa.BasicBlock) {
		if st.dead {
			return
		}
		if loop != nil && to == loop.header {
			assignPhis(st, from, to)
			res.backs = append(res.backs, st)
			return
		}
		if loop != nil && !loop.body[to] {
			res.exits = append(res.exits, exitItem{st, from, to})
			return
		}
		pending[to] = append(pending[to], item{st, from})
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fi.rpo[x] < fi.rpo[b] {
				b = x
			}
		}
		its := pending[b]
		delete(pending, b)
		isStart := first && b == start
		first = false
		if !(isStart && loop != nil) {
			for _, it := range its {
				if it.pred != nil {
					assignPhis(it.st, it.pred, b)
				}
			}
		}
		its = e.mergeStates(its, b, fi)
		if len(its) > 600 {
			panic(undecided(fmt.Sprintf("too many traces (%d) at %s", len(its), shortFn(fn))))
		}
		for _, it := range its {
			if it.st.dead {
				continue
			}
			if l := fi.loops[b]; l != nil && (loop == nil || l != loop) {
				r := e.runLoop(it.st, fn, l, ctx)
				res.rets = append(res.rets, r.rets...)
				for _, x := range r.exits {
					goTo(x.st, x.from, x.to)
				}
				continue
			}
			states := []*State{it.st}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if len(states) == 0 {
					break
				}
				e.steps += len(states)
				if e.steps > e.maxSteps {
					panic(undecided("analysis budget exhausted in " + shortFn(fn)))
				}
				switch in := in.(type) {
				case *ssa.Jump:
					for _, s := range states {
						goTo(s, b, b.Succs[0])
					}
				case *ssa.If:
					for _, s := range states {
						e.branch(s, in, b, goTo)
					}
				case *ssa.Return:
					for _, s := range states {
						var rv Value
						switch len(in.Results) {
						case 0:
						case 1:
							rv = e.val(s, in.Results[0])
						default:
							var fs []Value
							for _, r := range in.Results {
								fs = append(fs, e.val(s, r))
							}
							rv = mkStruct(fs)
						}
						res.rets = append(res.rets, Outcome{st: s, res: rv})
					}
				case *ssa.Panic:
					for _, s := range states {
						if e.onPanic != nil {
							e.onPanic(e, s, in)
						}
						res.rets = append(res.rets, Outcome{st: s, panicked: true})
					}
				default:
					var next []*State
					for _, s := range states {
						rs := e.instr(s, in)
						for _, o := range rs {
							if o.panicked {
								res.rets = append(res.rets, o)
							} else if !o.st.dead {
								next = append(next, o.st)
							}
						}
					}
					states = next
				}
			}
		}
	}
	return res
}

func assignPhis(st *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	env := st.top().env
	var vs []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vs = append(vs, evalIn(st, phi.Edges[pi]))
	}
	for i, p := range phis {
		env[p] = vs[i]
	}
}

// hint makes what c compares a candidate for the invariants of the loops being run.
func (e *Engine) hint(c *Cond) {
	if c.p == nil {
		return
	}
	for _, l := range e.loops {
		if e.conds[l] == nil {
			e.conds[l] = map[string]*Poly{}
		}
		e.conds[l][c.p.key] = c.p
	}
}

func (e *Engine) branch(s *State, in *ssa.If, b *ssa.BasicBlock, goTo func(*State, *ssa.BasicBlock, *ssa.BasicBlock)) {
	c, ok := e.val(s, in.Cond).(*Cond)
	if !ok {
		// unknown boolean
		c = cAtom(appAtom("bool", false, e.val(s, in.Cond)))
	}
	e.hint(c)
	switch s.facts.tri(c) {
	case 1:
		goTo(s, b, b.Succs[0])
		return
	case -1:
		goTo(s, b, b.Succs[1])
		return
	}
	t := s.clone()
	if s.assume(c) {
		goTo(s, b, b.Succs[0])
	}
	if t.assume(c.not()) {
		goTo(t, b, b.Succs[1])
	}
}

// ---- values

func evalIn(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Function:
		return &Fn{fn: v}
	case *ssa.Global:
		return &Ptr{obj: globalObj(v)}
	case *ssa.Builtin:
		return &Opaque{symAtom("builtin:"+v.Name(), false, nil)}
	}
	if x, ok := st.top().env[v]; ok {
		return x
	}
	panic(undecided(fmt.Sprintf("value %s of %s is not available", v.Name(), v.Parent())))
}

func globalObj(g *ssa.Global) *Obj {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	k := "global:" + g.String()
	return internObj(&Obj{key: k, kind: "global", typ: t, family: k, name: k})
}

func (e *Engine) val(st *State, v ssa.Value) Value { return evalIn(st, v) }

func (e *Engine) num(st *State, v ssa.Value) *Poly {
	x := e.val(st, v)
	if p, ok := x.(*Poly); ok {
		return p
	}
	return atomPoly(appAtom("num", isIntType(v.Type()), x))
}

func (e *Engine) scopeSet() map[string]bool {
	if len(e.loops) == 0 {
		return nil
	}
	m := map[string]bool{}
	for _, l := range e.loops {
		m[l] = true
	}
	return m
}

// fresh makes an unknown value of type t named by site.
func (e *Engine) fresh(site string, t types.Type) Value {
	a := symAtom(site, isIntType(t), e.scopeSet())
	return symValue(a, t)
}

func set(st *State, in ssa.Instruction, v Value) {
	if x, ok := in.(ssa.Value); ok {
		st.top().env[x] = v
	}
}

func states(ss []*State) []Outcome {
	out := make([]Outcome, len(ss))
	for i, s := range ss {
		out[i] = Outcome{st: s}
	}
	return out
}

func (e *Engine) allocObj(ctx string, name string, t types.Type, array bool) *Obj {
	k := "new:" + ctx + ":" + name
	return internObj(&Obj{key: k, kind: "alloc", typ: t, array: array, family: k, sc: e.scopeSet(), name: name, ctx: ctx})
}

func instrName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok && v.Name() != "" {
		return in.Parent().Name() + "." + v.Name()
	}
	return fmt.Sprintf("%s.b%d", in.Parent().Name(), in.Block().Index)
}

// deref returns the cell a pointer designates.
func (e *Engine) deref(v Value, t types.Type) (*Obj, Path) {
	switch p := v.(type) {
	case *Ptr:
		if p.obj != nil {
			return p.obj, p.path
		}
		return nil, nil
	case *Opaque:
		return initObj(p.a, t, false), nil
	case *Poly:
	}
	panic(undecided("dereference of " + v.Key()))
}

func derefType(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (e *Engine) instr(st *State, in ssa.Instruction) []Outcome {
	e.curPos = in.Parent().String() + ": " + in.String()
	ctx := st.top().ctx
	one := func(v Value) []Outcome {
		set(st, in, v)
		return []Outcome{{st: st}}
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []Outcome{{st: st}}
	case *ssa.Alloc:
		t := derefType(in.Type())
		o := e.allocObj(ctx, instrName(in), t, false)
		st.heap[o.key] = &Log{obj: o, base: "zero"}
		if e.onAlloc != nil {
			e.onAlloc(e, st, o, true)
		}
		return one(&Ptr{obj: o})
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			return states(e.leaf(st, func(s *State) {
				o, p := e.deref(e.val(s, in.X), in.Type())
				if o == nil {
					s.dead = true
					return
				}
				v := s.read(o, p, in.Type())
				set(s, in, v)
				if e.onLoad != nil {
					e.onLoad(e, s, in, o, p, in.Type())
				}
			}))
		case token.SUB:
			return one(neg(e.num(st, in.X)))
		case token.NOT:
			if c, ok := e.val(st, in.X).(*Cond); ok {
				return one(c.not())
			}
			return one(cAtom(appAtom("not", false, e.val(st, in.X))))
		case token.XOR:
			return one(app("xor", true, e.num(st, in.X)))
		case token.ARROW:
			if e.onRecv != nil {
				rs := e.onRecv(e, st, in, e.val(st, in.X))
				for _, r := range rs {
					set(r.st, in, r.res)
				}
				return rs
			}
			panic(undecided("receive at " + e.at(in)))
		}
	case *ssa.BinOp:
		return states(e.leaf(st, func(s *State) { set(s, in, e.binop(s, in)) }))
	case *ssa.Convert:
		x := e.val(st, in.X)
		if isNumType(in.X.Type()) && isNumType(in.Type()) {
			if e.truncSplit && isIntType(in.Type()) && !isIntType(in.X.Type()) {
				return states(e.leaf(st, func(s *State) {
					// rounded towards zero: down above it and up below it
					x := e.num(s, in.X)
					r := convertNum(x, in.X.Type(), in.Type())
					if a := r.singleAtom(); a != nil && a.op == "trunc" {
						fl, ce := atomPoly(appAtom("floor", true, x)), atomPoly(appAtom("ceil", true, x))
						switch {
						case s.facts.entails(cGE(x)):
							r = fl
						case s.facts.entails(cGE(neg(x))):
							r = ce
						default:
							r = add(extremum("max", true, fl, constInt(0)), extremum("min", true, ce, constInt(0)))
						}
					}
					set(s, in, r)
				}))
			}
			return one(convertNum(e.num(st, in.X), in.X.Type(), in.Type()))
		}
		return one(symValue(appAtom("convert:"+in.Type().String(), isIntType(in.Type()), x), in.Type()))
	case *ssa.ChangeType:
		return one(e.val(st, in.X))
	case *ssa.ChangeInterface:
		return one(e.val(st, in.X))
	case *ssa.MultiConvert:
		return one(symValue(appAtom("convert", isIntType(in.Type()), e.val(st, in.X)), in.Type()))
	case *ssa.MakeInterface:
		return one(&Iface{in.X.Type(), e.val(st, in.X)})
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, e.val(st, b))
		}
		return one(&Fn{fn: in.Fn.(*ssa.Function), binds: bs})
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		o := e.allocObj(ctx, instrName(in), el, true)
		st.heap[o.key] = &Log{obj: o, base: "zero"}
		st.assume(cGE(e.num(st, in.Len)))
		if e.onAlloc != nil && !st.dead {
			e.onAlloc(e, st, o, true)
		}
		if st.dead {
			return nil
		}
		return one(&Slice{obj: o, off: constInt(0), len: e.num(st, in.Len), cap: e.num(st, in.Cap)})
	case *ssa.MakeChan:
		a := symAtom("chan:"+ctx+":"+instrName(in), false, e.scopeSet())
		st.nums["cap:"+a.key] = e.num(st, in.Size)
		return one(&Opaque{a})
	case *ssa.MakeMap:
		return one(&Opaque{symAtom("map:"+ctx+":"+instrName(in), false, e.scopeSet())})
	case *ssa.FieldAddr:
		return states(e.leaf(st, func(s *State) {
			o, p := e.deref(e.val(s, in.X), derefType(in.X.Type()))
			if o == nil {
				s.dead = true
				return
			}
			set(s, in, &Ptr{o, p.with(Step{field: in.Field})})
		}))
	case *ssa.Field:
		x := e.val(st, in.X)
		if s, ok := x.(*Struct); ok {
			return one(s.fs[in.Field])
		}
		return one(fieldOf(x, in.Field, in.Type()))
	case *ssa.IndexAddr:
		return states(e.leaf(st, func(s *State) {
			idx := e.num(s, in.Index)
			switch x := e.val(s, in.X).(type) {
			case *Slice:
				if e.onIndex != nil {
					e.onIndex(e, s, in, idx, x.len)
				}
				if x.obj == nil {
					s.dead = true
					return
				}
				if !s.assume(cGE(idx)) || !s.assume(cGT(sub(x.len, idx))) {
					return
				}
				// re-read after substitution
				idx = e.num(s, in.Index)
				x = e.val(s, in.X).(*Slice)
				set(s, in, &Ptr{x.obj, Path{{idx: add(x.off, idx)}}})
			case *Ptr:
				if x.obj == nil {
					s.dead = true
					return
				}
				set(s, in, &Ptr{x.obj, x.path.with(Step{idx: idx})})
			default:
				panic(undecided("index of " + x.Key()))
			}
		}))
	case *ssa.Index:
		return states(e.leaf(st, func(s *State) {
			x := e.val(s, in.X)
			idx := e.num(s, in.Index)
			if a, ok := x.(*Struct); ok {
				for i := range a.fs {
					if s.ask(cEQ(addInt(idx, -int64(i)))) {
						set(s, in, a.fs[i])
						return
					}
				}
				s.dead = true
				return
			}
			set(s, in, symValue(appAtom("idx", isIntType(in.Type()), x, idx), in.Type()))
		}))
	case *ssa.Slice:
		return states(e.leaf(st, func(s *State) { e.sliceOp(s, in) }))
	case *ssa.Store:
		var pre []*State
		pre = e.leaf(st, func(s *State) {
			o, p := e.deref(e.val(s, in.Addr), in.Val.Type())
			if o == nil {
				s.dead = true
				return
			}
			e.checkWrite(s, o, p, in.Val.Type())
		})
		for _, s := range pre {
			o, p := e.deref(e.val(s, in.Addr), in.Val.Type())
			s.write(o, p, in.Val.Type(), e.val(s, in.Val), nil)
		}
		if e.onStore != nil {
			pre = e.storeHook(pre, in, func(s *State) (*Obj, Path, types.Type, Value) {
				o, p := e.deref(e.val(s, in.Addr), in.Val.Type())
				return o, p, in.Val.Type(), e.val(s, in.Val)
			})
		}
		return states(pre)
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		if s, ok := t.(*Struct); ok {
			return one(s.fs[in.Index])
		}
		return one(fieldOf(t, in.Index, in.Type()))
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Call:
		return e.call(st, in, &in.Call)
	case *ssa.Defer:
		e.pushDefer(st, in)
		return []Outcome{{st: st}}
	case *ssa.RunDefers:
		return e.runDefers(st)
	case *ssa.Go:
		if e.onGo != nil {
			e.onGo(e, st, in, e.callInfo(st, in, &in.Call))
			return []Outcome{{st: st}}
		}
		panic(undecided("go statement at " + e.at(in)))
	case *ssa.Send:
		if e.onSend != nil {
			return states(e.leaf(st, func(s *State) { e.onSend(e, s, in, e.val(s, in.Chan), e.val(s, in.X)) }))
		}
		return []Outcome{{st: st}}
	case *ssa.Range:
		return one(&Opaque{appAtom("range:"+ctx+instrName(in), false, e.val(st, in.X))})
	case *ssa.Next:
		return one(e.fresh("next:"+ctx+":"+instrName(in), in.Type()))
	case *ssa.Lookup:
		return one(symValue(appAtom("lookup", isIntType(in.Type()), e.val(st, in.X), e.val(st, in.Index)), in.Type()))
	case *ssa.MapUpdate:
		return []Outcome{{st: st}}
	case *ssa.SliceToArrayPointer:
	}
	panic(undecided(fmt.Sprintf("unsupported instruction %T at %s", in, e.at(in))))
}

// storeHook calls onStore for each leaf written.
func (e *Engine) storeHook(ss []*State, in ssa.Instruction, get func(s *State) (*Obj, Path, types.Type, Value)) []*State {
	var out []*State
	for _, s := range ss {
		out = append(out, e.leaf(s, func(s *State) {
			o, p, t, v := get(s)
			eachLeaf(p, t, v, func(p Path, t types.Type, v Value) { e.onStore(e, s, in, o, p, t, v) })
		})...)
	}
	return out
}

func eachLeaf(p Path, t types.Type, v Value, f func(Path, types.Type, Value)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			var fv Value
			if ok {
				fv = sv.fs[i]
			} else {
				fv = fieldOf(v, i, ft)
			}
			eachLeaf(p.with(Step{field: i}), ft, fv, f)
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			sv, ok := v.(*Struct)
			for i := 0; i < int(u.Len()); i++ {
				var fv Value
				if ok {
					fv = sv.fs[i]
				} else {
					fv = fieldOf(v, i, u.Elem())
				}
				eachLeaf(p.with(Step{idx: constInt(int64(i))}), u.Elem(), fv, f)
			}
			return
		}
	}
	f(p, t, v)
}

// checkWrite settles every aliasing question a write will ask.
func (e *Engine) checkWrite(s *State, o *Obj, p Path, t types.Type) {
	if isWeak(o) {
		return
	}
	o = s.resolve(o, true)
	l := s.log(o)
	var leaves []Path
	leafPaths(p, t, &leaves)
	for _, lp := range leaves {
		for _, en := range l.ents {
			if !en.rng {
				if r, c := s.pathAlias(en.path, lp); r == 0 {
					panic(splitNeeded{c})
				}
			}
		}
	}
}

func leafPaths(p Path, t types.Type, out *[]Path) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafPaths(p.with(Step{field: i}), u.Field(i).Type(), out)
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			for i := 0; i < int(u.Len()); i++ {
				leafPaths(p.with(Step{idx: constInt(int64(i))}), u.Elem(), out)
			}
			return
		}
	}
	*out = append(*out, p)
}

func (e *Engine) sliceOp(s *State, in *ssa.Slice) {
	var x *Slice
	switch v := e.val(s, in.X).(type) {
	case *Slice:
		x = v
	case *Ptr:
		at, ok := derefType(in.X.Type()).Underlying().(*types.Array)
		if !ok || v.obj == nil {
			panic(undecided("slice of pointer"))
		}
		if len(v.path) != 0 {
			panic(undecided("slice of array field at " + e.at(in)))
		}
		n := constInt(at.Len())
		x = &Slice{obj: v.obj, off: constInt(0), len: n, cap: n}
	default:
		set(s, in, symValue(appAtom("substr", false, v), in.Type()))
		return
	}
	lo, hi := constInt(0), x.len
	if in.Low != nil {
		lo = e.num(s, in.Low)
	}
	if in.High != nil {
		hi = e.num(s, in.High)
	}
	if x.obj == nil {
		set(s, in, x)
		return
	}
	if !s.assume(cGE(lo)) || !s.assume(cGE(sub(hi, lo))) {
		return
	}
	if x.cap != nil {
		if !s.assume(cGE(sub(x.cap, hi))) {
			return
		}
	}
	// operands may have been rewritten
	if v, ok := e.val(s, in.X).(*Slice); ok {
		x = v
	}
	hi = x.len
	if in.Low != nil {
		lo = e.num(s, in.Low)
	}
	if in.High != nil {
		hi = e.num(s, in.High)
	}
	r := &Slice{obj: x.obj, off: add(x.off, lo), len: sub(hi, lo)}
	if x.cap != nil {
		r.cap = sub(x.cap, lo)
	}
	set(s, in, r)
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) []Outcome {
	x := e.val(st, in.X)
	fin := func(s *State, v Value, ok *Cond) {
		if in.CommaOk {
			set(s, in, mkStruct([]Value{v, ok}))
		} else {
			set(s, in, v)
		}
	}
	if i, ok := x.(*Iface); ok && !types.IsInterface(in.AssertedType) {
		if types.Identical(i.t, in.AssertedType) {
			fin(st, i.v, cTrue)
			return []Outcome{{st: st}}
		}
		if in.CommaOk {
			fin(st, zeroValue(in.AssertedType), cFalse)
			return []Outcome{{st: st}}
		}
		return []Outcome{{st: st, panicked: true}}
	}
	if types.IsInterface(in.AssertedType) {
		fin(st, x, cTrue)
		return []Outcome{{st: st}}
	}
	v := symValue(appAtom("assert:"+in.AssertedType.String(), isIntType(in.AssertedType), x), in.AssertedType)
	if in.CommaOk {
		fin(st, v, cAtom(appAtom("is:"+in.AssertedType.String(), false, x)))
	} else {
		fin(st, v, cTrue)
	}
	return []Outcome{{st: st}}
}

func (e *Engine) binop(s *State, in *ssa.BinOp) Value {
	switch in.Op {
	case token.EQL, token.NEQ:
		r := e.equal(s, e.val(s, in.X), e.val(s, in.Y), in.X.Type())
		if in.Op == token.NEQ {
			return r.not()
		}
		return r
	}
	if !isNumType(in.X.Type()) {
		if in.Op == token.ADD {
			return symValue(appAtom("concat", false, e.val(s, in.X), e.val(s, in.Y)), in.Type())
		}
		return cAtom(appAtom("op"+in.Op.String(), false, e.val(s, in.X), e.val(s, in.Y)))
	}
	x, y := e.num(s, in.X), e.num(s, in.Y)
	switch in.Op {
	case token.ADD:
		return add(x, y)
	case token.SUB:
		return sub(x, y)
	case token.MUL:
		return mul(x, y)
	case token.LSS:
		return cGT(sub(y, x))
	case token.LEQ:
		return cGE(sub(y, x))
	case token.GTR:
		return cGT(sub(x, y))
	case token.GEQ:
		return cGE(sub(x, y))
	case token.QUO:
		if isIntType(in.Type()) {
			return s.idiv(x, y)
		}
		return mul(x, recip(y))
	case token.REM:
		return s.mod(x, y)
	case token.SHL:
		if c, ok := y.isConst(); ok && c.IsInt() && c.Num().Int64() < 62 {
			return mul(x, constInt(int64(1)<<uint(c.Num().Int64())))
		}
		return app("shl", true, x, y)
	case token.SHR:
		if c, ok := y.isConst(); ok && c.Sign() == 0 {
			return x
		}
		return app("shr", true, x, y)
	case token.AND:
		a, b := x, y
		if a.key > b.key {
			a, b = b, a
		}
		p := app("and", true, a, b)
		if at := p.singleAtom(); at != nil && at.op == "and" {
			for _, q := range []*Poly{x, y} {
				if s.facts.entails(cGE(q)) {
					s.facts.add(cGE(p))
					s.facts.add(cGE(sub(q, p)))
				}
			}
		}
		return p
	case token.OR, token.XOR:
		a, b := x, y
		if a.key > b.key {
			a, b = b, a
		}
		return app("op"+in.Op.String(), true, a, b)
	}
	return app("op"+in.Op.String(), isIntType(in.Type()), x, y)
}

func (s *State) idiv(x, y *Poly) *Poly {
	if c, ok := y.isConst(); ok {
		if c.Cmp(one) == 0 {
			return x
		}
	}
	p := app("idiv", true, x, y)
	if a := p.singleAtom(); a != nil && a.op == "idiv" {
		if c, ok := y.isConst(); ok && c.Sign() > 0 && s.facts.entails(cGE(x)) {
			s.facts.add(cGE(p))
			s.facts.add(cGE(sub(x, mul(p, y))))
			s.facts.add(cGT(sub(mul(addInt(p, 1), y), x)))
		}
	}
	return p
}

func (s *State) mod(x, y *Poly) *Poly {
	// x in [0,y) is its own remainder
	if s.facts.entails(cGE(x)) && s.facts.entails(cGT(sub(y, x))) {
		return x
	}
	if s.facts.entails(cGE(x)) && s.facts.entails(cGT(y)) {
		return app("pmod", true, x, y)
	}
	p := app("mod", true, x, y)
	if a := p.singleAtom(); a != nil && a.op == "mod" {
		if s.facts.entails(cGT(y)) {
			s.facts.add(cGT(sub(y, p)))
			s.facts.add(cGT(add(y, p)))
			if s.facts.entails(cGE(x)) {
				s.facts.add(cGE(p))
				s.facts.add(cGE(sub(x, p)))
			}
		}
	}
	return p
}

// equal is the condition x == y.
func (e *Engine) equal(s *State, x, y Value, t types.Type) *Cond {
	if x.Key() == y.Key() {
		return cTrue
	}
	xp, ok1 := x.(*Poly)
	yp, ok2 := y.(*Poly)
	if ok1 && ok2 {
		return cEQ(sub(xp, yp))
	}
	xs, ok1 := x.(*Struct)
	ys, ok2 := y.(*Struct)
	if ok1 && ok2 && len(xs.fs) == len(ys.fs) {
		ft := func(i int) types.Type {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				return u.Field(i).Type()
			case *types.Array:
				return u.Elem()
			}
			return t
		}
		// all-but-one decided: keep the condition; otherwise split
		var open []*Cond
		for i := range xs.fs {
			c := e.equal(s, xs.fs[i], ys.fs[i], ft(i))
			switch s.facts.tri(c) {
			case -1:
				return cFalse
			case 0:
				open = append(open, c)
			}
		}
		switch len(open) {
		case 0:
			return cTrue
		case 1:
			return open[0]
		}
		panic(splitNeeded{open[0]})
	}
	xc, ok1 := x.(*Cond)
	yc, ok2 := y.(*Cond)
	if ok1 && ok2 {
		if yc.op == 'T' {
			return xc
		}
		if yc.op == 'F' {
			return xc.not()
		}
		if xc.op == 'T' {
			return yc
		}
		if xc.op == 'F' {
			return yc.not()
		}
	}
	if isNilV(y) {
		return e.isNil(x)
	}
	if isNilV(x) {
		return e.isNil(y)
	}
	if p, ok := x.(*Ptr); ok {
		if q, ok := y.(*Ptr); ok && p.obj != nil && q.obj != nil {
			if p.obj.family != q.obj.family || p.obj.kind == "alloc" {
				return cFalse
			}
		}
	}
	if a, ok := x.(*Str); ok {
		if b, ok := y.(*Str); ok {
			return mkBool(a.s == b.s)
		}
	}
	ka, kb := x, y
	if ka.Key() > kb.Key() {
		ka, kb = kb, ka
	}
	return cAtom(appAtom("eq", false, ka, kb))
}

func isNilV(v Value) bool {
	switch v := v.(type) {
	case Nil:
		return true
	case *Ptr:
		return v.obj == nil
	case *Slice:
		return v.obj == nil
	}
	return false
}

func (e *Engine) isNil(v Value) *Cond {
	switch v := v.(type) {
	case Nil:
		return cTrue
	case *Ptr:
		if v.obj == nil {
			return cTrue
		}
		if v.obj.kind == "init" && len(v.path) == 0 {
			return cAtom(appAtom("isnil", false, &Opaque{v.obj.atom}))
		}
		return cFalse
	case *Slice:
		if v.obj == nil {
			return cTrue
		}
		if v.obj.kind == "init" {
			return cAtom(appAtom("isnil", false, &Opaque{v.obj.atom}))
		}
		return cFalse
	case *Opaque:
		return cAtom(appAtom("isnil", false, v))
	case *Iface, *Fn:
		return cFalse
	}
	return cAtom(appAtom("isnil", false, v))
}
