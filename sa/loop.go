package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// part is one partition of a loop head: the traces whose ghost state, watched
// cells and constant boolean phis agree.
type part struct {
	key   string
	raw   *State // merged state: changing slots hold their own mu symbols
	cands []*Cond
	mus   map[string]bool // slots that change
	dirty bool
	runs  int
	last  regionResult
}

type loopRun struct {
	e       *Engine
	id      string
	phis    []*ssa.Phi
	forced  map[string]map[string]bool // partition -> slots
	parts   map[string]*part
	order   []string
	elems   map[string]types.Type // element types of lists that cannot be named at the head
	restart bool
}

// runLoop summarises a natural loop entered in state st (phis already assigned).
func (e *Engine) runLoop(st *State, fn *ssa.Function, l *natLoop, ctx string) regionResult {
	id := fmt.Sprintf("L:%s:%s.%d", ctx, fn.Name(), l.header.Index)
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	body := func(s *State) regionResult {
		return e.region(fn, l, l.header, []item{{st: s}}, ctx)
	}
	if n := e.trips(st, l); n > 0 {
		// a loop of a few constant rounds is followed round by round
		var res regionResult
		cur := []*State{st}
		for i := 0; i <= n && len(cur) > 0; i++ {
			var items []item
			for _, s := range cur {
				items = append(items, item{st: s})
			}
			cur = nil
			r := e.region(fn, l, l.header, items, fmt.Sprintf("%s~%d", ctx, i))
			res.rets = append(res.rets, r.rets...)
			res.exits = append(res.exits, r.exits...)
			cur = r.backs
		}
		if len(cur) > 0 {
			panic(undecided("a loop of constant length goes on: " + id))
		}
		e.counts["loops"]++
		return res
	}
	if e.memoForced && !(e.noIdle != nil && e.noIdle(st)) {
		if r, ok := e.idleLoop(st, id, phis, body); ok {
			return r
		}
	}
	return e.genericLoop(st, id, phis, body)
}

// trips is how often a loop with a constant bound goes round, if it is to be
// unrolled, and 0 otherwise.
func (e *Engine) trips(st *State, l *natLoop) int {
	if !e.unroll {
		return 0
	}
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0
	}
	end, ok := cmp.Y.(*ssa.Const)
	if !ok || end.Value == nil || !isIntType(end.Type()) {
		return 0
	}
	one := func(v ssa.Value) (*ssa.Phi, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return nil, false
		}
		p, ok := b.X.(*ssa.Phi)
		return p, ok
	}
	p, ok := cmp.X.(*ssa.Phi)
	off := int64(0)
	if !ok {
		if p, ok = one(cmp.X); !ok {
			return 0
		}
		off = 1
	}
	if p.Block() != l.header {
		return 0
	}
	start := int64(0)
	for i, x := range p.Edges {
		if l.body[l.header.Preds[i]] {
			if q, ok := one(x); !ok || q != p {
				return 0
			}
			continue
		}
		c, ok := x.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		start = c.Int64()
	}
	if n := end.Int64() - start - off; n > 0 && n <= 4 {
		return int(n)
	}
	return 0
}

// idleLoop summarises a loop that changes nothing the rule follows: if one
// iteration from unknown counters leaves memory and ghosts as they were, the
// state with unknown counters describes every iteration.
func (e *Engine) idleLoop(st *State, id string, phis []*ssa.Phi, body func(*State) regionResult) (res regionResult, ok bool) {
	if e.busyLoops[id] {
		return res, false
	}
	e.loops = append(e.loops, id)
	defer func() { e.loops = e.loops[:len(e.loops)-1] }()
	depth := len(st.frames)
	head := st.clone()
	env := head.top().env
	for _, p := range phis {
		switch p.Type().Underlying().(type) {
		case *types.Basic:
		default:
			if v, has := env[p]; !has || scopesOf(v)[id] {
				return res, false
			}
			continue
		}
		env[p] = symValue(symAtom("idle:"+id+"#"+p.Name(), isIntType(p.Type()), e.scopeSet()), p.Type())
	}
	// local variables assigned by the body hold anything
	havoc := map[string]bool{}
	sig := func(s *State) string {
		var sb strings.Builder
		for _, k := range sortedKeys(s.heap) {
			l := s.heap[k]
			if havoc[k] {
				continue
			}
			if _, had := head.heap[k]; !had && l.obj.kind == "alloc" {
				continue
			}
			if len(l.ents) > 0 || l.base != s.defaultVer(l.obj) {
				sb.WriteString(l.Key() + "|")
			}
		}
		for _, k := range sortedKeys(s.fam) {
			sb.WriteString(k + "=" + s.fam[k] + "|")
		}
		for _, k := range sortedKeys(s.tags) {
			sb.WriteString(k + "=" + s.tags[k] + "|")
		}
		for _, k := range sortedKeys(s.nums) {
			sb.WriteString(k + "=" + s.nums[k].key + "|")
		}
		for _, k := range sortedKeys(s.vals) {
			sb.WriteString(k + "=" + s.vals[k].Key() + "|")
		}
		return sb.String()
	}
	var r regionResult
	for try := 0; ; try++ {
		e.mute++
		r = body(head.clone())
		e.mute--
		want := sig(head)
		same := true
		grown := false
		for _, b := range r.backs {
			b.frames = b.frames[:depth]
			for k, l := range head.heap {
				if nl, ok := b.heap[k]; ok && l.obj.kind == "alloc" && !havoc[k] && nl.Key() != l.Key() {
					havoc[k], grown = true, true
				}
			}
			if sig(b) != want {
				same = false
			}
			benv := b.top().env
			for _, p := range phis {
				if _, basic := p.Type().Underlying().(*types.Basic); !basic && benv[p].Key() != env[p].Key() {
					same = false
				}
			}
		}
		if grown && try < 3 {
			for k := range havoc {
				ver := "v:idle:" + id + "#" + k
				if _, ok := verScopes[ver]; !ok {
					verScopes[ver] = e.scopeSet()
				}
				head.heap[k] = &Log{obj: head.heap[k].obj, base: ver}
			}
			continue
		}
		if !same || grown {
			if e.busyLoops == nil {
				e.busyLoops = map[string]bool{}
			}
			e.busyLoops[id] = true
			return res, false
		}
		break
	}
	if e.mute == 0 {
		r = body(head.clone())
	}
	res.rets, res.exits = r.rets, r.exits
	e.counts["loops"]++
	return res, true
}

// genericLoop runs body to a fixpoint over all numbers of iterations.
func (e *Engine) genericLoop(st *State, id string, phis []*ssa.Phi, body func(*State) regionResult) regionResult {
	e.rounds++
	lr := &loopRun{e: e, id: id, phis: phis, forced: map[string]map[string]bool{}}
	if e.memoForced {
		// slots found to change in an earlier run of this loop change again
		if e.forced == nil {
			e.forced = map[string]map[string]map[string]bool{}
		}
		if e.forced[id] == nil {
			e.forced[id] = lr.forced
		}
		lr.forced = e.forced[id]
	}
	e.loops = append(e.loops, id)
	defer func() { e.loops = e.loops[:len(e.loops)-1] }()
	depth := len(st.frames)
	for round := 0; ; round++ {
		if debugDrop {
			for k := range lr.parts {
				fmt.Fprintln(os.Stderr, "PART", id, round, hashKey(k), k)
				for _, c := range lr.parts[k].cands {
					fmt.Fprintln(os.Stderr, "  CAND", c.Key())
				}
			}
		}
		if round > 80 {
			panic(undecided("loop fixpoint not reached: " + id))
		}
		lr.parts = map[string]*part{}
		lr.order = nil
		lr.restart = false
		e.mute++
		lr.add(st.clone())
		iter := 0
		for {
			var p *part
			for _, k := range lr.order {
				if lr.parts[k].dirty {
					p = lr.parts[k]
					break
				}
			}
			if p == nil {
				break
			}
			iter++
			if iter > 120 {
				e.mute--
				panic(undecided("loop fixpoint diverges: " + id))
			}
			p.dirty = false
			hs := lr.build(p)
			if hs == nil {
				p.last = regionResult{}
				continue
			}
			n := e.rounds
			p.last = body(hs)
			e.outer = e.rounds != n
			for _, b := range p.last.backs {
				b.frames = b.frames[:depth]
				if e.onBack != nil {
					e.onBack(e, b, id)
				}
				lr.add(b)
			}
			if lr.restart && e.eager {
				break // what is found before the new slot is unknown would be spurious
			}
		}
		e.mute--
		if !lr.restart {
			break
		}
	}
	var res regionResult
	for _, k := range lr.order {
		p := lr.parts[k]
		r := p.last
		if e.mute == 0 {
			hs := lr.build(p)
			if hs == nil {
				continue
			}
			n := e.rounds
			r = body(hs)
			e.outer = e.rounds != n
			if e.onBack != nil {
				for _, b := range r.backs {
					e.onBack(e, b, id)
				}
			}
		}
		res.rets = append(res.rets, r.rets...)
		res.exits = append(res.exits, r.exits...)
	}
	e.counts["loops"]++
	return res
}

func (lr *loopRun) stable(v Value) bool { return !scopesOf(v)[lr.id] }

func (lr *loopRun) stableObj(o *Obj) bool { return !o.scopes()[lr.id] }

// partKey needs the watched cells of s.
func (lr *loopRun) partKey(s *State) string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.tags) {
		sb.WriteString(k + "=" + s.tags[k] + ";")
	}
	if len(lr.parts) < 24 {
		env := s.top().env
		for _, p := range lr.phis {
			c, ok := env[p].(*Cond)
			if ok && c.op != 'T' && c.op != 'F' {
				// which way it went is settled where it is joined
				if s.ask(c) {
					c = cTrue
				} else {
					c = cFalse
				}
				env[p] = c
			}
			if ok && (c.op == 'T' || c.op == 'F') {
				sb.WriteString(p.Name() + "=" + c.Key() + ";")
			}
		}
		for _, w := range s.watch {
			if !lr.stableObj(w.obj) {
				continue
			}
			v := s.readLeaf(w.obj, w.path, w.typ)
			if lr.e.mergeWatch {
				continue
			}
			if w.class != nil {
				sb.WriteString(w.name + "=" + w.class(v) + ";")
			} else if lr.stable(v) {
				sb.WriteString(w.name + "=" + v.Key() + ";")
			} else {
				sb.WriteString(w.name + "=?;")
			}
		}
	} else {
		// too many distinctions: keep the tags only, but settle aliasing
		for _, w := range s.watch {
			if lr.stableObj(w.obj) {
				s.readLeaf(w.obj, w.path, w.typ)
			}
		}
		sb.WriteString("overflow")
	}
	return sb.String()
}

// add joins an incoming state into its partition.
func (lr *loopRun) add(inc *State) {
	lr.adopt(inc)
	for _, s := range lr.e.leaf(inc, func(s *State) { lr.partKey(s) }) {
		k := lr.partKey(s)
		p := lr.parts[k]
		if p == nil {
			p = &part{key: k, mus: map[string]bool{}}
			if lr.forced[k] == nil {
				lr.forced[k] = map[string]bool{}
			}
			lr.parts[k] = p
			lr.order = append(lr.order, k)
			lr.create(p, s)
			p.dirty = true
			continue
		}
		if lr.join(p, s) {
			p.dirty = true
		}
	}
}

// adopt gives objects created inside the loop and held in a loop-carried slot a
// name that is meaningful at the head ("the object this slot holds").
func (lr *loopRun) adopt(s *State) {
	for n := 0; n < 20; n++ {
		var from *Obj
		slot := ""
		try := func(name string, v Value) {
			if from != nil {
				return
			}
			var o *Obj
			switch x := v.(type) {
			case *Slice:
				o = x.obj
			case *Ptr:
				o = x.obj
			}
			if o != nil && o.kind == "alloc" && o.scopes()[lr.id] {
				if _, taken := s.heap["rn:"+lr.id+"#"+name]; !taken {
					from, slot = o, name
				}
			}
		}
		env := s.top().env
		for _, p := range lr.phis {
			try("phi."+p.Name(), env[p])
		}
		for _, k := range sortedKeys(s.vals) {
			try("val."+k, s.vals[k])
		}
		for _, k := range sortedKeys(s.heap) {
			l := s.heap[k]
			if !lr.stableObj(l.obj) || l.obj.kind == "mu" {
				continue
			}
			for _, en := range l.ents {
				if !en.rng && lr.pathStable(en.path) {
					nm := l.obj.key + en.path.Key()
					for _, w := range s.watch {
						if w.obj == l.obj && len(w.path) == len(en.path) {
							if r, _ := s.pathAlias(w.path, en.path); r == 1 {
								nm = l.obj.key + w.path.Key()
							}
						}
					}
					try(nm, en.val)
				}
			}
		}
		if from == nil {
			return
		}
		sc := map[string]bool{}
		for k := range lr.e.scopeSet() {
			if k != lr.id {
				sc[k] = true
			}
		}
		k := "rn:" + lr.id + "#" + slot
		to := internObj(&Obj{key: k, kind: "alloc", typ: from.typ, array: from.array, family: k, sc: sc, name: from.name, ctx: from.ctx})
		s.renameObj(from, to)
	}
}

// slotWalk merges old (possibly nil) and inc at every slot. muName yields the symbol.
type merger struct {
	lr     *loopRun
	p      *part
	inc    *State
	inst   map[*Atom]*Poly // mu symbol -> incoming value
	first  bool
	newMu  bool
	change bool

	clashObjs []*Obj // watched objects and what watched headers refer to
	clashOK   bool
}

func (m *merger) muAtom(slot string, isInt bool) *Atom {
	sc := m.lr.e.scopeSet()
	a := symAtom("mu:"+m.lr.id+"#"+hashKey(m.p.key)+"#"+slot, isInt, sc)
	return a
}

func (m *merger) force(slot string) {
	f := m.lr.forced[m.p.key]
	if !f[slot] {
		f[slot] = true
		m.newMu = true
		if debugDrop {
			fmt.Fprintln(os.Stderr, "FORCE", m.lr.id, hashKey(m.p.key), slot)
		}
	}
}

func (m *merger) isForced(slot string) bool { return m.lr.forced[m.p.key][slot] }

// val merges one slot. old is the partition's raw value (nil on creation).
func (m *merger) val(slot string, old, nw Value) Value {
	switch n := nw.(type) {
	case *Struct:
		o, ok := old.(*Struct)
		if old == nil || ok && len(o.fs) == len(n.fs) {
			fs := make([]Value, len(n.fs))
			for i := range fs {
				var ov Value
				if o != nil {
					ov = o.fs[i]
				}
				fs[i] = m.val(fmt.Sprintf("%s.%d", slot, i), ov, n.fs[i])
			}
			return mkStruct(fs)
		}
	case *Slice:
		o, ok := old.(*Slice)
		if old == nil {
			if n.obj == nil {
				if m.isForced(slot) && m.lr.elems[slot] != nil {
					return m.muOpaque(slot, nw)
				}
				if m.isForced(slot + "#len") {
					// may become non-nil: keep the nil object until joined
					return &Slice{off: constInt(0), len: constInt(0), cap: constInt(0)}
				}
				return n
			}
			if m.lr.stableObj(n.obj) {
				r := &Slice{obj: n.obj}
				r.off = m.val(slot+"#off", nil, n.off).(*Poly)
				r.len = m.val(slot+"#len", nil, n.len).(*Poly)
				if n.cap != nil && m.lr.stable(n.cap) && n.cap.key != n.len.key && !m.isForced(slot+"#cap") {
					r.cap = n.cap
				}
				return r
			}
			break
		}
		if ok {
			obj := o.obj
			if obj == nil {
				obj = n.obj
			}
			if (n.obj == nil || n.obj == obj) && (obj == nil || m.lr.stableObj(obj) || m.muSlice(slot, n.obj)) {
				oo, no := o.off, n.off
				if o.obj == nil {
					oo = no
				}
				if n.obj == nil {
					no = oo
				}
				r := &Slice{obj: obj}
				r.off = m.val(slot+"#off", oo, no).(*Poly)
				r.len = m.val(slot+"#len", o.len, n.len).(*Poly)
				if o.cap != nil && n.cap != nil && o.cap.key == n.cap.key {
					r.cap = o.cap
				} else if o.cap != nil {
					m.force(slot + "#cap")
				}
				if o.obj == nil && obj != nil {
					m.change = true
				}
				return r
			}
		}
	case *Poly:
		if m.isForced(slot) {
			a := m.muAtom(slot, n.integral())
			m.inst[a] = n
			return atomPoly(a)
		}
		if old == nil {
			if m.lr.stable(n) {
				return n
			}
		} else if o, ok := old.(*Poly); ok {
			if o.key == n.key {
				return o
			}
			if m.same(o, n) {
				return o
			}
		}
		m.force(slot)
		a := m.muAtom(slot, n.integral())
		m.inst[a] = n
		return atomPoly(a)
	case *Cond:
		if m.isForced(slot) {
			return cAtom(m.muAtom(slot, false))
		}
		if old == nil && m.lr.stable(n) {
			return n
		}
		if old != nil && (old.Key() == n.Key() || m.same(old, n)) {
			return old
		}
		m.force(slot)
		return cAtom(m.muAtom(slot, false))
	}
	// everything else: equal or unknown
	if m.isForced(slot) {
		return m.muOpaque(slot, nw)
	}
	if old == nil && m.lr.stable(nw) {
		return nw
	}
	if old != nil && (old.Key() == nw.Key() || m.same(old, nw)) {
		return old
	}
	if debugDrop && old != nil {
		fmt.Fprintln(os.Stderr, "OPAQUE", old.Key(), "vs", nw.Key())
		dumpState(m.inc)
	}
	m.force(slot)
	return m.muOpaque(slot, nw)
}

// muSlice: a slice whose object is created inside the loop cannot be named at the head.
func (m *merger) muSlice(slot string, o *Obj) bool { return false }

func (m *merger) muOpaque(slot string, nw Value) Value {
	a := m.muAtom(slot, false)
	switch x := nw.(type) {
	case *Slice:
		o := internObj(&Obj{key: "mu*" + a.short(), kind: "mu", atom: a, array: true, family: "mu", name: a.key})
		if x.obj != nil {
			if m.lr.elems == nil {
				m.lr.elems = map[string]types.Type{}
			}
			m.lr.elems[slot] = x.obj.typ
		}
		o.typ = m.lr.elems[slot]
		m.force(slot + "#len")
		ln := m.muAtom(slot+"#len", true)
		m.inst[ln] = x.len
		return &Slice{obj: o, off: constInt(0), len: atomPoly(ln)}
	case *Ptr:
		o := internObj(&Obj{key: "mu*" + a.short(), kind: "mu", atom: a, family: "mu", name: a.key})
		if x.obj != nil {
			o.typ = x.obj.typ
		}
		return &Ptr{obj: o}
	}
	return &Opaque{a}
}

// same compares old with nw modulo what the incoming trace has learnt.
func (m *merger) same(old, nw Value) bool {
	if !m.lr.stable(nw) && false {
		return false
	}
	v := m.resolveOld(old)
	if v.Key() == nw.Key() {
		return true
	}
	a, ok1 := v.(*Poly)
	b, ok2 := nw.(*Poly)
	if ok1 && ok2 {
		return m.inc.facts.entails(cEQ(sub(a, b)))
	}
	return false
}

func (m *merger) resolveOld(v Value) Value {
	for _, s := range m.inc.subs {
		v = newRewriter(s.from, s.to).value(v)
	}
	return v
}

// slots merges the environment phis, ghosts and heap of inc into raw.
func (m *merger) slots(raw *State) {
	inc := m.inc
	env := raw.top().env
	ienv := inc.top().env
	for _, p := range m.lr.phis {
		var old Value
		if !m.first {
			old = env[p]
		}
		env[p] = m.val("phi."+p.Name(), old, ienv[p])
	}
	for _, k := range sortedKeys(inc.nums) {
		var old Value
		if !m.first {
			if o, ok := raw.nums[k]; ok {
				old = o
			} else {
				old = constInt(0)
			}
		}
		raw.nums[k] = m.val("num."+k, old, inc.nums[k]).(*Poly)
	}
	for _, k := range sortedKeys(inc.vals) {
		var old Value
		if !m.first {
			o, ok := raw.vals[k]
			if !ok {
				o = Nil{}
			}
			old = o
		}
		raw.vals[k] = m.val("val."+k, old, inc.vals[k])
	}
	if m.first {
		m.heapFirst(raw)
	} else {
		m.heapJoin(raw)
	}
}

func (m *merger) heapVer(what string) string {
	v := "v:" + m.lr.id + "#" + hashKey(m.p.key) + "#" + what
	if _, ok := verScopes[v]; !ok {
		verScopes[v] = m.lr.e.scopeSet()
	}
	return v
}

// logStable reports whether every term of l is meaningful at the loop head.
func (lr *loopRun) logStable(l *Log) bool {
	if !lr.stableObj(l.obj) || verScopes[l.base][lr.id] {
		return false
	}
	for _, e := range l.ents {
		if e.rng {
			if e.lo.scopes()[lr.id] || e.n.scopes()[lr.id] || e.sOff.scopes()[lr.id] || !lr.logStable(e.src) {
				return false
			}
			continue
		}
		if !lr.stable(e.val) {
			return false
		}
		for _, s := range e.path {
			if s.idx != nil && s.idx.scopes()[lr.id] {
				return false
			}
		}
	}
	return true
}

// entsStable is logStable for the writes of l alone.
func (m *merger) entsStable(l *Log) bool {
	return m.lr.logStable(&Log{obj: l.obj, base: "0", ents: l.ents})
}

func (lr *loopRun) pathStable(p Path) bool {
	for _, s := range p {
		if s.idx != nil && s.idx.scopes()[lr.id] {
			return false
		}
	}
	return true
}

// heapFirst sets raw's heap from the creating state.
func (m *merger) heapFirst(raw *State) {
	inc := m.inc
	raw.heap = map[string]*Log{}
	raw.fam = map[string]string{}
	for _, f := range sortedKeys(inc.fam) {
		v := inc.fam[f]
		if m.isForced("fam:"+f) || verScopes[v][m.lr.id] {
			m.force("fam:" + f)
			v = m.heapVer("fam:" + f)
		}
		raw.fam[f] = v
	}
	for f := range m.lr.forced[m.p.key] {
		if strings.HasPrefix(f, "fam:") {
			raw.fam[f[4:]] = m.heapVer(f)
		}
	}
	for _, k := range sortedKeys(inc.heap) {
		l := inc.heap[k]
		if m.clash(l.obj) && len(l.ents) == 0 && l.base == inc.defaultVer(l.obj) {
			continue
		}
		if !m.lr.stableObj(l.obj) || m.clash(l.obj) {
			if l.obj.kind == "init" {
				m.dropFamily(raw, l.obj)
			}
			continue
		}
		slot := "obj:" + k
		if !m.isForced(slot) && !m.lr.logStable(l) && len(l.ents) > 0 && m.entsStable(l) {
			m.force("base:" + k)
		}
		if !m.isForced(slot) && m.isForced("base:"+k) && m.entsStable(l) {
			raw.heap[k] = &Log{obj: l.obj, base: m.heapVer("base:" + k), ents: l.ents}
			continue
		}
		if m.isForced(slot) || !m.lr.logStable(l) {
			m.force(slot)
			raw.heap[k] = m.rebase(l.obj, nil, nil)
			continue
		}
		raw.heap[k] = l
	}
	// objects already known to change but not explicit here
	for f := range m.lr.forced[m.p.key] {
		if strings.HasPrefix(f, "obj:") {
			if _, ok := raw.heap[f[4:]]; !ok {
				if o := objTab[f[4:]]; o != nil && m.lr.stableObj(o) && !m.clash(o) {
					raw.heap[f[4:]] = m.rebase(o, nil, nil)
				}
			}
		}
	}
}

// clash reports that o may be a watched object under another name, so that its
// content must not be kept separately at the loop head.
func (m *merger) clash(o *Obj) bool {
	if o.kind != "init" {
		return false
	}
	if !m.clashOK {
		ws := m.inc.watch
		if !m.first {
			ws = m.p.raw.watch
		}
		objs := []*Obj{}
		for _, w := range ws {
			objs = append(objs, w.obj)
			if w.class == nil {
				continue
			}
			// what a watched header refers to is of interest as well
			if l, ok := m.inc.heap[w.obj.key]; ok {
				switch v := m.tryReadLog(m.inc, l, w.path, w.typ).(type) {
				case *Slice:
					if v.obj != nil {
						objs = append(objs, v.obj)
					}
				case *Ptr:
					if v.obj != nil {
						objs = append(objs, v.obj)
					}
				}
			}
		}
		m.clashObjs, m.clashOK = objs, true
	}
	z, objs := newState(), m.clashObjs
	for _, w := range objs {
		if w == o {
			return false
		}
	}
	for _, w := range objs {
		if w.family == o.family {
			if r, _ := z.objAlias(w, o); r != -1 {
				return true
			}
		}
	}
	return false
}

func (m *merger) dropFamily(raw *State, o *Obj) {
	slot := "fam:" + o.family
	m.force(slot)
	raw.fam[o.family] = m.heapVer(slot)
}

// rebase gives o an unknown content at the loop head except for the cells worth naming.
func (m *merger) rebase(o *Obj, oldLog *Log, extra []Path) *Log {
	l := &Log{obj: o, base: m.heapVer("obj:" + o.key)}
	// cells: watched cells, explicit stable cells of the incoming log and of the old one
	type cell struct {
		p Path
		t types.Type
	}
	cells := map[string]cell{}
	watched := map[string]bool{}
	addCell := func(p Path) {
		if m.lr.pathStable(p) {
			cells[p.Key()] = cell{p: p}
		}
	}
	ws := m.inc.watch
	if !m.first {
		ws = m.p.raw.watch
	}
	for _, w := range ws {
		if w.obj == o {
			addCell(w.path)
			watched[w.path.Key()] = true
		}
	}
	il := m.inc.log(o)
	for _, e := range il.ents {
		if !e.rng {
			addCell(e.path)
		}
	}
	if oldLog != nil {
		for _, e := range oldLog.ents {
			if !e.rng {
				addCell(e.path)
			}
		}
	}
	if st := structType(o.typ); st != nil && !o.array && leafCount(o.typ) <= 24 {
		eachLeafPath(nil, o.typ, func(p Path) { addCell(p) })
	}
	for _, k := range sortedKeys(cells) {
		c := cells[k]
		t := cellType(o, c.p)
		if t == nil {
			continue
		}
		slot := "cell:" + o.key + k
		if m.isForced(slot + "!drop") {
			continue
		}
		if !watched[k] {
			// naming a cell that may be a watched one would hide the watched one
			clash := false
			for wk := range watched {
				if r, _ := newState().pathAlias(cells[wk].p, c.p); r == 0 {
					clash = true
				}
			}
			if clash {
				m.force(slot + "!drop")
				continue
			}
		}
		nv := m.tryRead(m.inc, o, m.incPath(c.p), t)
		if nv == nil {
			m.force(slot + "!drop")
			continue
		}
		var ov Value
		if oldLog != nil {
			ov = m.tryReadLog(m.p.raw, oldLog, c.p, t)
			if ov == nil && watched[k] {
				m.force(slot)
			} else if ov == nil {
				m.force(slot + "!drop")
				continue
			}
		}
		v := m.val(slot, ov, nv)
		l.ents = append(l.ents, entry{path: c.p, val: v})
	}
	return l
}

func cellType(o *Obj, p Path) types.Type {
	t := o.typ
	if t == nil {
		return nil
	}
	for i, s := range p {
		if s.idx != nil {
			if i == 0 && o.array {
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
			continue
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok || s.field >= u.NumFields() {
			return nil
		}
		t = u.Field(s.field).Type()
	}
	if !isLeaf(t) {
		return nil
	}
	return t
}

func (m *merger) tryRead(s *State, o *Obj, p Path, t types.Type) (v Value) {
	o0key := o.key
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case splitNeeded, undecided:
				if debugDrop {
					if sn, ok := r.(splitNeeded); ok {
						fmt.Println("DROP", o0key, p.Key(), sn.c.Key())
					} else {
						fmt.Println("DROP", o0key, p.Key(), r)
					}
				}
				v = nil
				return
			}
			panic(r)
		}
	}()
	return s.readLeaf(o, p, t)
}

func (m *merger) tryReadLog(s0 *State, l *Log, p Path, t types.Type) (v Value) {
	o0key := l.obj.key
	s := &State{facts: newFacts(), heap: s0.heap, fam: s0.fam}
	for _, c := range m.p.cands {
		s.facts.add(c)
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case splitNeeded, undecided:
				if debugDrop {
					if sn, ok := r.(splitNeeded); ok {
						fmt.Println("DROP", o0key, p.Key(), sn.c.Key())
					} else {
						fmt.Println("DROP", o0key, p.Key(), r)
					}
				}
				v = nil
				return
			}
			panic(r)
		}
	}()
	return s.readLog(l, p, t)
}

// incPath renames a head path into the vocabulary of the incoming trace.
func (m *merger) incPath(p Path) Path {
	for _, s := range m.inc.subs {
		p = newRewriter(s.from, s.to).path(p)
	}
	return p
}

func (m *merger) logSame(old, nw *Log) bool {
	if old.Key() == nw.Key() {
		return true
	}
	var o *Log = old
	for _, s := range m.inc.subs {
		o = newRewriter(s.from, s.to).log(o)
	}
	return o.Key() == nw.Key()
}

// heapJoin merges inc's heap into raw's.
func (m *merger) heapJoin(raw *State) {
	inc := m.inc
	keys := map[string]bool{}
	for k := range raw.heap {
		keys[k] = true
	}
	for k := range inc.heap {
		keys[k] = true
	}
	fams := map[string]bool{}
	for f := range raw.fam {
		fams[f] = true
	}
	for f := range inc.fam {
		fams[f] = true
	}
	for _, f := range sortedKeys(fams) {
		a, b := raw.fam[f], inc.fam[f]
		if a == "" {
			a = "0"
		}
		if b == "" {
			b = "0"
		}
		if a != b {
			slot := "fam:" + f
			m.force(slot)
			if raw.fam[f] != m.heapVer(slot) {
				raw.fam[f] = m.heapVer(slot)
				m.change = true
			}
		}
	}
	for _, k := range sortedKeys(keys) {
		ol, ook := raw.heap[k]
		nl, nok := inc.heap[k]
		var o *Obj
		if ook {
			o = ol.obj
		} else {
			o = nl.obj
		}
		if m.clash(o) && !ook && len(nl.ents) == 0 && nl.base == inc.defaultVer(o) {
			continue
		}
		if !m.lr.stableObj(o) || m.clash(o) {
			if o.kind == "init" {
				slot := "fam:" + o.family
				if raw.fam[o.family] != m.heapVer(slot) {
					m.dropFamily(raw, o)
					m.change = true
				}
			}
			continue
		}
		if !ook {
			if o.kind == "alloc" {
				// did not exist in earlier arrivals: its content is inc's
				if m.lr.logStable(nl) {
					raw.heap[k] = nl
				} else {
					m.force("obj:" + k)
					raw.heap[k] = m.rebase(o, nil, nil)
				}
				m.change = true
				continue
			}
			ol = &Log{obj: o, base: raw.defaultVer(o)}
		}
		if !nok {
			if o.kind == "alloc" {
				continue
			}
			nl = &Log{obj: o, base: inc.defaultVer(o)}
		}
		slot := "obj:" + k
		ver := m.heapVer(slot)
		if !m.isForced(slot) {
			if m.logSame(ol, nl) {
				continue
			}
			// the same writes over different older content
			bs := "base:" + k
			bo, bn := &Log{obj: o, base: m.heapVer(bs), ents: ol.ents}, &Log{obj: o, base: m.heapVer(bs), ents: nl.ents}
			if len(nl.ents) > 0 && m.entsStable(nl) && m.logSame(bo, bn) {
				if ol.base != m.heapVer(bs) {
					m.force(bs)
					raw.heap[k] = bo
					m.change = true
				}
				continue
			}
			if debugDrop {
				fmt.Fprintln(os.Stderr, "LOGS", ol.Key(), "VS", nl.Key())
			}
			m.force(slot)
			raw.heap[k] = m.rebase(o, ol, nil)
			m.change = true
			continue
		}
		if ol.base != ver {
			raw.heap[k] = m.rebase(o, ol, nil)
			m.change = true
			continue
		}
		// already rebased: merge the named cells only
		ents := make([]entry, 0, len(ol.ents))
		for _, e := range ol.ents {
			cs := "cell:" + o.key + e.path.Key()
			t := cellType(o, e.path)
			nv := m.tryRead(inc, o, m.incPath(e.path), t)
			if nv == nil {
				m.force(cs + "!drop")
				m.change = true
				continue
			}
			v := m.val(cs, e.val, nv)
			if v.Key() != e.val.Key() {
				m.change = true
			}
			ents = append(ents, entry{path: e.path, val: v})
		}
		if len(ents) != len(ol.ents) || m.change {
			raw.heap[k] = &Log{obj: o, base: ol.base, ents: ents}
		}
	}
}

// create builds a partition from its first incoming state.
func (lr *loopRun) create(p *part, inc *State) {
	raw := inc.clone()
	m := &merger{lr: lr, p: p, inc: inc, inst: map[*Atom]*Poly{}, first: true}
	p.raw = raw
	m.slots(raw)
	raw.subs = nil
	// other environment values computed inside the loop are dead at the head
	cands := lr.candidates(p, inc, m.inst)
	p.cands = nil
	rw := lr.instRewriter(inc, m.inst)
	for _, c := range cands {
		if holdsIn(inc, c, rw) {
			p.cands = append(p.cands, c)
		}
	}
	raw.facts = newFacts()
	if m.newMu {
		lr.restart = true
	}
	if debugDrop && os.Getenv("TRISA_DROP") == "2" {
		fmt.Fprintln(os.Stderr, "CREATE", lr.id, hashKey(p.key), p.key, m.newMu)
		for _, c := range p.cands {
			fmt.Fprint(os.Stderr, " ", c.Key())
		}
		fmt.Fprintln(os.Stderr)
	}
}

// join merges a later arrival; it reports whether the head changed.
func (lr *loopRun) join(p *part, inc *State) bool {
	m := &merger{lr: lr, p: p, inc: inc, inst: map[*Atom]*Poly{}}
	m.slots(p.raw)
	ch := m.change
	var keep []*Cond
	rw := lr.instRewriter(inc, m.inst)
	for _, c := range p.cands {
		if holdsIn(inc, c, rw) {
			keep = append(keep, c)
		} else {
			if debugDrop {
				fmt.Fprintln(os.Stderr, "LOST", lr.id, hashKey(p.key), c.Key())
				if os.Getenv("TRISA_DROP") == "2" {
					for _, x := range inc.facts.cs {
						fmt.Fprint(os.Stderr, " ", x.Key())
					}
					fmt.Fprintln(os.Stderr)
				}
			}
			ch = true
		}
	}
	p.cands = keep
	if m.newMu {
		lr.restart = true
		ch = true
	}
	return ch
}

// holds instantiates a head fact with an incoming state's values and checks it.
// instRewriter expresses head conditions in the vocabulary of an arriving state.
func (lr *loopRun) instRewriter(inc *State, inst map[*Atom]*Poly) *rewriter {
	mp := map[*Atom]*Poly{}
	for a, v := range inst {
		mp[a] = v
	}
	n := len(inc.subs)
	to := make([]*Poly, n)
	// later substitutions first, so that each target is rewritten once by a composed map
	done := map[*Atom]*Poly{}
	for i := n - 1; i >= 0; i-- {
		x := inc.subs[i]
		v := x.to
		if len(done) > 0 {
			v = newMultiRewriter(done).poly(v)
		}
		to[i] = v
		nd := make(map[*Atom]*Poly, len(done)+1)
		for a, p := range done {
			nd[a] = p
		}
		nd[x.from] = v
		done = nd
	}
	for i, x := range inc.subs {
		if _, ok := inst[x.from]; ok {
			continue
		}
		if _, ok := mp[x.from]; !ok {
			mp[x.from] = to[i]
		}
	}
	if len(mp) == 0 {
		return nil
	}
	return newMultiRewriter(mp)
}

func holdsIn(inc *State, c *Cond, r *rewriter) bool {
	if r != nil {
		c = r.cond(c)
	}
	return inc.facts.entails(c)
}

// build produces the head state: raw plus its surviving facts.
func (lr *loopRun) build(p *part) *State {
	s := p.raw.clone()
	p.runs++
	for _, c := range p.cands {
		if !s.assume(rewriteBySubs(s, c)) {
			return nil
		}
	}
	return s
}

func rewriteBySubs(s *State, c *Cond) *Cond {
	for _, x := range s.subs {
		c = newRewriter(x.from, x.to).cond(c)
	}
	return c
}

// candidates proposes head facts: the incoming facts, and a fixed family of
// linear relations between changing slots and other terms.
func (lr *loopRun) candidates(p *part, inc *State, inst map[*Atom]*Poly) []*Cond {
	var out []*Cond
	seen := map[string]bool{}
	addc := func(c *Cond) {
		if c.op == 'T' || c.op == 'F' {
			return
		}
		k := c.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	var pool []*Poly
	poolSeen := map[string]bool{}
	addPool := func(q *Poly) {
		if !poolSeen[q.key] && len(pool) < 40 {
			poolSeen[q.key] = true
			pool = append(pool, q)
		}
	}
	addPool(constInt(0))
	addPool(constInt(1))
	for _, c := range inc.facts.cs {
		if lr.stableCond(c) {
			addc(c)
			if c.p != nil && c.p.integral() {
				c.p.atoms(func(a *Atom) {
					if a.isInt {
						addPool(atomPoly(a))
					}
				})
			}
		}
	}
	// an equality lost later may leave an inequality it implies
	for _, c := range inc.facts.cs {
		if c.op != 'E' || !lr.stableCond(c) || !c.p.integral() {
			continue
		}
		addc(cGE(c.p))
		addc(cGE(neg(c.p)))
		for _, d := range inc.facts.cs {
			if d.op == 'L' && d.p.integral() && lr.stableCond(d) {
				addc(cGE(add(d.p, c.p)))
				addc(cGE(sub(d.p, c.p)))
			}
		}
	}
	// equalities learnt on the way in are substitutions by now
	for _, x := range inc.subs {
		if x.from.isInt && !x.from.scopes[lr.id] && !x.to.scopes()[lr.id] && x.to.integral() {
			d := sub(atomPoly(x.from), x.to)
			addc(cGE(d))
			addc(cGE(neg(d)))
			for _, f := range inc.facts.cs {
				if f.op == 'L' && f.p.integral() && lr.stableCond(f) && sharesAtom(f.p, x.to) {
					for _, j := range []int64{-2, -1, 1, 2} {
						addc(cGE(add(f.p, scale(d, big.NewRat(j, 1)))))
					}
				}
			}
		}
	}
	var mus []*Atom
	for a := range inst {
		mus = append(mus, a)
	}
	sort.Slice(mus, func(i, j int) bool { return mus[i].key < mus[j].key })
	env := inc.top().env
	var lens []*Poly
	for _, v := range env {
		if s, ok := v.(*Slice); ok && s.obj != nil && !s.len.scopes()[lr.id] {
			if _, c := s.len.isConst(); !c {
				lens = append(lens, s.len)
			}
		}
	}
	sort.Slice(lens, func(i, j int) bool { return lens[i].key < lens[j].key })
	for _, q := range lens {
		addPool(q)
	}
	isMu := map[*Atom]bool{}
	for _, a := range mus {
		isMu[a] = true
	}
	for _, a := range mus {
		m := atomPoly(a)
		if a.isInt {
			for _, q := range pool {
				d := sub(m, q)
				addc(cGE(d))
				addc(cGE(neg(d)))
				addc(cGE(addInt(d, -1)))
				addc(cGE(addInt(neg(d), -1)))
			}
		} else {
			addc(cGE(m))
			addc(cGE(sub(constInt(1), m)))
		}
		if iv := inst[a]; !iv.scopes()[lr.id] {
			d := sub(m, iv)
			addc(cGE(d))
			addc(cGE(neg(d)))
		}
	}
	for i, a := range mus {
		for _, b := range mus[i+1:] {
			if !a.isInt || !b.isInt {
				continue
			}
			d := sub(atomPoly(a), atomPoly(b))
			addc(cGE(d))
			addc(cGE(neg(d)))
			addc(cGE(addInt(d, -1)))
			addc(cGE(addInt(neg(d), -1)))
			ia, ib := inst[a], inst[b]
			if !ia.scopes()[lr.id] && !ib.scopes()[lr.id] {
				dd := sub(d, sub(ia, ib))
				addc(cGE(dd))
				addc(cGE(neg(dd)))
				ss := sub(add(atomPoly(a), atomPoly(b)), add(ia, ib))
				addc(cGE(ss))
				addc(cGE(neg(ss)))
				for _, r := range lr.e.ratios {
					for _, q := range [][4]*Poly{{atomPoly(a), atomPoly(b), ia, ib}, {atomPoly(b), atomPoly(a), ib, ia}} {
						if z := sub(q[2], mul(constInt(r), q[3])); inc.facts.entails(cEQ(z)) {
							dd := sub(q[0], mul(constInt(r), q[1]))
							addc(cGE(dd))
							addc(cGE(neg(dd)))
						}
					}
				}
			}
		}
	}
	cps := lr.e.conds[lr.id]
	for _, k := range sortedKeys(cps) {
		q := cps[k]
		okc, has := true, false
		q.atoms(func(a *Atom) {
			if isMu[a] {
				has = true
			} else if a.scopes[lr.id] {
				okc = false
			}
		})
		if !okc || !has {
			continue
		}
		if q.integral() {
			for d := int64(-1); d <= 1; d++ {
				addc(cGE(addInt(q, d)))
				addc(cGE(addInt(neg(q), d)))
			}
		} else {
			addc(cGE(q))
			addc(cGE(neg(q)))
			addc(cGT(q))
			addc(cGT(neg(q)))
		}
	}
	return out
}

func (lr *loopRun) stableCond(c *Cond) bool {
	if c.p != nil {
		return !c.p.scopes()[lr.id]
	}
	if c.a != nil {
		return !c.a.scopes[lr.id]
	}
	return true
}

func hashKey(s string) string {
	if s == "" {
		return "-"
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return fmt.Sprintf("%x", h&0xffffffff)
}

func structType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func leafCount(t types.Type) int {
	n := 0
	eachLeafPath(nil, t, func(Path) { n++ })
	return n
}

func eachLeafPath(p Path, t types.Type, f func(Path)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			eachLeafPath(p.with(Step{field: i}), u.Field(i).Type(), f)
		}
	case *types.Array:
		if u.Len() > 16 {
			for i := 0; i < 100; i++ {
				f(nil)
			}
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			eachLeafPath(p.with(Step{idx: constInt(int64(i))}), u.Elem(), f)
		}
	default:
		f(p)
	}
}

func sharesAtom(a, b *Poly) bool {
	in := map[*Atom]bool{}
	a.atoms(func(x *Atom) { in[x] = true })
	r := false
	b.atoms(func(x *Atom) { r = r || in[x] })
	return r
}
