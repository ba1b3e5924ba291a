package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C18",
		title: "Output files are complete and no failure to write is passed over",
		rule:  "Every function that opens or writes files is interpreted with each operation on a file failing in turn: a state per file (open, written but not flushed, recorded to, closed) is followed along every path. A failure must end in a fatal exit, a panic or a returned error, and nothing else may. At a return every file is flushed, no recording goes on and each file is closed after that. The function that never returns must, in each round, write the best points as JSON and a line of statistics, both asked for after the last step, and flush the line. The names of the files are the given one with the suffix of their kind.",
		run:   checkFiles,
	})
}

type files struct {
	c    *Ctx
	f    *ssa.Function
	nm   string
	name Value
	seen map[string]bool
}

func checkFiles(c *Ctx) {
	n := 0
	for _, f := range c.L.sourceFuncs() {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() || !opensFiles(f, map[*ssa.Function]bool{}) {
			continue
		}
		n++
		(&files{c: c, f: f, nm: f.Name(), seen: map[string]bool{}}).run()
	}
	c.need("functions that write files", n, 3)
}

func opensFiles(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					if mc, isC := (*op).(*ssa.MakeClosure); isC {
						g, ok = mc.Fn.(*ssa.Function), true
					}
				}
				if !ok {
					continue
				}
				switch g.String() {
				case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile":
					return true
				}
				if inModule(g) && opensFiles(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (r *files) run() {
	L, f, nm := r.c.L, r.f, r.nm
	e := newEngine(L)
	e.eager = true
	e.noIdle = func(*State) bool { return true }
	st := newState()
	var args []Value
	var algo Value
	for i, p := range f.Params {
		v := sym(fmt.Sprint("out:", nm, i), p.Type())
		args = append(args, v)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			r.name = v
		}
		if typName(p.Type()) == "algorithm.Algorithm" {
			algo = v
		}
	}
	if r.name == nil || algo == nil {
		panic(undecided(nm + " writes files, but not for an algorithm under a name"))
	}
	ob := func(rule, at string, ok bool, format string, a ...any) { e.obligation(rule, nm, at, ok, format, a...) }
	for _, k := range []string{"failed", "best", "line"} {
		st.tags[k] = ""
	}
	ends := func(at string, s *State) {
		ob("the program is stopped only by a failure", at, s.tags["failed"] != "", "nothing failed")
	}
	complete := func(at string, s *State, closed bool) {
		ob("a failure is reported", at, s.tags["failed"] == "", "the error of %s is dropped", s.tags["failed"])
		for _, k := range sortedKeys(s.tags) {
			if strings.HasPrefix(k, "w:") && s.tags[k] != "" {
				ob("what is written reaches the file", at, !strings.HasPrefix(s.tags[k], "dirty"), "a buffer is not flushed")
			}
			if closed && strings.HasPrefix(k, "f:") && s.tags[k] != "" {
				ob("every file is closed", at, s.tags[k] == "closed" || s.tags["failed"] != "", "one stays open")
			}
			if closed && strings.HasPrefix(k, "rec:") {
				ob("a recording is stopped", at, s.tags[k] == "", "it goes on")
			}
		}
	}
	// the key of the file or buffer a value is, as the tag that follows it
	res := func(v Value) string {
		if k := nameOf(v); strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "w:") {
			return k
		}
		return ""
	}
	under := map[string]string{} // the file of a buffer
	kind := map[string]string{}  // the suffix of a file
	wr := func(s *State, at, k, suffix string) {
		if k == "" {
			panic(undecided("something is written to an unknown place at " + at))
		}
		if k[0] == 'w' {
			s.tags[k] = "dirty"
			k = under[k]
		}
		ob("files are open when they are written", at, s.tags[k] == "open", "it is not")
		ob("files are named after what they hold", at, kind[k] == suffix, "it is called %q", kind[k])
	}
	during, records := false, false // steps are run while something is recorded
	statsT := L.typ("algorithm", "Stats")
	errT := types.Universe.Lookup("error").Type()
	e.intercept = func(e *Engine, st *State, ci *CallInfo) ([]Outcome, bool) {
		at := e.at(ci.instr)
		site := nm + "@" + ci.ctx + instrOf(ci.instr)
		one := func(s *State, v Value) ([]Outcome, bool) { return []Outcome{{st: s, res: v}}, true }
		// either works or fails; only one operation fails on a path
		may := func(s *State, what string, done func(s *State), v Value) ([]Outcome, bool) {
			var out []Outcome
			pack := func(err Value) Value {
				if v != nil {
					return mkStruct([]Value{v, err})
				}
				return err
			}
			if s.tags["failed"] == "" {
				t := s.clone()
				t.tags["failed"] = what
				out = append(out, Outcome{st: t, res: pack(&Iface{errT, &Opaque{appAtom("error:"+site, false)}})})
			}
			if done != nil {
				done(s)
			}
			return append(out, Outcome{st: s, res: pack(Nil{})}), true
		}
		if ci.method != nil {
			if len(ci.args) > 0 && sameVal(st, ci.args[0], rewriteTo(st, algo)) {
				switch ci.method.Name() {
				case "Step":
					for k, v := range st.tags {
						during = during || strings.HasPrefix(k, "rec:") && v != ""
					}
					for k, v := range st.tags {
						if v == "fresh" {
							st.tags[k] = "stale"
						}
					}
					return one(st, nil)
				case "Best", "Stats":
					k := ci.method.Name() + ":" + site
					st.tags[k] = "fresh"
					return one(st, sym(k, ci.method.Type().(*types.Signature).Results().At(0).Type()))
				}
			}
			if ci.method.Name() == "Error" {
				return one(st, sym("text:"+site, types.Typ[types.String]))
			}
			panic(undecided("a call of " + ci.method.Name() + " at " + at))
		}
		g := ci.callee
		if g == nil || inModule(g) && len(g.Blocks) > 0 {
			return nil, false
		}
		results := func() []types.Type {
			var t []types.Type
			for i := 0; i < g.Signature.Results().Len(); i++ {
				t = append(t, g.Signature.Results().At(i).Type())
			}
			return t
		}()
		name := g.String()
		fresh := func() Value {
			var vs []Value
			for i, t := range results {
				vs = append(vs, sym(fmt.Sprint("res:", site, i), t))
			}
			switch len(vs) {
			case 0:
				return nil
			case 1:
				return vs[0]
			}
			return mkStruct(vs)
		}
		stats := func(vs []Value, format string) {
			var hit [2]bool
			for _, k := range sortedKeys(st.tags) {
				if !strings.HasPrefix(k, "Stats:") || st.tags[k] != "fresh" || len(vs) != 2 {
					continue
				}
				now := sym(k, statsT).(*Struct)
				for i, n := range []string{"Generation", "BestFitness"} {
					q, isN := unIface(vs[i]).(*Poly)
					hit[i] = hit[i] || isN && sameNum(st, q, rewriteTo(st, now.fs[fieldIdx(statsT, n)]).(*Poly))
				}
			}
			ok := hit[0] && hit[1]
			format = strings.ReplaceAll(format, "%%", "")
			ok = ok && strings.Count(format, "%") == 2 && strings.HasSuffix(format, "\n") && strings.Count(format, "\n") == 1 && !strings.Contains(format, "%v%")
			ob("the line of statistics has the generation and best fitness of now", at, ok, "%q of %s is written", format, showVals(vs))
			st.tags["line"] = "fresh"
		}
		switch {
		case name == "log.Fatal" || name == "log.Fatalf" || name == "log.Fatalln" || name == "os.Exit" || strings.HasPrefix(name, "log.Panic"):
			ends(at, st)
			return nil, true
		case name == "os.Create" || name == "os.OpenFile":
			if name == "os.OpenFile" {
				n, ok := ci.args[1].(*Poly)
				fl := int64(0)
				if ok {
					if c, isC := n.isConst(); isC {
						fl = c.Num().Int64()
					}
				}
				ob("files start empty", at, fl&int64(os.O_CREATE) != 0 && fl&int64(os.O_TRUNC) != 0 && fl&int64(os.O_WRONLY|os.O_RDWR) != 0 && fl&int64(os.O_EXCL) == 0, "one is opened with %d", fl)
			}
			k := "f:" + site
			t := types.NewPointer(results[0].(*types.Pointer).Elem())
			kind[k] = ""
			for _, s := range []string{"-stats", ".trace", ".prof"} {
				if ci.args[0].Key() == withSuffix(rewriteTo(st, r.name), s) {
					kind[k] = s
				}
			}
			return may(st, "creating a file", func(s *State) { s.tags[k] = "open" }, sym(k, t))
		case name == "os.WriteFile" || name == "io/ioutil.WriteFile":
			k := nameOf(ci.args[1])
			ob("the best points are written under the given name", at, sameVal(st, ci.args[0], rewriteTo(st, r.name)), "the file is %s", ci.args[0].Key())
			ob("the best points of now are written", at, strings.HasPrefix(k, "json:") && st.tags[k] == "fresh" && sameVal(st, ci.args[1], rewriteTo(st, sym(k, ci.callee.Signature.Params().At(1).Type()))), "%s is written", showVal(ci.args[1]))
			return may(st, "writing a file", func(s *State) { s.tags["best"] = "fresh" }, nil)
		case name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent":
			k := "json:" + site
			from := ""
			a := unIface(ci.args[0])
			if p, ok := a.(*Ptr); ok && p.obj != nil && nameOf(a) == "" {
				if i, ok := ci.args[0].(*Iface); ok {
					a = st.read(p.obj, p.path, i.t.Underlying().(*types.Pointer).Elem())
				}
			}
			if b := nameOf(a); strings.HasPrefix(b, "Best:") {
				from = st.tags[b]
			}
			return may(st, "encoding", func(s *State) { s.tags[k] = from }, sym(k, results[0]))
		case strings.HasPrefix(name, "bufio.NewWriter"):
			k := "w:" + site
			u := res(ci.args[0])
			if !strings.HasPrefix(u, "f:") {
				panic(undecided("a buffer for an unknown file at " + at + ": " + ci.args[0].Key() + " wants " + site))
			}
			under[k] = u
			st.tags[k] = "clean"
			return one(st, sym(k, results[0]))
		case name == "(*bufio.Writer).Flush":
			k := res(ci.args[0])
			if under[k] == "" {
				panic(undecided("an unknown buffer is flushed at " + at))
			}
			ob("files are open when they are written", at, st.tags[under[k]] == "open", "it is not")
			return may(st, "flushing", func(s *State) { s.tags[k] = "clean" }, nil)
		case name == "(*bufio.Writer).WriteString" || name == "(*os.File).WriteString" || name == "io.WriteString":
			k := res(ci.args[0])
			wr(st, at, k, "-stats")
			if fm, vs, ok := textOf(ci.args[1]); ok {
				stats(vs, fm)
			} else {
				panic(undecided("a text that is not understood is written at " + at))
			}
			if k[0] == 'w' { // the buffer keeps the failure for when it is flushed
				return one(st, mkStruct([]Value{sym("res:"+site, types.Typ[types.Int]), Nil{}}))
			}
			return may(st, "writing", nil, sym("res:"+site, types.Typ[types.Int]))
		case strings.HasPrefix(name, "fmt.Fprint") && res(ci.args[0]) != "":
			k := res(ci.args[0])
			wr(st, at, k, "-stats")
			fm, vs, ok := printed(e, st, name, ci.args[1:])
			if !ok {
				panic(undecided("a text that is not understood is written at " + at))
			}
			stats(vs, fm)
			if k[0] == 'w' {
				return one(st, mkStruct([]Value{sym("res:"+site, types.Typ[types.Int]), Nil{}}))
			}
			return may(st, "writing", nil, sym("res:"+site, types.Typ[types.Int]))
		case name == "fmt.Errorf" || name == "errors.New":
			return one(st, &Iface{errT, &Opaque{appAtom("error:"+site, false)}})
		case strings.HasPrefix(name, "fmt.Sprint"):
			if fm, vs, ok := printed(e, st, name, ci.args); ok {
				return one(st, line(fm, vs))
			}
			return one(st, fresh())
		case name == "strconv.Itoa" || name == "strconv.FormatFloat":
			return one(st, line("%v", ci.args[:1]))
		case name == "(*os.File).Close":
			k := res(ci.args[0])
			if k == "" {
				panic(undecided("an unknown file is closed at " + at))
			}
			for w, u := range under {
				if u == k {
					ob("what is written reaches the file", at, st.tags[w] != "dirty" || st.tags["failed"] != "", "the file is closed before the buffer is flushed")
				}
			}
			for t, v := range st.tags {
				if strings.HasPrefix(t, "rec:") && (v == k || under[v] == k) {
					ob("a recording is stopped before its file is closed", at, st.tags["failed"] != "", "it goes on")
				}
			}
			return may(st, "closing", func(s *State) { s.tags[k] = "closed" }, nil)
		case name == "runtime/trace.Start" || name == "runtime/pprof.StartCPUProfile":
			k := res(ci.args[0])
			if k == "" {
				panic(undecided("a recording to an unknown place at " + at))
			}
			rec := "rec:" + g.Pkg.Pkg.Name()
			records = true
			return may(st, "starting a recording", func(s *State) {
				s.tags[rec] = k
				s.tags["did"] = "begun"
			}, nil)
		case name == "runtime/trace.Stop" || name == "runtime/pprof.StopCPUProfile":
			rec := "rec:" + g.Pkg.Pkg.Name()
			k := st.tags[rec]
			if k == "" {
				ob("a recording is stopped", at, st.tags["failed"] != "", "there is none")
				return one(st, nil)
			}
			wr(st, at, k, map[string]string{"trace": ".trace", "pprof": ".prof"}[g.Pkg.Pkg.Name()])
			st.tags[rec], st.tags["did"] = "", "done"
			return one(st, nil)
		}
		for _, a := range ci.args {
			if res(a) != "" {
				panic(undecided("a call of " + name + " with a file at " + at))
			}
		}
		// an error of something else is as good as any other
		if n := len(results); n > 0 && types.Identical(results[n-1], errT) && !strings.HasPrefix(name, "fmt.") {
			panic(undecided("a call of " + name + " that may fail at " + at))
		}
		return one(st, fresh())
	}
	returns := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok && reachable(f, b) {
				returns = true
			}
		}
	}
	rounds := 0
	e.onBack = func(e *Engine, s *State, id string) {
		if !e.outer && returns || s.dead {
			return
		}
		at := L.posOf(f.Pos())
		if returns || len(s.frames) > 1 || !e.outer {
			return
		}
		rounds++
		complete(at, s, false)
		ob("each round writes the best points of now", at, s.tags["best"] == "fresh", "they are %q", s.tags["best"])
		ob("each round writes its statistics", at, s.tags["line"] == "fresh", "they are %q", s.tags["line"])
	}
	n := 0
	for _, o := range e.execFunc(st, f, args, nil, nm, nil) {
		if o.st.dead {
			continue
		}
		at := L.posOf(f.Pos())
		if o.panicked {
			ends(at, o.st)
			continue
		}
		n++
		if sg := f.Signature.Results(); sg.Len() > 0 && types.Identical(sg.At(sg.Len()-1).Type(), errT) {
			v := o.res
			if s, ok := v.(*Struct); ok {
				v = s.fs[len(s.fs)-1]
			}
			_, isN := v.(Nil)
			ob("a failure is reported", at, isN == (o.st.tags["failed"] == ""), "it is not returned")
			o.st.tags["failed"] = ""
			if !isN {
				continue
			}
		}
		complete(at, o.st, true)
		ob("something is recorded", at, o.st.tags["did"] != "begun" && (o.st.tags["did"] == "done" || o.st.tags["best"] != ""), "nothing is")
	}
	if records {
		ob("the algorithm is run while it is recorded", L.posOf(f.Pos()), during, "it is run only before or after")
	}
	if returns {
		r.c.need("returns of "+nm, n, 1)
	} else {
		r.c.need("rounds of "+nm, rounds, 1)
	}
	r.c.take(e)
}

func reachable(f *ssa.Function, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0])
}

func instrOf(in ssa.CallInstruction) string {
	if i, ok := in.(ssa.Instruction); ok {
		return instrName(i)
	}
	return "?"
}

// nameOf names the symbol a value is, with the numbers of the fields it was taken from.
func nameOf(v Value) string {
	var a *Atom
	switch v := unIface(v).(type) {
	case *Ptr:
		if v.obj != nil && len(v.path) == 0 {
			a = v.obj.atom
		}
	case *Slice:
		if v.obj != nil {
			a = v.obj.atom
		}
	case *Opaque:
		a = v.a
	case *Poly:
		a = v.singleAtom()
	}
	switch {
	case a == nil:
		return ""
	case a.op == "sym":
		return a.key
	case strings.HasPrefix(a.op, "fld") && len(a.args) == 1:
		return nameOf(a.args[0]) + "." + a.op[3:]
	}
	return ""
}

// line is a text made by a format of some values.
func line(format string, vs []Value) Value {
	return &Opaque{appAtom("line", false, append([]Value{&Str{format}}, vs...)...)}
}

// printed is the format and the values of a text printed by a function of fmt.
func printed(e *Engine, st *State, name string, args []Value) (string, []Value, bool) {
	if strings.HasSuffix(name, "f") {
		fm, ok := args[0].(*Str)
		if !ok {
			return "", nil, false
		}
		vs := e.varargs(st, args[1])
		if t, us, ok := textOf(oneValue(vs)); ok && (fm.s == "%s\n" || fm.s == "%v\n") {
			return t + "\n", us, true
		}
		return fm.s, vs, true
	}
	vs := e.varargs(st, args[0])
	if strings.HasSuffix(name, "ln") {
		t, us := "", []Value{}
		for i, v := range vs {
			if i > 0 {
				t += " "
			}
			if f, ws, ok := textOf(v); ok {
				t, us = t+f, append(us, ws...)
			} else {
				t, us = t+"%v", append(us, v)
			}
		}
		return t + "\n", us, true
	}
	if len(vs) == 1 {
		if t, us, ok := textOf(vs[0]); ok {
			return t, us, true
		}
		return "%v", vs, true
	}
	return "", nil, false
}

func oneValue(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return Nil{}
}

// textOf is the format and the values of a text put together.
func textOf(v Value) (string, []Value, bool) {
	switch v := unIface(v).(type) {
	case *Str:
		return strings.ReplaceAll(v.s, "%", "%%"), nil, true
	case *Opaque:
		switch v.a.op {
		case "line":
			return v.a.args[0].(*Str).s, v.a.args[1:], true
		case "concat":
			x, vs, ok := textOf(v.a.args[0])
			y, ws, ok2 := textOf(v.a.args[1])
			return x + y, append(append([]Value(nil), vs...), ws...), ok && ok2
		}
	}
	return "", nil, false
}

// varargs lists the values handed over as the rest of the arguments.
func (e *Engine) varargs(st *State, v Value) []Value {
	s, ok := v.(*Slice)
	if !ok {
		if _, isN := v.(Nil); isN {
			return nil
		}
		panic(undecided("arguments that are not known"))
	}
	if s.obj == nil {
		return nil
	}
	c, ok := s.len.isConst()
	if !ok {
		panic(undecided("arguments that are not known"))
	}
	n := c.Num().Int64()
	var out []Value
	for i := int64(0); i < n; i++ {
		out = append(out, st.read(s.obj, Path{{idx: addInt(s.off, i)}}, types.NewInterfaceType(nil, nil)))
	}
	return out
}

// withSuffix is the key of a text with a suffix.
func withSuffix(v Value, suffix string) string {
	return symValue(appAtom("concat", false, v, &Str{suffix}), types.Typ[types.String]).Key()
}

func showVals(vs []Value) string {
	var t []string
	for _, v := range vs {
		t = append(t, showVal(v))
	}
	return strings.Join(t, ", ")
}
