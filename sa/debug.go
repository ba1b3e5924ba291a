package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// symParams makes a symbolic argument for each parameter.
func symParams(f *ssa.Function) []Value {
	var out []Value
	for _, p := range f.Params {
		out = append(out, symValue(symAtom("arg:"+p.Name(), isIntType(p.Type()), nil), p.Type()))
	}
	return out
}

func debugExec(repo, what string) {
	l, err := load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ps := strings.Split(what, ":")
	var f *ssa.Function
	if len(ps) == 3 {
		f = l.method(l.typ(ps[0], ps[1]), ps[2])
	} else {
		f = l.fn(ps[0], ps[1])
	}
	e := newEngine(l)
	e.onPanic = func(e *Engine, st *State, at ssa.Instruction) { fmt.Println("panic reachable at", e.at(at)) }
	st := newState()
	for _, o := range e.execFunc(st, f, symParams(f), nil, f.Name(), nil) {
		fmt.Println("--- outcome panicked", o.panicked)
		if o.res != nil {
			fmt.Println(" res", o.res.Key())
		}
		for _, k := range sortedKeys(o.st.heap) {
			fmt.Println(" heap", o.st.heap[k].Key())
		}
		for _, c := range o.st.facts.cs {
			fmt.Println(" fact", c.Key())
		}
	}
	fmt.Println("steps", e.steps, "counts", e.counts)
}

func dumpState(s *State) {
	for _, k := range sortedKeys(s.heap) {
		fmt.Println(" heap", s.heap[k].Key())
	}
	for _, c := range s.facts.cs {
		fmt.Println(" fact", c.Key())
	}
	seen := map[string]bool{}
	for _, k := range sortedKeys(s.heap) {
		for _, en := range s.heap[k].ents {
			if !en.rng {
				deepAtoms(en.val, func(a *Atom) {
					if !seen[a.key] {
						seen[a.key] = true
						fmt.Println("  atom", a.short(), "=", a.key)
					}
				})
			}
		}
	}
}

var debugDrop = os.Getenv("TRISA_DROP") != ""

// dbg prints progress when debugging.
func dbg(what string, a ...any) {
	if os.Getenv("TRISA_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05"), what, fmt.Sprint(a...))
	}
}

func keysOf(f *Facts) (out []string) {
	for k := range f.set {
		out = append(out, k+"\n")
	}
	return
}
