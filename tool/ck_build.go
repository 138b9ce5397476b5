package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- P36

// flowNode is an instruction of a listing, as a control flow graph reads it.
type flowNode struct {
	act  string // what it does, apart from where it goes
	outs []int  // where it can go, in order (-1: the end of the program)
	jump bool   // a silent jump
	nop  bool
}

// flowGraph reads a printed listing as a control flow graph.
func flowGraph(lines []string) (g []flowNode, why string) {
	at := map[string]int{}
	for i, l := range lines {
		if strings.HasSuffix(l, ":") && !strings.HasPrefix(l, "//") {
			n := strings.TrimSuffix(l, ":")
			if _, dup := at[n]; dup {
				return nil, "the label " + n + " is there twice"
			}
			at[n] = i
		}
	}
	for i, l := range lines {
		w := strings.Fields(l)
		n := flowNode{}
		dest := func(ls []string) bool {
			for _, x := range ls {
				k, ok := at[x]
				if !ok {
					why = fmt.Sprintf("%q has no target any more", l)
					return false
				}
				n.outs = append(n.outs, k)
			}
			return true
		}
		ok := true
		switch {
		case len(w) == 0, strings.HasPrefix(l, "//"), strings.HasPrefix(l, "#"), strings.HasSuffix(l, ":"):
			n.nop, n.outs = true, []int{i + 1}
		case w[0] == "b":
			n.jump = true
			ok = dest(w[1:])
		case w[0] == "bz", w[0] == "bnz", w[0] == "callsub", w[0] == "switch", w[0] == "match":
			n.act = fmt.Sprint(w[0], len(w))
			ok = dest(w[1:])
			n.outs = append(n.outs, i+1)
		case w[0] == "return", w[0] == "err", w[0] == "retsub":
			n.act = w[0]
		default:
			n.act, n.outs = l, []int{i + 1}
		}
		if !ok {
			return nil, why
		}
		g = append(g, n)
	}
	return g, ""
}

// settle follows jumps and lines that do nothing.
func settle(g []flowNode, i int) int {
	for n := 0; n <= len(g); n++ {
		if i >= len(g) {
			return -1
		}
		if !g[i].jump && !g[i].nop {
			return i
		}
		i = g[i].outs[0]
	}
	return -2 // for ever
}

// sameFlow compares two graphs from their beginnings.
func sameFlow(a, b []flowNode) string {
	seen := map[[2]int]bool{}
	var walk func(i, j int, path string) string
	walk = func(i, j int, path string) string {
		i, j = settle(a, i), settle(b, j)
		if seen[[2]int{i, j}] {
			return ""
		}
		seen[[2]int{i, j}] = true
		name := func(g []flowNode, k int) string {
			switch k {
			case -1:
				return "the end"
			case -2:
				return "an endless loop"
			}
			return g[k].act
		}
		if name(a, i) != name(b, j) {
			return fmt.Sprintf("after [%s] comes %s instead of %s", strings.TrimSpace(path), name(b, j), name(a, i))
		}
		if i < 0 {
			return ""
		}
		for k := range a[i].outs {
			if w := walk(a[i].outs[k], b[j].outs[k], fmt.Sprintf("%s %s>%d", path, a[i].act, k)); w != "" {
				return w
			}
		}
		return ""
	}
	return walk(0, 0, "")
}

// flowPrograms enumerates short programs over control flow instructions.
func flowPrograms(thorough bool, each func(lines []string)) {
	alpha := []string{"int 1", "a:", "z:", "b a", "b z", "bz a", "bnz z", "callsub a", "switch a z", "match z a", "retsub", "return", "err", "// note", "", "proto 0 0", "#pragma version 8"}
	ok := func(p []string) bool {
		def := map[string]int{}
		for _, l := range p {
			if strings.HasSuffix(l, ":") {
				def[l]++
			}
		}
		for _, n := range def {
			if n > 1 {
				return false
			}
		}
		for _, l := range p {
			w := strings.Fields(l)
			if len(w) > 1 {
				switch w[0] {
				case "b", "bz", "bnz", "callsub", "switch", "match":
					for _, x := range w[1:] {
						if def[x+":"] == 0 {
							return false
						}
					}
				}
			}
		}
		return true
	}
	var rec func(p []string, n int)
	rec = func(p []string, n int) {
		if ok(p) {
			each(append([]string{}, p...))
		}
		if n == 0 {
			return
		}
		for _, l := range alpha {
			rec(append(p[:len(p):len(p)], l), n-1)
		}
	}
	rec(nil, 4)
	g := prng(20240607)
	samples, lo, hi := 2500, 4, 9
	if thorough {
		samples, hi = 40000, 14
	}
	for k := 0; k < samples; {
		n := lo + g.n(hi-lo+1)
		var p []string
		for i := 0; i < n; i++ {
			l := alpha[g.n(len(alpha))]
			if g.n(3) == 0 {
				l = alpha[1+g.n(4)]
			}
			p = append(p, l)
		}
		// make the labels defined, once each
		for _, l := range []string{"a:", "z:"} {
			m := 0
			for i := range p {
				if p[i] == l {
					if m++; m > 1 {
						p[i] = "int 1"
					}
				}
			}
			if m == 0 && strings.Contains(strings.Join(p, "\n")+"\n", " "+l[:1]) {
				i := g.n(len(p) + 1)
				p = append(p[:i:i], append([]string{l}, p[i:]...)...)
			}
		}
		if ok(p) {
			each(p)
			k++
		}
	}
}

// opStock holds instructions parsed from source lines, for building listings.
type opStock struct {
	c   *Ctx
	st  *State
	ops map[string]Val
}

func (c *Ctx) stock(lines []string) (*opStock, error) {
	var prog [][]tok
	for _, l := range lines {
		if strings.HasPrefix(l, "//") {
			prog = append(prog, []tok{{Text: strings.TrimPrefix(l, "//"), Kind: "comment"}})
			continue
		}
		prog = append(prog, tokLine(strings.Fields(l)...))
	}
	ps, in, err := c.process(prog, nil)
	if err != nil {
		return nil, err
	}
	if len(in.Incompl) > 0 {
		return nil, fmt.Errorf("%s", in.Incompl[0])
	}
	for _, p := range ps {
		if p.Out.Kind != OutReturn {
			continue
		}
		ls, ok := p.seq("Listing")
		if !ok || len(ls) != len(lines) {
			return nil, fmt.Errorf("the listing of the sample program could not be determined")
		}
		s := &opStock{c: c, st: p.Out.St, ops: map[string]Val{}}
		for i, l := range lines {
			s.ops[l] = ls[i]
		}
		return s, nil
	}
	return nil, fmt.Errorf("the sample program is not processed")
}

func (c *Ctx) listingType() *types.Named { return c.P.Type("", "Listing") }

// listingOf puts instructions together.
func (s *opStock) listingOf(in *Interp, st *State, lines []string) Val {
	lt := s.c.listingType()
	q := &Seq{T: lt.Underlying().(*types.Slice).Elem()}
	for _, l := range lines {
		q.Segs = append(q.Segs, Seg{Kind: SegElem, V: importVal(in, st, s.st, s.ops[l], map[int]int{})})
	}
	return in.newSlice(st, q, lt)
}

// texts prints each instruction of a listing.
func (c *Ctx) texts(in *Interp, st *State, l Val) (out []string, err error) {
	if isNilConst(l) {
		return nil, nil
	}
	q, ok := in.seqOf(st, l)
	if !ok {
		return nil, fmt.Errorf("the listing could not be determined: %s", l.Key())
	}
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			return nil, fmt.Errorf("the listing could not be determined")
		}
		v, _, err := c.callMethod(in, st, g.V, "String")
		if err != nil {
			return nil, err
		}
		s, ok := constStr(v)
		if !ok {
			s = v.Key()
		}
		out = append(out, s)
	}
	return out, nil
}

func checkP36(c *Ctx, r *Report) {
	r.Rule = "For every program shape over labels, jumps, conditional branches, calls, returns, tables, comments and ordinary instructions (all shapes of up to four lines, a fixed sample of longer ones): the optimiser is interpreted abstractly on its listing, and the control flow graphs of the listing before and after are compared from their beginnings: the same instructions in the same order along every path, each branch with the same targets, nothing falling off where it did not, pragmas kept in order, the original listing unchanged. Jumps and lines that do nothing are silent."
	r.floor("program", 15000)
	lt := c.listingType()
	var fn *ssa.Function
	if lt != nil {
		fn = c.P.Method(lt, "Optimize")
	}
	if fn == nil {
		r.bad("Optimize", "compiler.go", "Listing.Optimize not found")
		return
	}
	pos := r.fnPos(fn)
	all := []string{"#pragma version 8", "int 1", "a:", "z:", "b a", "b z", "bz a", "bnz z", "callsub a", "switch a z", "match z a", "retsub", "return", "err", "// note", "", "proto 0 0"}
	s, err := c.stock(all)
	if err != nil {
		r.bad("sample", pos, "%v", err)
		return
	}
	flowPrograms(r.Thorough, func(lines []string) {
		key := strings.Join(lines, ";")
		r.count("program")
		in := c.NewAnalysis(allGlobals)
		in.Unroll, in.Exact, in.NoSummary, in.MaxVisits = true, true, true, 2000
		st := in.NewState()
		l := s.listingOf(in, st, lines)
		before, err := c.texts(in, st, l)
		if err != nil {
			r.bad(key, pos, "%v", err)
			return
		}
		outs := in.Call(st, fn, []Val{l}, nil, 0)
		r.incompl(in, key, pos)
		why, n := "", 0
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			n++
			if o.Kind != OutReturn || len(o.Vals) != 1 {
				why = "the optimiser can crash"
				break
			}
			after, err := c.texts(in, o.St, o.Vals[0])
			if err != nil {
				why = err.Error()
				break
			}
			a, w := flowGraph(before)
			if w != "" {
				why = "before: " + w
				break
			}
			b, w := flowGraph(after)
			if w == "" {
				w = sameFlow(a, b)
			}
			if w == "" && pragmas(before) != pragmas(after) {
				w = "the pragmas are not the same"
			}
			if w == "" {
				kept, err := c.texts(in, o.St, l)
				if err != nil {
					w = err.Error()
				} else if !sameStrs(before, kept) {
					w = fmt.Sprintf("the original listing is changed to %q", kept)
				}
			}
			if w != "" {
				why = fmt.Sprintf("optimising %q gives %q: %s", before, after, w)
				break
			}
		}
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "%s", why)
	})
}

func pragmas(ls []string) string {
	var out []string
	for _, l := range ls {
		if strings.HasPrefix(l, "#") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
