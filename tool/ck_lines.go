package main

import (
	"fmt"
	"sort"
	"strings"
)

// lineKind is a kind of source line.
type lineKind struct {
	Name string
	Toks []tok
	Err  int  // 1: must be diagnosed, 0: must not, -1: depends on the arbitrary parts
	Nop  bool // yields an entry that is not executed
}

func lineKinds() []lineKind {
	k := func(n string, err int, nop bool, ts ...tok) lineKind {
		return lineKind{Name: n, Toks: ts, Err: err, Nop: nop}
	}
	w := func(s string) tok { return tok{Text: s} }
	x := func(s string) tok { return tok{Sym: s} }
	com := tok{Kind: "comment", Sym: "C"}
	wn := func(s string, n int) (ts []tok) {
		ts = append(ts, w(s))
		for i := 0; i < n; i++ {
			ts = append(ts, w(fmt.Sprint(i)))
		}
		return
	}
	return []lineKind{
		k("empty", 0, true),
		k("comment", 0, true, com),
		k("label", 0, true, w("a:")),
		k("label with comment", 0, true, w("a:"), com),
		k("label without name", 1, true, w(":")),
		k("label without name, with values", 1, true, w(":"), w("1")),
		k("unknown word", 1, true, w("frobnicate")),
		k("unknown word with values", 1, true, w("frobnicate"), x("X"), x("Y")),
		k("opcode", 0, false, w("sha256")),
		k("opcode with comment", 0, false, w("sha256"), com),
		k("opcode with missing value", 1, true, w("load")),
		k("opcode with missing value and comment", 1, true, w("load"), com),
		k("opcode with arbitrary value", -1, false, w("load"), x("X")),
		k("opcode with second value missing", -1, true, w("gtxn"), x("X")),
		k("opcode with superfluous value", 1, false, w("sha256"), x("X")),
		k("opcode with two superfluous values", 1, false, w("sha256"), x("X"), x("Y")),
		k("branch", -1, false, w("bnz"), w("a")),
		k("version pragma", -1, true, w("#pragma"), w("version"), x("V")),
		k("pragma without name", 1, true, w("#pragma")),
		k("pragma without value", 1, true, w("#pragma"), w("version")),
		k("unknown pragma", 1, true, w("#pragma"), w("frobnicate"), x("X")),
		k("pragma with superfluous value", 1, true, w("#pragma"), w("version"), w("8"), x("X")),
		k("block with comment", 0, false, append(wn("intcblock", 12), com)...),
		k("block with a bad value", 1, true, append(wn("intcblock", 12), w("x"))...),
		k("long label", 0, true, w(strings.Repeat("l", 100)+":")),
		k("two superfluous values and comment", 1, false, w("sha256"), w("1"), w("2"), com),
		k("label with instruction", 1, true, w("a:"), w("sha256")),
	}
}

// entryKey renders a listing entry without the identity of its memory.
func (c *Ctx) entryKey(p procOut, v Val) string {
	iv, ok := v.(*IfaceV)
	if !ok {
		return "?" + v.Key()
	}
	return typeName(iv.Dyn) + c.content(p.In, p.Out.St, iv.V, 3)
}

// renumber makes token names of line i look like those of line 0.
func renumber(s string, i int) string {
	return strings.ReplaceAll(s, fmt.Sprintf("t%d_", i), "t0_")
}

var progRules = map[string]bool{"LINT0001": true, "LINT0002": true, "LINT0003": true, "LINT0004": true, "LINT0005": true, "LINT0006": true}

// lineSummary is what one line yields, per line of the program.
func (c *Ctx) lineSummaries(p procOut, n int) ([]string, error) {
	ls, ok := p.seq("Listing")
	if !ok {
		return nil, fmt.Errorf("the listing could not be determined")
	}
	if len(ls) != n {
		return nil, fmt.Errorf("%d listing entries for %d lines", len(ls), n)
	}
	ts, ok := p.seq("Lines")
	if !ok {
		return nil, fmt.Errorf("the lines could not be determined")
	}
	if len(ts) != n {
		return nil, fmt.Errorf("%d token lines for %d lines", len(ts), n)
	}
	ds, err := c.diags(p)
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		var e []string
		for _, d := range ds {
			if d.Line == int64(i) && !progRules[d.Rule] {
				e = append(e, fmt.Sprintf("%s[%s:%s]s%d", d.Rule, d.Begin, d.End, d.Sev))
			}
		}
		q, ok := p.In.seqOf(p.Out.St, ts[i])
		if !ok {
			return nil, fmt.Errorf("line %d could not be determined", i)
		}
		out = append(out, renumber(fmt.Sprintf("entry %s; tokens %s; diagnostics %v", c.entryKey(p, ls[i]), strings.ReplaceAll(q.Key(), fmt.Sprintf(",%d,", i), ",LINE,"), e), i))
	}
	for _, d := range ds {
		if d.Line < 0 || d.Line >= int64(n) {
			return nil, fmt.Errorf("a diagnostic at line %d of a program with %d lines", d.Line, n)
		}
	}
	return out, nil
}

func checkP11(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of Process on every program of one and two lines (thorough: three) over " + fmt.Sprint(len(lineKinds())) + " kinds of lines (accepted, rejected in each way, comments, labels, pragmas), with arbitrary immediate values, comment texts and token positions: one listing entry and one token line per source line; the entry, tokens and line diagnostics at index i are those line i yields on its own; a line that must be rejected carries an error located on it, other lines carry none; Process never panics."
	r.floor("program", 400)
	kinds := lineKinds()
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("process", "process.go", "Process not found")
		return
	}
	pos := r.fnPos(fn)
	alone := map[int]map[string]bool{}
	run := func(ids []int) {
		var names []string
		var lines [][]tok
		for j, i := range ids {
			names = append(names, kinds[i].Name)
			l := append([]tok{}, kinds[i].Toks...)
			for k := range l {
				if l[k].Sym != "" && len(ids) > 1 {
					l[k].Sym += fmt.Sprintf("_%d", j)
				}
			}
			lines = append(lines, l)
		}
		key := strings.Join(names, " / ")
		if len(key) > 2000 {
			key = fmt.Sprintf("%d lines", len(ids))
		}
		r.count("program")
		outs, in, err := c.process(lines, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			return
		}
		r.incompl(in, key, pos)
		why := ""
		n := 0
		for _, p := range outs {
			if p.Res == nil {
				why = "Process can panic"
				continue
			}
			n++
			want := len(lines)
			// a last line without tokens is no line (the source ends after the line break)
			if len(lines[want-1]) == 0 {
				want--
			}
			sums, err := c.lineSummaries(p, want)
			if err != nil {
				why = err.Error()
				continue
			}
			for j, s := range sums {
				for k := range lines[j] {
					if lines[j][k].Sym != "" && len(ids) > 1 {
						s = strings.ReplaceAll(s, lines[j][k].Sym, kinds[ids[j]].Toks[k].Sym)
					}
				}
				if len(ids) == 1 {
					if alone[ids[0]] == nil {
						alone[ids[0]] = map[string]bool{}
					}
					alone[ids[0]][s] = true
					nErr := strings.Count(s, "]s1")
					isNop := strings.Contains(s, "entry *EmptyExpr") || strings.Contains(s, "entry *LabelExpr") || strings.Contains(s, "entry *PragmaExpr") || strings.Contains(s, "entry *CommentExpr")
					switch k := kinds[ids[0]]; {
					case k.Err == 1 && nErr == 0:
						why = "the line is not rejected: " + s
					case k.Err == 0 && nErr > 0:
						why = "the line is rejected: " + s
					case k.Err != 1 && nErr == 0 && isNop != k.Nop:
						why = "the line yields " + s
					case nErr > 0 && k.Err != 0 && k.Nop && !isNop:
						why = "a rejected line yields " + s
					}
					continue
				}
				if !alone[ids[j]][s] {
					why = fmt.Sprintf("line %d (%s) yields %s, which it does not yield alone", j, names[j], s)
				}
			}
		}
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "lines %s: %s", key, why)
	}
	for i := range kinds {
		if len(kinds[i].Toks) > 0 {
			run([]int{i})
		} else {
			// a line without tokens is one only when another follows it
			ref, _, err := c.process([][]tok{{}, {{Kind: "comment", Sym: "C"}}}, nil)
			alone[i] = map[string]bool{}
			why := ""
			for _, p := range ref {
				if p.Res == nil {
					why = "Process can panic"
					continue
				}
				ls, err := c.lineSummaries(p, 2)
				if err != nil {
					why = err.Error()
					continue
				}
				if !strings.HasPrefix(ls[0], "entry *EmptyExpr") || !strings.HasSuffix(ls[0], "diagnostics []") {
					why = "the line yields " + ls[0]
				}
				alone[i][ls[0]] = true
			}
			r.check(err == nil && why == "" && len(alone[i]) > 0, kinds[i].Name, pos, "a line without tokens: %s %v", why, err)
		}
	}
	for i := range kinds {
		for j := range kinds {
			run([]int{i, j})
		}
	}
	// longer programs; at most one of their lines has several outcomes
	g := prng(1)
	for k := 0; k < 60; k++ {
		var ids []int
		open := 1
		for len(ids) < 5+k/2 {
			i := g.n(len(kinds))
			if len(alone[i]) > 1 {
				if open == 0 {
					continue
				}
				open--
			}
			ids = append(ids, i)
		}
		run(append(ids, 2))
	}
	if r.Thorough {
		for i := range kinds {
			for j := range kinds {
				for k := range kinds {
					run([]int{i, j, k})
				}
			}
		}
	}
}

// ---- labels and references

// instr is a source line of the label and lint analyses.
type instr struct {
	Text  string // words
	Label string // defines
	Refs  []string
	Kind  string // nop, op, b, end, branch, pragma, label, comment
}

func (i instr) toks() []tok {
	if i.Kind == "comment" {
		return []tok{{Kind: "comment", Text: i.Text}}
	}
	return tokLine(strings.Fields(i.Text)...)
}

func progText(p []instr) string {
	var s []string
	for _, i := range p {
		if i.Text == "" {
			s = append(s, "(empty)")
		} else {
			s = append(s, i.Text)
		}
	}
	return strings.Join(s, "; ")
}

func eachProgram(alpha []instr, n int, f func(p []instr)) {
	p := make([]instr, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for _, a := range alpha {
			p[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// prng is a fixed sequence of choices: longer programs are picked with it.
type prng uint64

func (g *prng) n(n int) int {
	*g = *g*6364136223846793005 + 1442695040888963407
	return int(uint64(*g)>>33) % n
}

// someProgram picks a program of n lines.
func someProgram(g *prng, alpha []instr, n int) []instr {
	p := make([]instr, n)
	for i := range p {
		p[i] = alpha[g.n(len(alpha))]
	}
	return p
}

// moreLabels extends an alphabet with further labels: other cases, prefixes,
// long names, and references to them.
func moreLabels(alpha []instr) []instr {
	long := strings.Repeat("x", 90)
	for _, l := range []string{"A", "aa", "ab", "B", long, long + "y", "c1", "c2", "c3", "c4"} {
		alpha = append(alpha, instr{Text: l + ":", Label: l, Kind: "label"}, instr{Text: "b " + l, Refs: []string{l}, Kind: "b"})
	}
	alpha = append(alpha,
		instr{Text: "switch c1 c2 c3 c4 c1 c2", Refs: []string{"c1", "c2", "c3", "c4", "c1", "c2"}, Kind: "branch"},
		instr{Text: "match A a aa ab B b", Refs: []string{"A", "a", "aa", "ab", "B", "b"}, Kind: "branch"},
		instr{Text: "", Kind: "comment"})
	return alpha
}

// tokenKeys renders the tokens of a result list as line_column.
func (p procOut) tokenNames(field string) (string, bool) {
	vs, ok := p.seq(field)
	if !ok {
		return "", false
	}
	var out []string
	for _, v := range vs {
		out = append(out, tokenName(v))
	}
	return strings.Join(out, " "), true
}

// tokenName identifies a token by the arbitrary position it was given.
func tokenName(v Val) string {
	k := v.Key()
	i := strings.Index(k, "(t")
	if i < 0 {
		return "?" + k
	}
	j := strings.Index(k[i:], ")")
	return k[i+1 : i+j]
}

func checkP13(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of Process on every program of up to three lines (thorough: four) over an alphabet of label definitions, every kind of label reference, prototypes, comments and other instructions (token positions arbitrary): the symbols are exactly the label lines, in order, each with its name, line and token position, the comments and the prototype that belong to it; the references are exactly the label immediates, in order and with their positions; the missing references are exactly those without a definition; the reference counts are exact."
	r.floor("program", 1500)
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("process", "process.go", "Process not found")
		return
	}
	pos := r.fnPos(fn)
	alpha := []instr{
		{Text: "a:", Label: "a", Kind: "label"},
		{Text: "b:", Label: "b", Kind: "label"},
		{Text: "b a", Refs: []string{"a"}},
		{Text: "bz b", Refs: []string{"b"}},
		{Text: "bnz a", Refs: []string{"a"}},
		{Text: "callsub b", Refs: []string{"b"}},
		{Text: "switch a b", Refs: []string{"a", "b"}},
		{Text: "match b b", Refs: []string{"b", "b"}},
		{Text: "proto 1 2", Kind: "proto"},
		{Text: "first", Kind: "comment"},
		{Text: "sha256"},
		{Text: "load"}, // rejected
	}
	check := func(p []instr) {
		key := progText(p)
		r.count("program")
		var lines [][]tok
		for _, i := range p {
			lines = append(lines, i.toks())
		}
		outs, in, err := c.process(lines, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			return
		}
		r.incompl(in, key, pos)
		defined := map[string]bool{}
		for _, i := range p {
			if i.Label != "" {
				defined[i.Label] = true
			}
		}
		var syms, refs, miss []string
		counts := map[string]int{}
		var docs []string
		cur := ""
		sigs := map[string]string{}
		for li, i := range p {
			if i.Kind == "comment" {
				docs = append(docs, i.Text)
			}
			if i.Kind == "proto" && cur != "" {
				ws := strings.Fields(i.Text)
				sigs[cur] = "in: " + ws[1] + ", out: " + ws[2]
			}
			if i.Label != "" {
				syms = append(syms, fmt.Sprintf("%s@%d t%d_0 docs=%q", i.Label, li, li, strings.Join(docs, "\n")))
				docs = nil
				cur = i.Label
			}
			for k, x := range i.Refs {
				refs = append(refs, fmt.Sprintf("t%d_%d", li, k+1))
				if !defined[x] {
					miss = append(miss, fmt.Sprintf("t%d_%d", li, k+1))
				}
				counts[x]++
			}
		}
		for k := range syms {
			syms[k] += " sig=" + fmt.Sprintf("%q", sigs[strings.SplitN(syms[k], "@", 2)[0]])
		}
		why := ""
		n := 0
		for _, o := range outs {
			if o.Res == nil {
				why = "Process can panic"
				continue
			}
			n++
			if s, ok := o.tokenNames("SymbolRefs"); !ok || s != strings.Join(refs, " ") {
				why = fmt.Sprintf("the references are [%s] instead of %v", s, refs)
			}
			if s, ok := o.tokenNames("MissRefs"); !ok || s != strings.Join(miss, " ") {
				why = fmt.Sprintf("the missing references are [%s] instead of %v", s, miss)
			}
			vs, ok := o.seq("Symbols")
			if !ok {
				why = "the symbols could not be determined"
				continue
			}
			var got []string
			for _, v := range vs {
				f := map[string]Val{}
				for _, m := range []string{"Name", "Line", "Begin", "End", "StartLine", "EndLine", "StartCharacter", "EndCharacter", "Docs", "Signature"} {
					x, _, err := c.callMethod(in, o.Out.St, v, m)
					if err != nil {
						why = err.Error()
						break
					}
					f[m] = x
				}
				if len(f) < 10 {
					continue
				}
				nm, _ := constStr(f["Name"])
				dc, _ := constStr(f["Docs"])
				sg, _ := constStr(f["Signature"])
				if f["Begin"].Key() == f["End"].Key() || f["Begin"].Key() != f["StartCharacter"].Key() || f["End"].Key() != f["EndCharacter"].Key() || f["StartLine"].Key() != f["Line"].Key() || f["EndLine"].Key() != f["Line"].Key() {
					why = "the position of a symbol is inconsistent"
				}
				t1, t2 := tokenName(f["Begin"]), tokenName(f["End"])
				if t1 != t2 {
					why = fmt.Sprintf("a symbol extends from %s to %s", t1, t2)
				}
				got = append(got, fmt.Sprintf("%s@%s %s docs=%q sig=%q", nm, f["Line"].Key(), t1, dc, sg))
			}
			if !sameStrs(got, syms) {
				why = fmt.Sprintf("the symbols are %v instead of %v", got, syms)
			}
			rc, ok := o.field("RefCounts").(*MapRef)
			if !ok {
				why = "the reference counts could not be determined"
				continue
			}
			mc, _ := o.Out.St.get(rc.Cell).(*MapC)
			gc := map[string]int{}
			if mc != nil {
				for _, k := range mc.Keys {
					s, _ := constStr(k)
					if x, ok := constInt(mc.M[k.Key()]); ok && x != 0 {
						gc[s] = int(x)
					}
				}
			}
			if mc == nil || fmt.Sprint(gc) != fmt.Sprint(counts) {
				why = fmt.Sprintf("the reference counts are %v instead of %v", gc, counts)
			}
		}
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "program %q: %s", key, why)
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	for n := 1; n <= max; n++ {
		eachProgram(alpha, n, check)
	}
	// longer programs over a larger alphabet
	g := prng(1)
	var notes []instr
	for _, t := range []string{"second", "third", "fourth", "first"} {
		notes = append(notes, instr{Text: t, Kind: "comment"})
	}
	wide := append(moreLabels(alpha), instr{Text: "proto 3 0", Kind: "proto"}, instr{Text: "proto 0 1", Kind: "proto"})
	wide = append(wide, notes...)
	few := []instr{alpha[0], alpha[1], alpha[2], {Text: "proto 3 0", Kind: "proto"}, alpha[8]}
	docs := append([]instr{alpha[0], alpha[10]}, append(notes, notes...)...)
	for k := 0; k < 60; k++ {
		check(someProgram(&g, wide, 6+k))
		check(someProgram(&g, few, 4+k%6))
		check(someProgram(&g, docs, 8+k%20))
	}
}

// ---- lint rules

func checkP14(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of Process on every program of up to three lines (thorough: four) over an alphabet with two labels, every kind of reference to them, unconditional ends, other instructions, lines that are not executed and pragmas: the reported findings (rule, line) and removable lines are exactly those of an independent formulation of the rules (duplicate label, unused label, unreachable code, redundant branch, missing label, infinite loop, late version pragma); every rule reported is registered, with a unique identifier and a description; severities are fixed per rule."
	r.floor("program", 1500)
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("process", "process.go", "Process not found")
		return
	}
	pos := r.fnPos(fn)
	registered := c.lintRules(r)
	alpha := []instr{
		{Text: "a:", Label: "a", Kind: "label"},
		{Text: "b:", Label: "b", Kind: "label"},
		{Text: "b a", Refs: []string{"a"}, Kind: "b"},
		{Text: "b b", Refs: []string{"b"}, Kind: "b"},
		{Text: "bz a", Refs: []string{"a"}, Kind: "branch"},
		{Text: "callsub b", Refs: []string{"b"}, Kind: "branch"},
		{Text: "switch a b", Refs: []string{"a", "b"}, Kind: "branch"},
		{Text: "return", Kind: "end"},
		{Text: "err", Kind: "end"},
		{Text: "retsub", Kind: "ret"},
		{Text: "sha256", Kind: "op"},
		{Text: "note", Kind: "comment"},
		{Text: "#pragma version 8", Kind: "pragma"},
	}
	check := func(p []instr) {
		key := progText(p)
		r.count("program")
		var lines [][]tok
		for _, i := range p {
			lines = append(lines, i.toks())
		}
		outs, in, err := c.process(lines, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			return
		}
		r.incompl(in, key, pos)
		want, wantRed := lintOracle(p)
		why := ""
		n := 0
		for _, o := range outs {
			if o.Res == nil {
				why = "Process can panic"
				continue
			}
			n++
			ds, err := c.diags(o)
			if err != nil {
				why = err.Error()
				continue
			}
			var got []string
			for _, d := range ds {
				if d.Rule != "" && !registered[d.Rule] && strings.HasPrefix(d.Rule, "LINT") {
					why = "a finding carries the rule " + d.Rule + ", which is not registered"
				}
				if progRules[d.Rule] {
					got = append(got, fmt.Sprintf("%s@%d/s%d", d.Rule, d.Line, d.Sev))
					if tl := p[d.Line]; len(tl.toks()) > 0 {
						a, b := fmt.Sprintf("(t%d_0)", d.Line), fmt.Sprintf("(t%d_%d)", d.Line, len(tl.toks())-1)
						if !strings.HasSuffix(d.Begin, a) || !strings.HasSuffix(d.End, b) {
							why = "a finding does not cover its line: " + d.String()
						}
					}
				}
			}
			sort.Strings(got)
			if !sameStrs(got, want) {
				why = fmt.Sprintf("the findings are %v instead of %v", got, want)
			}
			vs, ok := o.seq("Redundants")
			if !ok {
				why = "the removable lines could not be determined"
				continue
			}
			var red []string
			for _, v := range vs {
				x, _, err := c.callMethod(in, o.Out.St, v, "Line")
				if err != nil {
					why = err.Error()
					break
				}
				red = append(red, x.Key())
			}
			if lf, err := c.lintOf(in, o); err != nil {
				why = err.Error()
			} else if !sameStrs(lf, want) {
				why = fmt.Sprintf("linting the listing alone finds %v instead of %v", lf, want)
			}
			sort.Strings(red)
			if !sameStrs(red, wantRed) {
				why = fmt.Sprintf("the lines offered for removal are %v instead of %v", red, wantRed)
			}
		}
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "program %q: %s", key, why)
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	for n := 1; n <= max; n++ {
		eachProgram(alpha, n, check)
	}
	// longer programs, over the same and over a larger alphabet
	g := prng(1)
	wide := moreLabels(alpha)
	loops := []instr{alpha[0], alpha[1], alpha[2], alpha[3], alpha[10], alpha[11], {Text: "dup", Kind: "op"}, {Text: "pop", Kind: "op"}}
	ends := append([]instr{alpha[7], alpha[8], alpha[9]}, loops...)
	for k := 0; k < 60; k++ {
		check(someProgram(&g, alpha, 4+k%8))
		check(someProgram(&g, wide, 6+k))
		check(someProgram(&g, loops, 4+k%12))
		check(someProgram(&g, ends, 5+k%12))
	}
}

// lintOf are the findings of Listing.Lint on the listing of a program.
func (c *Ctx) lintOf(in *Interp, o procOut) ([]string, error) {
	v, st, err := c.callMethod(in, o.Out.St, &IfaceV{Dyn: c.listingType(), V: o.field("Listing")}, "Lint")
	if err != nil {
		return nil, err
	}
	q, ok := in.seqOf(st, v)
	if !ok && !isNilConst(v) {
		return nil, fmt.Errorf("the findings on a listing could not be determined")
	}
	var out []string
	if q == nil {
		return nil, nil
	}
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			return nil, fmt.Errorf("the findings on a listing could not be determined")
		}
		var p []string
		for _, m := range []string{"Rule", "Line", "Severity"} {
			x, _, err := c.callMethod(in, st, g.V, m)
			if err != nil {
				return nil, err
			}
			s, ok := constStr(x)
			if !ok {
				s = x.Key()
			}
			p = append(p, s)
		}
		out = append(out, p[0]+"@"+p[1]+"/s"+p[2])
	}
	sort.Strings(out)
	return out, nil
}

// lintOracle is an independent formulation of the lint rules.
func lintOracle(p []instr) (finds, red []string) {
	add := func(rule string, line int, sev int) {
		finds = append(finds, fmt.Sprintf("%s@%d/s%d", rule, line, sev))
	}
	defs := map[string][]int{}
	uses := map[string]int{}
	for i, x := range p {
		if x.Label != "" {
			defs[x.Label] = append(defs[x.Label], i)
		}
		for _, l := range x.Refs {
			uses[l]++
		}
	}
	executable := func(x instr) bool { return x.Kind != "label" && x.Kind != "comment" && x.Kind != "pragma" }
	seenInstr := false
	reach := true
	for i, x := range p {
		if x.Label != "" {
			if len(defs[x.Label]) > 1 {
				add("LINT0001", i, 1)
			}
			if uses[x.Label] == 0 {
				add("LINT0002", i, 2)
				red = append(red, fmt.Sprint(i))
			} else {
				reach = true
			}
		}
		if executable(x) && !reach {
			add("LINT0003", i, 2)
		}
		if x.Kind == "b" || x.Kind == "end" || x.Kind == "ret" {
			reach = false
		}
		for _, l := range x.Refs {
			if len(defs[l]) == 0 {
				add("LINT0005", i, 1)
			}
		}
		if x.Kind == "b" {
			for j := i + 1; j < len(p); j++ {
				if p[j].Label == x.Refs[0] {
					add("LINT0004", i, 2)
					red = append(red, fmt.Sprint(i))
				}
				if p[j].Label != "" || executable(p[j]) {
					break
				}
			}
			// the nearest earlier definition of the target
			for j := i - 1; j >= 0; j-- {
				if p[j].Label != x.Refs[0] {
					continue
				}
				escapes := false
				for k := j; k <= i; k++ {
					if p[k].Kind == "end" || p[k].Kind == "ret" {
						escapes = true
					}
					for _, l := range p[k].Refs {
						for _, d := range defs[l] {
							if d < j || d > i {
								escapes = true
							}
						}
					}
				}
				if !escapes {
					add("LINT0005", i, 1)
				}
				break
			}
		}
		if x.Kind == "pragma" {
			if seenInstr {
				add("LINT0006", i, 1)
			}
			seenInstr = true // a second version pragma is late as well
		}
		if executable(x) {
			seenInstr = true
		}
	}
	sort.Strings(finds)
	sort.Strings(red)
	return
}

// lintRules checks the rule registry and returns the registered identifiers.
func (c *Ctx) lintRules(r *Report) map[string]bool {
	out := map[string]bool{}
	vs, ok := c.elems(c.Global("", "LintRules"))
	if !ok {
		r.bad("rules", "linter.go", "the rule registry could not be evaluated")
		return out
	}
	in := c.NewAnalysis(allGlobals)
	for i, v := range vs {
		key := fmt.Sprintf("rule/%d", i)
		iv, ok := v.(*IfaceV)
		if !ok {
			r.bad(key, "linter.go", "rule %d is not known", i)
			continue
		}
		pos := r.fnPos(c.method(iv, "Id"))
		id, _, err := c.callMethod(in, in.NewState(), v, "Id")
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		s, ok := constStr(id)
		r.check(ok && s != "" && !out[s], key+"/id", pos, "the identifier %s of a lint rule is not constant, empty or not unique", id.Key())
		out[s] = true
		d, _, err := c.callMethod(in, in.NewState(), v, "Desc")
		if err != nil {
			r.bad(key+"/desc", pos, "%v", err)
			continue
		}
		ds, ok := constStr(d)
		r.check(ok && ds != "", key+"/desc", pos, "rule %s has no description", s)
	}
	for i := 1; i <= 8; i++ {
		id := fmt.Sprintf("LINT%04d", i)
		r.check(out[id], "rule/"+id, "linter.go", "rule %s is not registered", id)
	}
	return out
}
