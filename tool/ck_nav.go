package main

import (
	"fmt"
	"sort"
	"strings"
)

// navTok is a label or a reference with its extent.
type navTok struct {
	name     string
	line     int
	b, e, ne Val // extent of the token, end of the name
}

func colVal(line int, c int64) Val { return linAdd(indentOf(line), mkInt(c, intT), 1, intT) }

// navOf lists the labels and the references of a program.
func navOf(prog [][]tok) (labels, refs []navTok) {
	for li, l := range prog {
		var ws []tok
		for _, t := range l {
			if t.Kind != "comment" {
				ws = append(ws, t)
			}
		}
		if len(ws) == 0 {
			continue
		}
		at := func(k int, name string) navTok {
			b, e := tokCols(l, k)
			return navTok{name, li, colVal(li, b), colVal(li, e), colVal(li, b+int64(len(name)))}
		}
		op := ws[0].Text
		if strings.HasSuffix(op, ":") && len(ws) == 1 {
			labels = append(labels, at(0, strings.TrimSuffix(op, ":")))
			continue
		}
		switch op {
		case "b", "bz", "bnz", "callsub", "switch", "match":
			for k := 1; k < len(ws); k++ {
				refs = append(refs, at(k, ws[k].Text))
			}
		}
	}
	return
}

func jrange(line int, b, e Val) string {
	return fmt.Sprintf("%d:%s-%d:%s", line, b.Key(), line, e.Key())
}

// rangeOf renders a range of a reply with the facts of the path.
func rangeOf(fs *Facts, j *jv) string {
	if j == nil {
		return "no range"
	}
	p := func(q *jv) string {
		l, ch := q.at("line"), q.at("character")
		if l == nil || ch == nil || l.V == nil || ch.V == nil {
			return "?"
		}
		return fs.constOf(l.V).Key() + ":" + fs.constOf(ch.V).Key()
	}
	return p(j.at("start")) + "-" + p(j.at("end"))
}

func navKinds() map[string][]tok {
	return map[string][]tok{
		"a:":   tokLine("a:"),
		"lbl:": tokLine("lbl:"),
		"b":    tokLine("b", "a"),
		"call": tokLine("callsub", "lbl"),
		"sw":   tokLine("switch", "lbl", "a", "lbl"),
		"miss": tokLine("bnz", "zz"),
		"int":  tokLine("int", "1"),
		"//":   {tok{Text: " a", Kind: "comment"}},
		"b//":  {tok{Text: "bz"}, tok{Text: "lbl"}, tok{Text: " a", Kind: "comment"}},
		"":     {},
	}
}

func keyList(keys []string) string {
	sort.Strings(keys)
	return strings.Join(keys, " ")
}

// checkP25: navigation between labels and references.
func checkP25(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the language server over every small program with labels and references, with arbitrary indentation and an arbitrary column of the request: on every path the ranges in the reply are compared with those of an independent formulation, whose open cases are split until the path's facts decide them"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	kinds := navKinds()
	names := sortedKeys(kinds)
	var progs [][]string
	for _, a := range names {
		progs = append(progs, []string{a})
		for _, b := range names {
			progs = append(progs, []string{a, b})
		}
	}
	three := []string{"a:", "lbl:", "b", "call", "sw"}
	if r.Thorough {
		three = names
	}
	for _, a := range three {
		for _, b := range three {
			for _, d := range three {
				progs = append(progs, []string{a, b, d})
			}
		}
	}
	for _, pn := range progs {
		var prog [][]tok
		for _, n := range pn {
			prog = append(prog, kinds[n])
		}
		c.navigate(r, strings.Join(pn, "; "), pos, prog, nil, false)
	}
	// names that resemble each other, names of opcodes, and longer programs
	tl := func(ls ...string) (p [][]tok) {
		for _, l := range ls {
			p = append(p, tokLine(strings.Fields(l)...))
		}
		return
	}
	long := tl("#pragma version 8", "main:", "callsub Main")
	for i := 0; i < 12; i++ {
		long = append(long, tl("int 1", "bnz main", fmt.Sprintf("l%d:", i), fmt.Sprintf("b l%d", 11-i))...)
	}
	long = append(long, tl("Main:", "switch main Main l1 l11", "b l1", "b main")...)
	for _, x := range []struct {
		n string
		p [][]tok
		l []int
	}{
		{"case", tl("a:", "A:", "b a", "b A", "switch a A"), nil},
		{"prefix", tl("a:", "aa:", "ab:", "ba:", "b a", "b aa", "match ba ab a"), nil},
		{"opcodes", tl("b:", "int:", "b int", "bz b", "int 1"), nil},
		{"odd names", tl("1:", "_:", "b 1", "bz _", "a.b:", "switch a.b a b"), nil},
		{"undefined", tl("b x", "bz X", "switch x xx", "xx:"), nil},
		{"twice in a line", tl("match a a", "a:", "callsub a", "a:"), nil},
		{"long", long, []int{1, 2, 4, 5, len(long) - 3, len(long) - 1}},
	} {
		c.navigate(r, x.n, pos, x.p, x.l, true)
	}
	r.floor("programs", 200)
	r.floor("positions", 2000)
}

func (c *Ctx) navigate(r *Report, pk, pos string, prog [][]tok, lines []int, concrete bool) {
	ps := map[string][][]tok{"P": prog}
	labels, refs := navOf(prog)
	setup := func(s *srv) { s.indent = true }
	if concrete {
		// every line starts at column 0
		setup = func(s *srv) { s.indent, s.flat = true, true }
		flat := func(ts []navTok) {
			for i := range ts {
				ind := indentOf(ts[i].line)
				for _, v := range []*Val{&ts[i].b, &ts[i].e, &ts[i].ne} {
					*v = linAdd(*v, ind, -1, intT)
				}
			}
		}
		flat(labels)
		flat(refs)
	}
	ask := func(key, method string, params *jv, fn func(o srvOut, res *jv)) {
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), method, params)}, ps, nil, setup) {
			rs := o.replies("ID")
			if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result (%s)", sentStr(o)) {
				continue
			}
			fn(o, rs[0].at("result"))
		}
	}
	td := jo("textDocument", jdoc("u1"))
	ask(pk+"/symbols", "textDocument/documentSymbol", td, func(o srvOut, res *jv) {
		var got, want []string
		for _, s := range res.list() {
			got = append(got, strings.Trim(s.at("name").String(), `"`)+"@"+rangeOf(o.Out.St.facts, s.at("range"))+"/"+rangeOf(o.Out.St.facts, s.at("selectionRange")))
		}
		for _, l := range labels {
			rg := jrange(l.line, l.b, l.e)
			want = append(want, l.name+"@"+rg+"/"+rg)
		}
		r.check(!res.Open && strings.Join(got, " ") == strings.Join(want, " "), pk+"/symbols", pos, "the symbols are %v instead of %v", got, want)
	})
	ask(pk+"/lenses", "textDocument/codeLens", td, func(o srvOut, res *jv) {
		var got, want []string
		for _, s := range res.list() {
			l := s.at("range", "start", "line").String() + "-" + s.at("range", "end", "line").String()
			got = append(got, l+" "+s.at("command", "title").String())
		}
		for _, l := range labels {
			n := 0
			for _, f := range refs {
				if f.name == l.name {
					n++
				}
			}
			if n > 0 {
				want = append(want, fmt.Sprintf("%d-%d %q", l.line, l.line, fmt.Sprintf("refs: %d", n)))
			}
		}
		r.check(!res.Open && strings.Join(got, "|") == strings.Join(want, "|"), pk+"/lenses", pos, "the lenses are %v instead of %v", got, want)
	})
	r.count("programs")
	cv := &Sym{Name: "C", T: intT}
	if lines == nil {
		for line := 0; line <= len(prog); line++ {
			lines = append(lines, line)
		}
	}
	for _, line := range lines {
		line := line
		params := func() *jv {
			return jo("textDocument", jdoc("u1"), "position", jpos(jint(int64(line)), jnum("C")))
		}
		// hit finds what is at the position, splitting the path's open cases
		within := func(askc func(cond) bool, t navTok) bool {
			return t.line == line && askc(cond{op: "le", a: t.b, b: cv}) && askc(cond{op: "le", a: cv, b: t.e})
		}
		hit := func(askc func(cond) bool, ts []navTok) *navTok {
			for i := range ts {
				if within(askc, ts[i]) {
					return &ts[i]
				}
			}
			return nil
		}
		key := fmt.Sprintf("%s/line %d", pk, line)
		all := func(name string, lab bool) []string {
			var w []string
			if lab {
				for _, l := range labels {
					if l.name == name {
						w = append(w, jrange(l.line, l.b, l.ne))
					}
				}
			}
			for _, f := range refs {
				if f.name == name {
					w = append(w, jrange(f.line, f.b, f.e))
				}
			}
			return w
		}
		compare := func(o srvOut, what string, got func(fs *Facts) []string, want func(sym, ref *navTok) []string) {
			base := o.Out.St.facts.clone()
			if base.decide(cond{op: "le", a: mkInt(0, intT), b: cv}) == 0 {
				return // columns are not negative
			}
			base.assume(cond{op: "le", a: mkInt(0, intT), b: cv})
			for l := range prog {
				base.assume(cond{op: "le", a: mkInt(0, intT), b: indentOf(l)})
			}
			base.split(func(fs *Facts, askc func(cond) bool) {
				sym := hit(askc, labels)
				var ref *navTok
				if sym == nil {
					ref = hit(askc, refs)
				}
				g, w := keyList(got(fs)), keyList(want(sym, ref))
				at := "nothing"
				if sym != nil {
					at = "label " + sym.name
				} else if ref != nil {
					at = "reference " + ref.name
				}
				r.check(g == w, key+"/"+what+"/"+at, pos, "at %s the ranges are [%s] instead of [%s]", at, g, w)
			})
			r.count("positions")
		}
		ask(key+"/definition", "textDocument/definition", params(), func(o srvOut, res *jv) {
			compare(o, "definition", func(fs *Facts) []string {
				var g []string
				for _, x := range res.list() {
					g = append(g, x.at("uri").String()+rangeOf(fs, x.at("range")))
				}
				return g
			}, func(sym, ref *navTok) []string {
				var w []string
				if ref != nil {
					for _, l := range labels {
						if l.name == ref.name {
							w = append(w, `"u1"`+jrange(l.line, l.b, l.ne))
						}
					}
				}
				return w
			})
		})
		ask(key+"/highlight", "textDocument/documentHighlight", params(), func(o srvOut, res *jv) {
			compare(o, "highlight", func(fs *Facts) []string {
				var g []string
				for _, x := range res.list() {
					g = append(g, rangeOf(fs, x.at("range")))
				}
				return g
			}, func(sym, ref *navTok) []string {
				if sym == nil {
					sym = ref
				}
				if sym == nil {
					return nil
				}
				return all(sym.name, true)
			})
		})
		ask(key+"/prepareRename", "textDocument/prepareRename", params(), func(o srvOut, res *jv) {
			compare(o, "prepareRename", func(fs *Facts) []string {
				if res.at("range") == nil {
					return nil
				}
				return []string{rangeOf(fs, res.at("range")) + strings.Trim(res.at("placeholder").String(), `"`)}
			}, func(sym, ref *navTok) []string {
				if sym != nil {
					return []string{jrange(sym.line, sym.b, sym.ne) + sym.name}
				}
				if ref != nil {
					return []string{jrange(ref.line, ref.b, ref.e) + ref.name}
				}
				return nil
			})
		})
		rp := params()
		rp.set("newName", jsym("NN"))
		ask(key+"/rename", "textDocument/rename", rp, func(o srvOut, res *jv) {
			compare(o, "rename", func(fs *Facts) []string {
				var g []string
				ch := res.at("changes")
				if ch == nil {
					return []string{"no changes"}
				}
				for _, u := range ch.N {
					for _, x := range ch.F[u].list() {
						if u != "u1" || x.at("newText").String() != "NN" {
							g = append(g, u+x.String())
							continue
						}
						g = append(g, rangeOf(fs, x.at("range")))
					}
				}
				return g
			}, func(sym, ref *navTok) []string {
				if sym == nil {
					sym = ref
				}
				if sym == nil {
					return nil
				}
				return all(sym.name, true)
			})
		})
	}
}
