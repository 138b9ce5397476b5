package main

import (
	"fmt"
	"sort"
	"strings"
)

// refDiags renders the findings of Process on a program, per path.
func (c *Ctx) refDiags(prog [][]tok) (map[string]bool, error) {
	outs, in, err := c.process(prog, nil)
	if err != nil {
		return nil, err
	}
	if len(in.Incompl) > 0 {
		return nil, fmt.Errorf("%v", in.Incompl)
	}
	res := map[string]bool{}
	for _, o := range outs {
		if o.Res == nil {
			return nil, fmt.Errorf("Process can panic")
		}
		vs, ok := o.seq("Diagnostics")
		if !ok {
			return nil, fmt.Errorf("the diagnostics could not be determined")
		}
		var ds []string
		for _, v := range vs {
			var p []string
			for _, m := range []string{"Line", "Begin", "End", "Severity", "String"} {
				x, _, err := c.callMethod(in, o.Out.St, v, m)
				if err != nil {
					return nil, err
				}
				p = append(p, x.Key())
			}
			ds = append(ds, strings.Join(p, " "))
		}
		sort.Strings(ds)
		res[strings.Join(ds, " | ")] = true
	}
	return res, nil
}

func diagItems(l *jv) string {
	var ds []string
	if l == nil || l.K != "arr" || l.Open {
		return "not determined: " + l.String()
	}
	for _, d := range l.A {
		s, e := d.at("range", "start"), d.at("range", "end")
		if s.at("line").String() != e.at("line").String() {
			ds = append(ds, "spans lines")
		}
		ds = append(ds, strings.Join([]string{s.at("line").String(), s.at("character").String(), e.at("character").String(), d.at("severity").String(), d.at("message").String()}, " "))
	}
	sort.Strings(ds)
	return strings.Join(ds, " | ")
}

// checkP31: reported diagnostics.
func checkP31(c *Ctx, r *Report) {
	r.Rule = "(1) whole-session abstract interpretation of the language server over every pair of line kinds and of lint situations, with arbitrary token positions: the reported diagnostics are, one for one, the findings of Process on the latest text (line, extent, severity, message); (2) the messages of findings name the label, word or version they are about"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	var progs [][][]tok
	var names []string
	add := func(n string, p [][]tok) { names, progs = append(names, n), append(progs, p) }
	kinds := lineKinds()
	for _, a := range kinds {
		add(a.Name, [][]tok{a.Toks})
		for _, b := range kinds {
			add(a.Name+"; "+b.Name, [][]tok{a.Toks, b.Toks})
		}
	}
	for _, p := range [][]string{{"a:", "b a"}, {"b a", "a:"}, {"a:", "a:"}, {"err", "int 1"}, {"b x", "b y"}, {"#pragma version 3", "callsub a", "a:"}, {"int 1", "#pragma version 8"}, {"#pragma version 8", "switch a b", "b:", "retsub"}, {"txn Nope"}, {"global OpcodeBudget"}, {"#pragma version 5", "global OpcodeBudget"}, {"itxn_field Fee"}} {
		var pr [][]tok
		for _, l := range p {
			pr = append(pr, tokLine(strings.Fields(l)...))
		}
		add(strings.Join(p, "; "), pr)
	}
	// many findings
	for _, x := range [][]string{{"frob"}, {"b zz"}, {"a:"}, {"l:", "b k"}, {"#pragma version 3", "int 1", "box_get"}} {
		var pr [][]tok
		for len(pr) < 130 {
			for _, l := range x {
				ws := strings.Fields(l)
				if n := len(ws) - 1; ws[n] == "l:" || ws[n] == "k" {
					ws[n] = fmt.Sprintf("%s%d%s", ws[n][:1], len(pr), ws[n][1:])
				}
				pr = append(pr, tokLine(ws...))
			}
		}
		add("many "+strings.Join(x, "; "), pr)
	}
	for i, prog := range progs {
		key := names[i]
		ref, err := c.refDiags(prog)
		if err != nil {
			r.bad(key, pos, "the findings could not be determined: %v", err)
			continue
		}
		q := lspReq(jsym("ID"), "textDocument/diagnostic", jo("textDocument", jdoc("u1")))
		seen := map[string]bool{}
		ps := map[string][][]tok{"P": prog, "O": {tokLine("frob")}}
		for hi, pre := range [][]msg{{lspOpen("u1", "P")}, {lspOpen("u1", "O"), q, lspChange("u1", "P")}} {
			if hi == 1 && i%4 != 0 {
				continue
			}
			for _, o := range c.session(r, key, "lsp", append(append([]msg{}, pre...), q), ps, nil, nil) {
				rs := o.replies("ID")
				if !r.check(len(rs) >= 1 && !isErr(rs[len(rs)-1]), key, pos, "not answered (%s)", sentStr(o)) {
					continue
				}
				res := rs[len(rs)-1].at("result")
				got := diagItems(res.at("items"))
				r.check(unq(res.at("kind")) == "full", key, pos, "the report is of the kind %s", res.at("kind"))
				r.check(ref[got], key, pos, "the diagnostics are [%s] instead of one of %v", got, sortedKeys(ref))
				seen[got] = true
				r.count("reports")
			}
		}
		r.check(len(seen) == len(ref), key+"/all", pos, "%d of %d outcomes are reported", len(seen), len(ref))
	}
	// a document that is not open has no findings
	for _, o := range c.session(r, "not open", "lsp", []msg{lspReq(jsym("ID"), "textDocument/diagnostic", jo("textDocument", jdoc("u1")))}, nil, nil, nil) {
		rs := o.replies("ID")
		r.check(len(rs) == 1 && (isErr(rs[0]) || diagItems(rs[0].at("result", "items")) == ""), "not open", pos, "findings on a document that is not open (%s)", sentStr(o))
	}
	c.diagWords(r, pos)
	r.floor("reports", 150)
}

// diagWords: messages name what they are about.
func (c *Ctx) diagWords(r *Report, pos string) {
	type wcase struct {
		prog  string
		line  int
		sev   string
		words []string
	}
	for _, w := range []wcase{
		{"frobnicate", 0, "1", []string{"frobnicate"}},
		{"frobnicate 1 2", 0, "1", []string{"frobnicate"}},
		{"b zork", 0, "1", []string{"zork"}},
		{"#pragma version 8\nswitch zork\nint 1", 1, "1", []string{"zork"}},
		{"foo:\nfoo:", 0, "1", []string{"duplicate", "foo"}},
		{"foo:\nfoo:", 1, "1", []string{"duplicate", "foo"}},
		{"foo:\nbar:\nb foo", 1, "2", []string{"unused", "bar"}},
		{"box_get", 0, "1", []string{"8", "1"}},
		{"#pragma version 6\nbox_get", 1, "1", []string{"8", "6"}},
		{"#pragma version 3\nint 1\nretsub", 2, "1", []string{"4", "3"}},
		{"load", 0, "1", []string{"missing"}},
		{"#pragma version 5\nglobal OpcodeBudget", 1, "1", []string{"6", "5"}},
		{"#pragma frob 3", 0, "1", []string{"frob"}},
		{"int 1\n#pragma version 8", 1, "1", []string{"pragma"}},
	} {
		var prog [][]tok
		for _, l := range strings.Split(w.prog, "\n") {
			prog = append(prog, tokLine(strings.Fields(l)...))
		}
		key := "message " + strings.ReplaceAll(w.prog, "\n", "; ")
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/diagnostic", jo("textDocument", jdoc("u1")))}, map[string][][]tok{"P": prog}, nil, nil) {
			rs := o.replies("ID")
			if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered (%s)", sentStr(o)) {
				continue
			}
			ok := false
			var got []string
			for _, d := range rs[0].at("result", "items").list() {
				if d.at("range", "start", "line").String() != fmt.Sprint(w.line) {
					continue
				}
				m := d.at("message").String()
				got = append(got, m+" severity "+d.at("severity").String())
				all := d.at("severity").String() == w.sev
				for _, x := range w.words {
					all = all && strings.Contains(m, x)
				}
				ok = ok || all
			}
			r.check(ok, key, pos, "no finding of severity %s on line %d names %v: %v", w.sev, w.line, w.words, got)
			r.count("messages")
		}
	}
	r.floor("messages", 14)
}
