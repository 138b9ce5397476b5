package main

import (
	"fmt"
	"go/types"
	"strings"
)

// unwrapU32 undoes a conversion to an unsigned number of a value that is not
// negative.
func unwrapU32(fs *Facts, v Val) (Val, bool) {
	v = fs.constOf(v)
	if n, ok := constInt(v); ok {
		return v, n >= 0 && n < 1<<31
	}
	if t, ok := v.(*Term); ok && t.Op == "conv" && len(t.Args) == 1 {
		a := fs.constOf(t.Args[0])
		return a, fs.provesLE(linScale(a, -1, intT))
	}
	return v, true
}

type semTok struct {
	line, idx, length, kind, mods Val
}

// semDecode reads the relative encoding back.
func semDecode(fs *Facts, vs []Val) ([]semTok, string) {
	if len(vs)%5 != 0 {
		return nil, fmt.Sprintf("%d numbers are not a multiple of 5", len(vs))
	}
	var out []semTok
	var line, idx Val = mkInt(0, intT), mkInt(0, intT)
	for i := 0; i < len(vs); i += 5 {
		var x [5]Val
		for k := 0; k < 5; k++ {
			v, ok := unwrapU32(fs, vs[i+k])
			if !ok {
				return nil, fmt.Sprintf("number %d of token %d is negative or not known to fit: %s", k, i/5, v.Key())
			}
			x[k] = v
		}
		if fs.decide(cond{op: "eq", a: x[0], b: mkInt(0, intT)}) == 1 {
			idx = linAdd(idx, x[1], 1, intT)
		} else if fs.decide(cond{op: "lt", a: mkInt(0, intT), b: x[0]}) == 1 {
			line = linAdd(line, x[0], 1, intT)
			idx = x[1]
		} else {
			return nil, fmt.Sprintf("whether token %d is on a new line is not determined: %s", i/5, x[0].Key())
		}
		out = append(out, semTok{line, idx, x[2], x[3], x[4]})
	}
	return out, ""
}

// checkP26: semantic tokens.
func checkP26(c *Ctx, r *Report) {
	r.Rule = "(1) Encode interpreted on up to four arbitrary tokens in arbitrary order, the sort modelled through the program's own comparison: on every path the relative encoding read back is the same set of tokens in document order; (2) whole-session abstract interpretation of the language server over every opcode form, label, comment and pragma with arbitrary indentation: the highlighted tokens read back are exactly the source tokens, each once and with its class"
	c.semEncode(r)
	c.semServer(r)
	r.floor("orders", 30)
	r.floor("lines", 250)
}

func (c *Ctx) semEncode(r *Report) {
	tt := c.P.Type("", "SemanticTokens")
	if tt == nil {
		r.bad("types", "semantics.go", "the list of semantic tokens was not found")
		return
	}
	enc := c.P.Method(tt, "Encode")
	if enc == nil {
		r.bad("types", "semantics.go", "Encode was not found")
		return
	}
	pos := r.fnPos(enc)
	et := tt.Underlying().(*types.Slice).Elem()
	// up to three tokens on arbitrary lines, more on given lines
	var runs [][]int64
	for n := 0; n <= 3; n++ {
		runs = append(runs, nil)
	}
	max := 4
	if r.Thorough {
		max = 5
	}
	for n := 4; n <= max; n++ {
		ls := make([]int64, n)
		for {
			runs = append(runs, append([]int64{}, ls...))
			k := 0
			for k < n && ls[k] == 2 {
				ls[k] = 0
				k++
			}
			if k == n {
				break
			}
			ls[k]++
		}
	}
	for ri, lines := range runs {
		n := len(lines)
		if lines == nil {
			n = ri
		}
		in := c.NewAnalysis(allGlobals)
		in.Unroll = true
		in.NoSummary = true
		st := in.NewState()
		q := &Seq{T: et}
		var want []string
		toks := map[string]*StructV{}
		for i := 0; i < n; i++ {
			sv := in.expand(st, &Sym{Name: fmt.Sprintf("s%d", i), T: et}).(*StructV)
			if lines != nil {
				sv.F[fieldIdx(et, "Line")] = mkInt(lines[i], intT)
			}
			for _, f := range sv.F {
				if !isConstV(f) {
					st.facts.assume(cond{op: "le", a: mkInt(0, intT), b: f})
				}
			}
			toks[fmt.Sprint(i)] = sv
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: sv})
			want = append(want, semKey(structField(sv, "Line"), structField(sv, "Index"), structField(sv, "Length"), structField(sv, "Type"), structField(sv, "Modifiers")))
		}
		s := in.newSlice(st, q, tt)
		outs := in.Call(st, enc, []Val{s}, nil, 0)
		r.incompl(in, fmt.Sprintf("encode %d%v", n, lines), pos)
		for pi, o := range outs {
			key := fmt.Sprintf("encode %d%v/%d", n, lines, pi)
			if !r.check(o.Kind == OutReturn && len(o.Vals) == 1, key, pos, "encoding does not return") {
				continue
			}
			rq, ok := in.seqOf(o.St, o.Vals[0])
			if isNilConst(o.Vals[0]) {
				rq, ok = &Seq{}, true
			}
			var vs []Val
			if ok {
				for _, g := range rq.Segs {
					if g.Kind != SegElem {
						ok = false
					}
					vs = append(vs, g.V)
				}
			}
			if !r.check(ok, key, pos, "the encoding could not be determined: %.200s", o.Vals[0].Key()) {
				continue
			}
			fs := o.St.facts
			dec, why := semDecode(fs, vs)
			if !r.check(why == "", key, pos, "the encoding of %d tokens is wrong: %s", n, why) {
				continue
			}
			// equality up to what the path's facts say
			var got []string
			used := map[int]bool{}
			for _, d := range dec {
				hit := ""
				for i := 0; i < n && hit == ""; i++ {
					sv := toks[fmt.Sprint(i)]
					if used[i] {
						continue
					}
					same := true
					for _, p := range [][2]Val{{d.line, structField(sv, "Line")}, {d.idx, structField(sv, "Index")}, {d.length, structField(sv, "Length")}, {d.kind, structField(sv, "Type")}, {d.mods, structField(sv, "Modifiers")}} {
						if fs.decide(cond{op: "eq", a: p[0], b: p[1]}) != 1 {
							same = false
						}
					}
					if same {
						used[i] = true
						hit = want[i]
					}
				}
				if hit == "" {
					hit = "?" + semKey(d.line, d.idx, d.length, d.kind, d.mods)
				}
				got = append(got, hit)
			}
			r.check(keyList(got) == keyList(append([]string{}, want...)), key, pos, "the tokens read back are %v instead of %v", got, want)
			r.count("orders")
		}
	}
}

func semKey(vs ...Val) string {
	var p []string
	for _, v := range vs {
		p = append(p, v.Key())
	}
	return strings.Join(p, ",")
}

// immTexts lists representative immediates of a kind: text, class, and
// whether its highlighting depends on values that are not known.
type immText struct {
	text  []string
	class []string
	maybe bool
}

func immTexts(kind string) []immText {
	num := func(s string) immText { return immText{[]string{s}, []string{"number"}, false} }
	str := func(s string) immText { return immText{[]string{s}, []string{"string"}, false} }
	switch kind {
	case "u8", "int":
		return []immText{num("3")}
	case "i8":
		return []immText{num("-2")}
	case "constint":
		return []immText{num("7"), num("pay"), num("NoOp")}
	case "label":
		return []immText{str("lbl")}
	case "bytes":
		return []immText{str("0x61"), str(`"x y"`), {[]string{"base64", "QQ=="}, []string{"keyword", "string"}, true}, {[]string{"b32", "ME"}, []string{"keyword", "string"}, true}, {[]string{"b64(QQ==)"}, []string{"string"}, true}}
	case "addr":
		x := str("7777777777777777777777777777777777777777777777777774MSJUVU")
		x.maybe = true
		return []immText{x}
	case "method":
		return []immText{str(`"f()void"`)}
	}
	g, need := fieldGroup(kind)
	if g == "" {
		return nil
	}
	var out []immText
	for _, f := range oracleFields[g] {
		if v := need(f); v >= 0 && v <= 10 {
			if len(out) == 0 {
				out = append(out, str(f.Name), num(fmt.Sprint(f.Num)))
			}
		}
	}
	return out
}

func (c *Ctx) semServer(r *Report) {
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	setup := func(s *srv) { s.indent = true }
	type tcase struct {
		key     string
		line    []tok
		classes []string
		maybe   bool
	}
	var cases []tcase
	for _, n := range oracleNames() {
		op := oracleOps[n]
		if n == "#pragma" {
			continue
		}
		for _, a := range op.arities() {
			f, _ := op.form(a)
			// vary one immediate at a time
			for vi := -1; vi < len(f.Imms); vi++ {
				vars := 1
				if vi >= 0 {
					vars = len(immTexts(f.Imms[vi]))
				}
				for v := 0; v < vars; v++ {
					if vi >= 0 && v == 0 {
						continue // the default
					}
					tc := tcase{line: tokLine(n), classes: []string{"keyword"}}
					ok := true
					for i, k := range f.Imms {
						ts := immTexts(k)
						if len(ts) == 0 {
							ok = false
							break
						}
						t := ts[0]
						if i == vi {
							t = ts[v]
						}
						tc.line = append(tc.line, tokLine(t.text...)...)
						tc.classes = append(tc.classes, t.class...)
						tc.maybe = tc.maybe || t.maybe
					}
					if !ok {
						r.bad("forms", "oracle", "no immediate of a kind of %s", n)
						continue
					}
					var ws []string
					for _, t := range tc.line {
						ws = append(ws, t.Text)
					}
					tc.key = strings.Join(ws, " ")
					cases = append(cases, tc)
				}
			}
		}
	}
	for _, tc := range cases {
		// surroundings: a pragma, a comment behind the line, a label, a comment line
		line := append(append([]tok{}, tc.line...), tok{Text: " note", Kind: "comment"})
		prog := [][]tok{tokLine("#pragma", "version", "10"), line, {}, tokLine("lbl:"), {tok{Text: " text", Kind: "comment"}}}
		want := [][]string{{"macro", "macro", "number"}, append(append([]string{}, tc.classes...), "comment"), {}, {"method"}, {"comment"}}
		c.semProgram(r, tc.key, pos, prog, want, tc.maybe, true, setup)
		r.count("lines")
	}
	// malformed lines: what is highlighted is right, nothing twice
	for _, l := range [][]tok{
		tokLine("foo"), tokLine("int"), tokLine("int", "x"), tokLine("int", "1", "2"), tokLine("txn", "Nope"), tokLine("b"), tokLine("b", "x", "y"), tokLine("lbl:", "int"),
		tokLine("#pragma"), tokLine("#pragma", "x"), tokLine("#pragma", "version"), tokLine("#pragma", "version", "x"), tokLine("#pragma", "version", "8", "9"), tokLine("byte", "base64"), tokLine("byte", "b64", "?"), tokLine("switch"),
	} {
		var ws []string
		for _, t := range l {
			ws = append(ws, t.Text)
		}
		k := "malformed " + strings.Join(ws, " ")
		c.semProgram(r, k, pos, [][]tok{l, tokLine("lbl:")}, nil, true, false, setup)
		c.semProgram(r, k+"//", pos, [][]tok{append(append([]tok{}, l...), tok{Text: "c", Kind: "comment"}), tokLine("int", "1")}, nil, true, false, setup)
		r.count("malformed lines")
	}
}

// semProgram compares the highlighted tokens of a program with the wanted classes.
func (c *Ctx) semProgram(r *Report, key, pos string, prog [][]tok, want [][]string, maybe, full bool, setup func(*srv)) {
	ms := []msg{lspReq(js("init"), "initialize", jo()), lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/semanticTokens/full", jo("textDocument", jdoc("u1")))}
	for _, o := range c.session(r, key, "lsp", ms, map[string][][]tok{"P": prog}, nil, setup) {
		rs, is := o.replies("ID"), o.replies(`"init"`)
		if !r.check(len(rs) == 1 && len(is) == 1 && !isErr(rs[0]), key, pos, "not answered (%s)", sentStr(o)) {
			continue
		}
		var legend []string
		for _, t := range is[0].at("result", "capabilities", "semanticTokensProvider", "legend", "tokenTypes").list() {
			legend = append(legend, strings.Trim(t.String(), `"`))
		}
		data := rs[0].at("result", "data")
		if !r.check(data != nil && (data.K == "arr" && !data.Open), key, pos, "the data is %s", data) {
			continue
		}
		var vs []Val
		for _, d := range data.A {
			vs = append(vs, d.V)
		}
		fs := o.Out.St.facts.clone()
		for l := range prog {
			fs.assume(cond{op: "le", a: mkInt(0, intT), b: indentOf(l)})
		}
		dec, why := semDecode(fs, vs)
		if !r.check(why == "", key, pos, "the tokens cannot be read back: %s", why) {
			continue
		}
		seen := map[string]bool{}
		cls := map[string]string{}
		for _, d := range dec {
			ln, ok := constInt(d.line)
			found := ""
			if ok && ln >= 0 && int(ln) < len(prog) {
				for k := range prog[ln] {
					b, e := tokCols(prog[ln], k)
					if d.idx.Key() == colVal(int(ln), b).Key() && d.length.Key() == mkInt(e-b, intT).Key() {
						found = fmt.Sprintf("%d.%d", ln, k)
					}
				}
			}
			if !r.check(found != "", key, pos, "line %s, column %s, length %s is highlighted, but there is no such token", d.line.Key(), d.idx.Key(), d.length.Key()) {
				continue
			}
			r.check(!seen[found], key, pos, "token %s is highlighted twice", found)
			seen[found] = true
			n, ok := constInt(d.kind)
			if r.check(ok && n >= 0 && int(n) < len(legend), key, pos, "class %s of token %s is not in the legend", d.kind.Key(), found) {
				cls[found] = legend[n]
			}
			r.check(d.mods.Key() == "0", key, pos, "token %s has modifiers %s", found, d.mods.Key())
		}
		for l := range prog {
			for k, t := range prog[l] {
				id := fmt.Sprintf("%d.%d", l, k)
				got := cls[id]
				if full {
					w := want[l][k]
					if maybe && got == "" && l == 1 && k > 0 {
						continue
					}
					r.check(got == w, key+"/"+id, pos, "%q is highlighted as %q instead of %q", t.Text, got, w)
				} else if t.Kind == "comment" {
					r.check(got == "comment", key+"/"+id, pos, "a comment is highlighted as %q", got)
				} else {
					ok := got == ""
					switch {
					case strings.HasSuffix(t.Text, ":") && k == 0:
						ok = got == "method" || got == "" && len(prog[l]) > 1
					case t.Text == "#pragma":
						ok = got == "macro" || got == ""
					case k == 0:
						ok = got == "keyword" || got == ""
					default:
						ok = got != "comment" && got != "method"
					}
					r.check(ok, key+"/"+id, pos, "%q is highlighted as %q", t.Text, got)
				}
			}
		}
	}
}
