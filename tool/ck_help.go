package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// helpWords gives an op's immediates for a form: every one acceptable.
func helpWords(f OrForm) []string {
	var ws []string
	for _, k := range f.Imms {
		w := "0"
		if g, need := fieldGroup(k); g != "" {
			for _, fd := range oracleFields[g] {
				if need(fd) >= 0 {
					w = fd.Name
					break
				}
			}
		}
		switch k {
		case "label":
			w = "a"
		case "bytes":
			w = "0x41"
		case "constint":
			w = "pay"
		case "method":
			w = `"a()void"`
		}
		ws = append(ws, w)
	}
	return ws
}

// argNames are the names that may stand for argument i of an opcode, by value.
func argNames(op *OrOp, i int, ver int64) (map[string]string, bool) {
	out := map[string]string{}
	any := false
	for _, n := range op.arities() {
		f, _ := op.form(n)
		if i >= len(f.Imms) {
			continue
		}
		k := f.Imms[i]
		if g, need := fieldGroup(k); g != "" {
			any = true
			for _, fd := range oracleFields[g] {
				if v := need(fd); v >= 0 && v <= ver {
					out[fd.Name] = fmt.Sprintf(" = %d", fd.Num)
				}
			}
		}
		if k == "constint" {
			any = true
			for _, fd := range oracleFields["txntype"] {
				if fd.Num != 0 {
					out[fd.Name] = fmt.Sprintf(" = %d", fd.Num)
				}
			}
			for _, fd := range oracleFields["oncompletion"] {
				out[fd.Name] = fmt.Sprintf(" = %d", fd.Num)
			}
		}
	}
	return out, any
}

// params is how many parameters an opcode can take, and whether the last repeats.
func (o *OrOp) params() (int, bool) {
	if o.Variadic != "" {
		return 1, true
	}
	return o.maxArity(), false
}

var placeholderRe = regexp.MustCompile(`\$\{(\d+):([^}]*)\}`)

// checkP33: hover, completion and signature help.
func checkP33(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the language server: hover, completion and signature help on lines of every opcode with arbitrary indentation and an arbitrary column, compared on every path with the opcode and field tables of the AVM; every field by name and number, every program version and both modes"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	docs := c.helpAt(r, pos)
	c.fieldHover(r, pos)
	c.opCompletion(r, pos, docs)
	c.argCompletion(r, pos)
	r.floor("positions", 800)
	r.floor("field hovers", 1500)
	r.floor("op completions", 40)
	r.floor("arg completions", 250)
}

func (c *Ctx) helpAt(r *Report, pos string) map[string]string {
	setup := func(s *srv) { s.indent = true }
	cv := &Sym{Name: "C", T: intT}
	docs := map[string]string{} // what hovering over the mnemonic shows
	var lines [][]tok
	for _, on := range oracleNames() {
		op := oracleOps[on]
		for _, n := range op.arities() {
			f, _ := op.form(n)
			if n > 3 || n == 0 && op.Variadic == "" && op.maxArity() > 0 {
				continue
			}
			lines = append(lines, tokLine(append([]string{on}, helpWords(f)...)...))
		}
		if op.maxArity() > 0 {
			lines = append(lines, tokLine(on))
		}
	}
	lines = append(lines, []tok{}, tokLine("frob", "1"), tokLine("a:"), tokLine("#pragma", "version", "8"), []tok{{Text: " x", Kind: "comment"}}, []tok{{Text: "txn"}, {Text: "Fee"}, {Text: " x", Kind: "comment"}})
	for _, l := range lines {
		var ws []string
		for _, t := range l {
			if t.Kind != "comment" {
				ws = append(ws, t.Text)
			}
		}
		var op *OrOp
		if len(ws) > 0 {
			op = oracleOps[ws[0]]
		}
		tx := toksText(l)
		ps := map[string][][]tok{"P": {tokLine("a:"), l}}
		ask := func(key, method string, fn func(fs *Facts, askc func(cond) bool, res *jv)) {
			p := jo("textDocument", jdoc("u1"), "position", jpos(jint(1), jnum("C")))
			for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), method, p)}, ps, nil, setup) {
				rs := o.replies("ID")
				if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result (%s)", sentStr(o)) {
					continue
				}
				base := o.Out.St.facts.clone()
				base.assume(cond{op: "le", a: mkInt(0, intT), b: cv})
				base.assume(cond{op: "le", a: mkInt(0, intT), b: indentOf(1)})
				base.split(func(fs *Facts, askc func(cond) bool) { fn(fs, askc, rs[0].at("result")) })
				r.count("positions")
			}
		}
		// at is the word at the position, -1 if none
		at := func(askc func(cond) bool) int {
			for i := range ws {
				b, e := tokCols(l, i)
				if askc(cond{op: "le", a: colVal(1, b), b: cv}) && askc(cond{op: "le", a: cv, b: colVal(1, e)}) {
					return i
				}
			}
			return -1
		}
		behind := func(askc func(cond) bool) bool {
			if len(ws) == 0 {
				return true
			}
			_, e := tokCols(l, len(ws)-1)
			return askc(cond{op: "lt", a: colVal(1, e), b: cv})
		}
		ask(tx+"/hover", "textDocument/hover", func(fs *Facts, askc func(cond) bool, res *jv) {
			i := at(askc)
			got := ""
			if x := res.at("contents", "value"); x != nil {
				got = unq(x)
			}
			switch {
			case i < 0 || op == nil:
				r.check(got == "", tx+"/hover", pos, "word %d of %q is explained by %q", i, tx, got)
			case i == 0:
				if d, ok := docs[ws[0]]; ok {
					r.check(got == d, tx+"/hover", pos, "the opcode of %q is explained by %q here and by %q elsewhere", tx, got, d)
				}
				docs[ws[0]] = got
				r.check(got != "" || undocumented(ws[0]), tx+"/hover", pos, "the opcode of %q is not explained", tx)
			default:
				if h, yes := fieldText(op, len(ws)-1, i-1, ws[i]); yes {
					r.check(got == h || strings.HasPrefix(got, h+"\r\n") || strings.HasPrefix(got, h+"\n"), tx+"/hover", pos, "word %d of %q is explained by %q instead of %q", i, tx, got, h)
				} else {
					r.check(got == "", tx+"/hover", pos, "word %d of %q is explained by %q", i, tx, got)
				}
			}
		})
		ask(tx+"/signature", "textDocument/signatureHelp", func(fs *Facts, askc func(cond) bool, res *jv) {
			key := tx + "/signature"
			sigs := res.at("signatures").list()
			if op == nil {
				r.check(len(sigs) == 0, key, pos, "%q has a signature: %s", tx, res)
				return
			}
			if !r.check(len(sigs) == 1, key, pos, "%q has %d signatures", tx, len(sigs)) {
				return
			}
			sg := sigs[0]
			r.check(strings.HasPrefix(unq(sg.at("label"))+" ", ws[0]+" "), key, pos, "the signature of %q is %s", tx, sg.at("label"))
			n, _ := op.params()
			ps := sg.at("parameters").list()
			r.check(len(ps) == n, key, pos, "the signature of %q has %d parameters instead of %d", tx, len(ps), n)
			for _, p := range ps {
				r.check(unq(p.at("label")) != "" && strings.Contains(unq(sg.at("label")), unq(p.at("label"))), key, pos, "the parameter %s is not in the signature %s", p.at("label"), sg.at("label"))
			}
			if d := sg.at("documentation", "value"); d != nil {
				if w, ok := docs[ws[0]]; ok {
					r.check(unq(d) == w, key, pos, "the opcode of %q is explained by %q in the signature and by %q on hover", tx, unq(d), w)
				}
			}
			want := -1
			if i := at(askc); i > 0 {
				want = i - 1
			} else if i < 0 && behind(askc) {
				want = len(ws) - 1
			}
			if want < 0 || n == 0 {
				return
			}
			if want >= n {
				if op.Variadic == "" {
					return
				}
				want = n - 1
			}
			ap := sg.at("activeParameter")
			if ap == nil {
				ap = res.at("activeParameter")
			}
			r.check(ap != nil && fs.constOf(ap.V).Key() == fmt.Sprint(want), key, pos, "the active parameter of %q is %s instead of %d", tx, ap, want)
		})
		ask(tx+"/completion", "textDocument/completion", func(fs *Facts, askc func(cond) bool, res *jv) {
			key := tx + "/completion"
			first := len(ws) == 0 && len(l) == 0
			if len(ws) > 0 {
				_, e := tokCols(l, 0)
				first = askc(cond{op: "le", a: cv, b: colVal(1, e)})
			}
			if len(ws) == 0 && len(l) > 0 {
				return // in a comment
			}
			labels := map[string]string{}
			for _, x := range res.list() {
				labels[unq(x.at("label"))] = unq(x.at("labelDetails", "detail"))
			}
			delete(labels, "")
			if first {
				p := ""
				if len(ws) > 0 {
					p = ws[0]
				}
				for _, on := range oracleNames() {
					o := oracleOps[on]
					_, has := labels[on]
					r.check(has == (o.App == 1 && strings.HasPrefix(on, p)), key, pos, "the opcode %s is offered for %q: %v", on, p, has)
				}
				return
			}
			for _, sn := range []string{"soc", "func"} {
				_, has := labels[sn]
				r.check(!has, key, pos, "%s is offered as an argument in %q", sn, tx)
			}
			if op == nil {
				r.check(len(labels) == 0, key, pos, "%v are offered as arguments in %q", sortedKeys(labels), tx)
				return
			}
			want := -1
			if i := at(askc); i > 0 {
				want = i - 1
			} else if behind(askc) {
				want = len(ws) - 1
			}
			n, _ := op.params()
			if want < 0 {
				return
			}
			if want >= n && op.Variadic != "" {
				want = n - 1
			}
			names := map[string]string{}
			if want < n {
				names, _ = argNames(op, want, 1)
				f, ok := op.form(op.maxArity())
				if ok && want < len(f.Imms) && f.Imms[want] == "label" {
					names["a"] = ""
				}
			}
			g, w := kvList(labels), kvList(names)
			r.check(g == w, key, pos, "argument %d of %q can be [%s] instead of [%s]", want, tx, g, w)
		})
	}
	return docs
}

// undocumented tells the opcodes that have no documentation in the repository.
func undocumented(on string) bool {
	return on == "replace" || on == "int" || on == "byte" || on == "addr" || on == "method" || strings.HasPrefix(on, "ec_")
}

func kvList(m map[string]string) string {
	var out []string
	for k, v := range m {
		if v == "absent" {
			v = ""
		}
		out = append(out, k+v)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// fieldText is how a field given by name or number is explained.
func fieldText(op *OrOp, n, i int, word string) (string, bool) {
	f, ok := op.form(n)
	if !ok || i >= len(f.Imms) {
		return "", false
	}
	g, _ := fieldGroup(f.Imms[i])
	for _, fd := range oracleFields[g] {
		if word == fd.Name || word == fmt.Sprint(fd.Num) {
			return fmt.Sprintf("%s = %d", fd.Name, fd.Num), true
		}
	}
	return "", false
}

// fieldHover: every field, by name and by number.
func (c *Ctx) fieldHover(r *Report, pos string) {
	setup := func(s *srv) { s.indent = true }
	for _, on := range oracleNames() {
		op := oracleOps[on]
		for _, n := range op.arities() {
			f, _ := op.form(n)
			for i, k := range f.Imms {
				g, _ := fieldGroup(k)
				if g == "" {
					continue
				}
				var prog [][]tok
				ms := []msg{lspOpen("u1", "P")}
				add := func(w string) {
					ws := append([]string{on}, helpWords(f)...)
					ws[i+1] = w
					l := tokLine(ws...)
					b, _ := tokCols(l, i+1)
					p := jpos(jint(int64(len(prog))), &jv{K: "num", V: colVal(len(prog), b)})
					ms = append(ms, lspReq(js(fmt.Sprintf("h%d", len(prog))), "textDocument/hover", jo("textDocument", jdoc("u1"), "position", p)))
					prog = append(prog, l)
				}
				for _, fd := range oracleFields[g] {
					add(fd.Name)
					add(fmt.Sprint(fd.Num))
				}
				add("Nope")
				add(fmt.Sprint(len(oracleFields[g])))
				add("999")
				key := fmt.Sprintf("%s %d/%d", on, n, i)
				for _, o := range c.session(r, key, "lsp", ms, map[string][][]tok{"P": prog}, nil, setup) {
					for li, l := range prog {
						rs := o.replies(fmt.Sprintf("%q", fmt.Sprintf("h%d", li)))
						if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result") {
							continue
						}
						got := ""
						if x := rs[0].at("result", "contents", "value"); x != nil {
							got = unq(x)
						}
						h, yes := fieldText(op, n, i, l[i+1].Text)
						ok := got == "" && !yes || yes && (got == h || strings.HasPrefix(got, h+"\r\n") || strings.HasPrefix(got, h+"\n"))
						r.check(ok, key, pos, "%q is explained by %q instead of %q", toksText(l), got, h)
						r.count("field hovers")
					}
				}
			}
		}
	}
}

// opCompletion: the opcodes offered, per version, mode and prefix.
func (c *Ctx) opCompletion(r *Report, pos string, docs map[string]string) {
	setup := func(s *srv) { s.concrete = true }
	for ver := int64(0); ver <= 12; ver++ {
		for _, sig := range []bool{false, true} {
			for _, pre := range []string{"", "b", "txn", "box_", "zz", "intc_0", "B", "Txn", "tXn", "_", "x", "b_"} {
				if pre != "" && ver != 0 && ver != 5 && ver != 8 {
					continue
				}
				var prog [][]tok
				if sig {
					prog = append(prog, []tok{{Kind: "comment", Text: modeComment}})
				}
				v := int64(1)
				if ver > 0 {
					v = ver
					prog = append(prog, tokLine("#pragma", "version", fmt.Sprint(ver)))
				}
				line := len(prog)
				l := []tok{}
				if pre != "" {
					l = tokLine(pre)
				}
				prog = append(prog, l)
				key := fmt.Sprintf("version %d logicsig %v prefix %q", ver, sig, pre)
				p := jo("textDocument", jdoc("u1"), "position", jpos(jint(int64(line)), jint(0)))
				for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/completion", p)}, map[string][][]tok{"P": prog}, nil, setup) {
					rs := o.replies("ID")
					if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result (%s)", sentStr(o)) {
						continue
					}
					items := map[string]*jv{}
					for _, x := range rs[0].at("result").list() {
						n := unq(x.at("label"))
						r.check(items[n] == nil, key, pos, "%s is offered twice", n)
						items[n] = x
					}
					for _, sn := range []string{"soc", "func"} {
						r.check(items[sn] != nil, key, pos, "%s is not offered", sn)
					}
					if x := items["soc"]; x != nil {
						c.socSnippet(r, key, pos, unq(x.at("insertText")))
					}
					for _, on := range oracleNames() {
						op := oracleOps[on]
						need := op.App
						if sig {
							need = op.Sig
						}
						want := need > 0 && need <= v && strings.HasPrefix(on, pre)
						x := items[on]
						delete(items, on)
						if !r.check((x != nil) == want, key, pos, "%s (from version %d on) is offered: %v", on, need, x != nil) || x == nil {
							continue
						}
						ld := unq(x.at("labelDetails", "description"))
						r.check(ld == fmt.Sprintf("v%d", need), key, pos, "%s is shown to be from version %s instead of v%d", on, ld, need)
						if d := unq(x.at("documentation", "value")); d != "absent" {
							r.check(strings.HasPrefix(docs[on], d), key, pos, "%s is explained by %q, but by %q on hover", on, d, docs[on])
						}
						ins := ""
						if t := x.at("insertText"); t != nil {
							ins = unq(t)
						}
						n, _ := op.params()
						if n == 0 {
							r.check(ins == "" || ins == on, key, pos, "%s is inserted as %q", on, ins)
							continue
						}
						ok := strings.HasPrefix(ins, on+" ") && x.at("insertTextFormat").String() == "2"
						ph := placeholderRe.FindAllStringSubmatch(ins, -1)
						ok = ok && len(ph) == n
						for i, m := range ph {
							ok = ok && m[1] == fmt.Sprint(i+1)
						}
						rest := strings.Fields(placeholderRe.ReplaceAllString(ins, "#"))
						ok = ok && len(rest) == n+1
						r.check(ok, key, pos, "%s, which takes %d arguments, is inserted as %q", on, n, ins)
					}
					delete(items, "soc")
					delete(items, "func")
					delete(items, "")
					r.check(len(items) == 0, key, pos, "%v are offered, which are no opcodes", sortedKeys(items))
				}
				r.count("op completions")
			}
		}
	}
}

// socSnippet: the labels of the switch on OnCompletion are in the order of the values.
func (c *Ctx) socSnippet(r *Report, key, pos, text string) {
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, "switch ") {
			continue
		}
		ms := placeholderRe.FindAllStringSubmatch(l, -1)
		fs := oracleFields["oncompletion"]
		ok := len(ms) == len(fs)
		for i := range ms {
			ok = ok && strings.EqualFold(ms[i][2], fs[i].Name) && fs[i].Num == int64(i)
			ok = ok && strings.Contains(text, ms[i][0]+":")
		}
		r.check(ok, key, pos, "the switch on OnCompletion is %q", l)
		return
	}
	r.bad(key, pos, "there is no switch in %q", text)
}

// argCompletion: the names offered for arguments, per version.
func (c *Ctx) argCompletion(r *Report, pos string) {
	setup := func(s *srv) { s.concrete = true }
	ask := func(key string, prog [][]tok, line int, fn func(items map[string]*jv)) {
		p := jo("textDocument", jdoc("u1"), "position", jpos(jint(int64(line)), jint(100000)))
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/completion", p)}, map[string][][]tok{"P": prog}, nil, setup) {
			rs := o.replies("ID")
			if !r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result (%s)", sentStr(o)) {
				continue
			}
			items := map[string]*jv{}
			for _, x := range rs[0].at("result").list() {
				items[unq(x.at("label"))] = x
			}
			delete(items, "")
			fn(items)
			r.count("arg completions")
		}
	}
	for _, on := range oracleNames() {
		op := oracleOps[on]
		n, _ := op.params()
		f, _ := op.form(op.maxArity())
		words := helpWords(f)
		for i := 0; i < n; i++ {
			if _, any := argNames(op, i, 1); !any {
				continue
			}
			for ver := int64(1); ver <= 12; ver++ {
				if !r.Thorough && ver > 1 && ver%2 == 1 && on != "txn" && on != "global" && on != "itxn_field" {
					continue
				}
				names, _ := argNames(op, i, ver)
				prog := [][]tok{tokLine("#pragma", "version", fmt.Sprint(ver)), tokLine(append([]string{on}, words[:i]...)...)}
				key := fmt.Sprintf("%s argument %d version %d", on, i, ver)
				ask(key, prog, 1, func(items map[string]*jv) {
					got := map[string]string{}
					for k, x := range items {
						got[k] = unq(x.at("labelDetails", "detail"))
					}
					g, w := kvList(got), kvList(names)
					r.check(g == w, key, pos, "offered are [%s] instead of [%s]", g, w)
				})
			}
		}
	}
	// labels, with their documentation and signature
	com := func(s string) []tok { return []tok{{Text: s, Kind: "comment"}} }
	prog := [][]tok{com(" first"), tokLine("a:"), tokLine("proto", "1", "2"), tokLine("int", "1"), com(" second"), tokLine("bb:"), tokLine("retsub"), tokLine("a:")}
	for _, on := range []string{"b", "bz", "bnz", "callsub", "switch", "match"} {
		p := append(append([][]tok{}, prog...), tokLine(on))
		key := "labels for " + on
		ask(key, p, len(prog), func(items map[string]*jv) {
			ok := len(items) == 2 && items["a"] != nil && items["bb"] != nil
			r.check(ok, key, pos, "offered are %v instead of a and bb", sortedKeys(items))
			if x := items["bb"]; x != nil {
				r.check(strings.Contains(unq(x.at("documentation", "value")), "second"), key, pos, "bb is explained by %s", x.at("documentation"))
			}
		})
	}
	one := [][]tok{com(" first"), tokLine("a:"), tokLine("proto", "1", "2"), tokLine("callsub")}
	ask("signature of a label", one, 3, func(items map[string]*jv) {
		x := items["a"]
		ok := x != nil && strings.Contains(unq(x.at("documentation", "value")), "first") && strings.Contains(unq(x.at("labelDetails", "detail")), "1") && strings.Contains(unq(x.at("labelDetails", "detail")), "2")
		r.check(ok, "signature of a label", pos, "the label is offered as %v", items)
	})
}
