package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// actItem is something a range request can be about.
type actItem struct {
	kind  string // named, decoded, missing, version, redundant
	line  int
	b, e  Val
	value string
}

// printableHex decodes a hex literal of printable ASCII characters.
func printableHex(s string) (string, bool) {
	if !strings.HasPrefix(s, "0x") || len(s)%2 != 0 || len(s) < 4 {
		return "", false
	}
	var b []byte
	for i := 2; i < len(s); i += 2 {
		n, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil || n < 0x20 || n > 0x7e {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

// tealString writes a string literal.
func tealString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			sb.WriteByte('\\')
		}
		sb.WriteByte(s[i])
	}
	sb.WriteByte('"')
	return sb.String()
}

// actItems lists what hints and actions a program has; the version in force is 1
// unless a pragma is on the first line.
func actItems(prog [][]tok) []actItem {
	var its []actItem
	labels, used := map[string]bool{}, map[string]bool{}
	ls, refs := navOf(prog)
	for _, l := range ls {
		labels[l.name] = true
	}
	for _, f := range refs {
		used[f.name] = true
		if !labels[f.name] {
			its = append(its, actItem{"missing", f.line, f.b, f.e, f.name})
		}
	}
	for _, l := range ls {
		if !used[l.name] {
			its = append(its, actItem{kind: "redundant", line: l.line, value: l.name})
		}
	}
	ver := int64(1)
	for li, l := range prog {
		var ws []string
		for _, t := range l {
			if t.Kind != "comment" {
				ws = append(ws, t.Text)
			}
		}
		if len(ws) == 0 || strings.HasSuffix(ws[0], ":") {
			continue
		}
		if ws[0] == "#pragma" {
			ver, _ = strconv.ParseInt(ws[2], 10, 64)
			continue
		}
		if ws[0] == "b" {
			for _, t := range prog[li+1:] {
				if len(t) > 0 && t[0].Kind != "comment" {
					if t[0].Text == ws[1]+":" {
						its = append(its, actItem{kind: "redundant", line: li, value: "b"})
					}
					break
				}
			}
		}
		op := oracleOps[ws[0]]
		if op == nil {
			continue
		}
		if op.App > ver {
			b, _ := tokCols(l, 0)
			_, e := tokCols(l, len(ws)-1)
			its = append(its, actItem{"version", li, colVal(li, b), colVal(li, e), fmt.Sprint(op.App)})
		}
		f, ok := op.form(len(ws) - 1)
		if !ok {
			continue
		}
		for i, k := range f.Imms {
			b, e := tokCols(l, i+1)
			it := actItem{line: li, b: colVal(li, b), e: colVal(li, e)}
			if g, need := fieldGroup(k); g != "" {
				for _, fd := range oracleFields[g] {
					if ws[i+1] == fmt.Sprint(fd.Num) && need(fd) >= 0 {
						it.kind, it.value = "named", fd.Name
						its = append(its, it)
					}
				}
			}
			if k == "bytes" {
				if s, ok := printableHex(ws[i+1]); ok {
					it.kind, it.value = "decoded", s
					its = append(its, it)
				}
			}
		}
	}
	return its
}

func actKinds() map[string][]tok {
	return map[string][]tok{
		"txn":   tokLine("txn", "1"),
		"gtxna": tokLine("gtxna", "0", "28", "1"),
		"byte":  tokLine("byte", "0x4142"),
		"block": tokLine("bytecblock", "0x41", "0x0a", "0x4243"),
		"int":   tokLine("int", "0x41"),
		"miss":  tokLine("b", "zz"),
		"b":     tokLine("b", "a"),
		"a:":    tokLine("a:"),
		"ver":   tokLine("gaid", "1"),
		"//":    {tok{Text: "txn"}, tok{Text: "2"}, tok{Text: " 3", Kind: "comment"}},
		"":      {},
	}
}

// scalars renders the leaves of a value, whatever their names.
func scalars(fs *Facts, j *jv) []string {
	if j == nil {
		return nil
	}
	switch j.K {
	case "obj":
		var out []string
		for _, n := range j.N {
			out = append(out, scalars(fs, j.F[n])...)
		}
		return out
	case "arr":
		var out []string
		for _, x := range j.A {
			out = append(out, scalars(fs, x)...)
		}
		return out
	}
	if j.V != nil {
		return []string{fs.constOf(j.V).Key()}
	}
	return []string{j.K}
}

func scalarsWant(vs ...Val) string {
	var out []string
	for _, v := range vs {
		out = append(out, v.Key())
	}
	return keyList(out)
}

func (it actItem) action() (cmd string, args string) {
	u, ln := mkStr("u1"), mkInt(int64(it.line), intT)
	switch it.kind {
	case "named":
		return "teal.value.replace", scalarsWant(u, ln, it.b, ln, it.e, mkStr(it.value))
	case "decoded":
		return "teal.value.replace", scalarsWant(u, ln, it.b, ln, it.e, mkStr(tealString(it.value)))
	case "missing":
		return "teal.label.create", scalarsWant(u, mkStr(it.value))
	case "version":
		n, _ := strconv.ParseInt(it.value, 10, 64)
		return "teal.version.update", scalarsWant(u, mkInt(n, intT))
	}
	return "teal.line.remove", scalarsWant(u, ln)
}

// checkP32: inlay hints, code actions and the edits of commands.
func checkP32(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the language server: for every small program with arbitrary indentation and every range with arbitrary columns, the hints and code actions on every path are compared with an independent formulation (what intersects the range), whose open cases are split until the path's facts decide them; every field number of every opcode and every byte value; the edits of the commands are compared with the command's arguments and the document"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	kinds := actKinds()
	names := sortedKeys(kinds)
	var progs [][]string
	for _, a := range names {
		progs = append(progs, []string{a})
		for _, b := range names {
			progs = append(progs, []string{a, b})
		}
	}
	if r.Thorough {
		for _, a := range names {
			for _, b := range names {
				for _, d := range names {
					progs = append(progs, []string{a, b, d})
				}
			}
		}
	}
	for _, pn := range progs {
		var prog [][]tok
		for _, n := range pn {
			prog = append(prog, kinds[n])
		}
		c.ranges(r, strings.Join(pn, "; "), pos, prog, nil)
	}
	// values with many characters that have to be escaped
	for _, s := range []string{strings.Repeat("5c", 20), strings.Repeat("22", 33), strings.Repeat("5c22", 21), strings.Repeat("615c6e", 15), "5c" + strings.Repeat("61", 70) + "22"} {
		c.ranges(r, "long literal "+s, pos, [][]tok{tokLine("byte", "0x"+s)}, nil)
	}
	all := ""
	for b := 0x20; b < 0x7f; b++ {
		all += fmt.Sprintf("%02x", b)
	}
	c.ranges(r, "all characters", pos, [][]tok{tokLine("byte", "0x"+all)}, nil)
	// several versions in one program, and longer programs
	vk := map[string][]tok{"#3": tokLine("#pragma", "version", "3"), "#8": tokLine("#pragma", "version", "8"), "box": tokLine("box_del")}
	for k, l := range kinds {
		vk[k] = l
	}
	long := [][]string{{"ver", "#8"}, {"ver", "#3", "ver", "#8"}, {"#8", "box", "ver"}, {"#3", "box", "ver", "box"}, {"ver", "box", "ver", "#8", "box"}}
	vn := sortedKeys(vk)
	rnd := uint32(7)
	for i := 0; i < 8; i++ {
		var pn []string
		for k := 0; k < 7; k++ {
			rnd = rnd*1664525 + 1013904223
			n := vn[int(rnd>>8)%len(vn)]
			if n[:min(1, len(n))] == "#" && k > 0 {
				n = "box"
			}
			pn = append(pn, n)
		}
		long = append(long, pn)
	}
	for _, pn := range long {
		var prog [][]tok
		for _, n := range pn {
			prog = append(prog, vk[n])
		}
		n := len(prog)
		c.ranges(r, strings.Join(pn, "; "), pos, prog, [][2]int{{0, n}, {n / 3, n / 2}, {n - 1, n - 1}})
	}
	c.hintValues(r, pos)
	c.commandEdits(r, pos)
	r.floor("programs", 130)
	r.floor("ranges", 700)
	r.floor("field numbers", 600)
	r.floor("byte values", 300)
	r.floor("edits", 20)
}

func (c *Ctx) ranges(r *Report, pk, pos string, prog [][]tok, spans [][2]int) {
	ps := map[string][][]tok{"P": prog}
	setup := func(s *srv) { s.indent = true }
	its := actItems(prog)
	c1, c2 := &Sym{Name: "C1", T: intT}, &Sym{Name: "C2", T: intT}
	r.count("programs")
	for l1 := 0; l1 <= len(prog); l1++ {
		for l2 := l1; l2 <= len(prog); l2++ {
			if spans != nil {
				want := false
				for _, s := range spans {
					want = want || s == [2]int{l1, l2}
				}
				if !want {
					continue
				}
			}
			rg := jo("start", jpos(jint(int64(l1)), jnum("C1")), "end", jpos(jint(int64(l2)), jnum("C2")))
			in := func(ask func(cond) bool, it actItem) bool {
				if it.line < l1 || it.line > l2 {
					return false
				}
				if it.b == nil {
					return true // a whole line
				}
				if it.line == l1 && ask(cond{op: "lt", a: it.e, b: c1}) {
					return false
				}
				if it.line == l2 && ask(cond{op: "lt", a: c2, b: it.b}) {
					return false
				}
				return true
			}
			key := fmt.Sprintf("%s/lines %d-%d", pk, l1, l2)
			for _, hint := range []bool{true, false} {
				m, k := "textDocument/codeAction", key+"/actions"
				p := jo("textDocument", jdoc("u1"), "range", rg)
				if hint {
					m, k = "textDocument/inlayHint", key+"/hints"
				} else {
					p.set("context", jo("diagnostics", ja()))
				}
				for _, o := range c.session(r, k, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), m, p)}, ps, nil, setup) {
					rs := o.replies("ID")
					if !r.check(len(rs) == 1 && !isErr(rs[0]), k, pos, "not answered with one result (%s)", sentStr(o)) {
						continue
					}
					res := rs[0].at("result")
					base := o.Out.St.facts.clone()
					feasible := true
					asm := func(a, b Val) {
						cd := cond{op: "le", a: a, b: b}
						if base.decide(cd) == 0 {
							feasible = false
							return
						}
						base.assume(cd)
					}
					asm(mkInt(0, intT), c1)
					asm(mkInt(0, intT), c2)
					if l1 == l2 {
						asm(c1, c2)
					}
					for l := range prog {
						asm(mkInt(0, intT), indentOf(l))
					}
					if !feasible {
						continue
					}
					base.split(func(fs *Facts, ask func(cond) bool) {
						var want, got []string
						for _, it := range its {
							if hint && it.kind != "named" && it.kind != "decoded" || !in(ask, it) {
								continue
							}
							if hint {
								want = append(want, fmt.Sprintf("%d:%s %q", it.line, it.e.Key(), it.value))
							} else {
								cmd, args := it.action()
								want = append(want, cmd+" "+args)
							}
						}
						if res.K != "arr" || res.Open {
							got = append(got, "not determined")
						}
						for _, x := range res.list() {
							if hint {
								p := x.at("position")
								got = append(got, fmt.Sprintf("%s:%s %s", fs.constOf(p.at("line").V).Key(), fs.constOf(p.at("character").V).Key(), x.at("label")))
							} else {
								got = append(got, unq(x.at("command", "command"))+" "+keyList(scalars(fs, x.at("command", "arguments"))))
							}
						}
						g, w := keyList(got), keyList(want)
						r.check(g == w, k, pos, "the answer is [%s] instead of [%s]", g, w)
						r.count("cases")
					})
				}
			}
			r.count("ranges")
		}
	}
}

// hintValues: the name of every field number, and the text of every byte.
func (c *Ctx) hintValues(r *Report, pos string) {
	all := jo("start", jpos(jint(0), jint(0)), "end", jpos(jint(100000), jint(0)))
	setup := func(s *srv) { s.concrete = true }
	hints := func(key string, prog [][]tok, named, decoded int, fn func(line int, labels []string)) {
		io := jo()
		for _, x := range []struct {
			n string
			v int
		}{{"inlayNamed", named}, {"inlayDecoded", decoded}} {
			if x.v >= 0 {
				io.set(x.n, jbool(x.v == 1))
			}
		}
		ms := []msg{lspReq(js("i"), "initialize", jo("initializationOptions", io)), lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/inlayHint", jo("textDocument", jdoc("u1"), "range", all))}
		for _, o := range c.session(r, key, "lsp", ms, map[string][][]tok{"P": prog}, nil, setup) {
			rs := o.replies("ID")
			if !r.check(len(rs) == 1 && !isErr(rs[0]) && !rs[0].at("result").Open, key, pos, "not answered with one result (%s)", sentStr(o)) {
				continue
			}
			by := map[string][]string{}
			for _, x := range rs[0].at("result").list() {
				l := x.at("position", "line").String()
				by[l] = append(by[l], unq(x.at("label")))
			}
			for i := range prog {
				fn(i, by[fmt.Sprint(i)])
			}
		}
	}
	for _, on := range oracleNames() {
		op := oracleOps[on]
		for _, n := range op.arities() {
			f, _ := op.form(n)
			for i, k := range f.Imms {
				g, need := fieldGroup(k)
				if g == "" {
					continue
				}
				names := map[int64]string{}
				top := int64(0)
				for _, fd := range oracleFields[g] {
					if need(fd) >= 0 {
						names[fd.Num] = fd.Name
					}
					if fd.Num > top {
						top = fd.Num
					}
				}
				var prog [][]tok
				var want []string
				for v := int64(0); v <= top+3; v++ {
					if (k == "txna" || k == "txn") && names[v] == "" && v <= top {
						continue // the other form of the opcode may take it
					}
					ws := []string{on}
					for j := range f.Imms {
						if j == i {
							ws = append(ws, fmt.Sprint(v))
						} else {
							ws = append(ws, "0")
						}
					}
					prog = append(prog, tokLine(ws...))
					want = append(want, names[v])
				}
				key := fmt.Sprintf("%s %d/%d", on, n, i)
				hints(key, prog, -1, -1, func(line int, ls []string) {
					w := []string{}
					if want[line] != "" {
						w = append(w, want[line])
					}
					r.check(strings.Join(ls, ",") == strings.Join(w, ","), key, pos, "%s is shown as %v instead of %v", toksText(prog[line]), ls, w)
					r.count("field numbers")
				})
			}
		}
	}
	for _, op := range []string{"byte", "pushbytes", "pushbytess", "bytecblock"} {
		var prog [][]tok
		var want []string
		for v := 0; v < 256; v++ {
			if op != "byte" && v%17 != 0 && v != 0x41 {
				continue
			}
			s := fmt.Sprintf("0x%02x", v)
			prog = append(prog, tokLine(op, s))
			d, _ := printableHex(s)
			want = append(want, d)
			s = fmt.Sprintf("0x41%02x", v)
			prog = append(prog, tokLine(op, s))
			d, _ = printableHex(s)
			want = append(want, d)
		}
		for n := 0; n <= 70; n++ {
			if op != "byte" && n%9 != 0 {
				continue
			}
			for _, last := range []string{"5a", "5A", "0a", "c3a9", "7", ""} {
				s := "0x" + strings.Repeat("61", n) + last
				prog = append(prog, tokLine(op, s))
				d, _ := printableHex(s)
				want = append(want, d)
			}
		}
		hints(op, prog, -1, -1, func(line int, ls []string) {
			w := []string{}
			if want[line] != "" {
				w = append(w, want[line])
			}
			r.check(strings.Join(ls, ",") == strings.Join(w, ","), op, pos, "%s is shown as %q instead of %q", toksText(prog[line]), ls, w)
			r.count("byte values")
		})
	}
	// values that are no field numbers
	{
		var prog [][]tok
		for _, op := range []string{"txn", "global", "block", "acct_params_get", "app_params_get", "asset_params_get", "asset_holding_get", "json_ref", "base64_decode", "vrf_verify", "ecdsa_verify", "ec_add", "itxn_field"} {
			for _, v := range []string{"-1", "1000", "256", "65536", "4294967296", "x", "1x", "x1", "1.0", "", "99999999999999999999", "0x", "\"1\""} {
				if v == "" {
					prog = append(prog, tokLine(op))
				} else {
					prog = append(prog, tokLine(op, v))
				}
			}
		}
		for _, l := range []string{"int 1 1", "sha256 1", "load 1 1", "frob 1", "b 1", "#pragma version 1", "1 1", "1: 1", "bnz 0 0", "intc 1", "pushint 2", "intcblock 1 2 3", "proto 1 2", "dig 1", "cover 1", "frame_dig 1", "substring 1 2", "gaid 1", "arg 1"} {
			prog = append(prog, tokLine(strings.Fields(l)...))
		}
		hints("no field numbers", prog, -1, -1, func(line int, ls []string) {
			r.check(len(ls) == 0, "no field numbers", pos, "%s is shown as %q", toksText(prog[line]), ls)
		})
	}
	// nothing else is decoded, and the options switch the hints
	prog := [][]tok{tokLine("int", "0x41"), tokLine("pushint", "0x41"), tokLine("byte", "base64", "0x41"), tokLine("byte", "0xF"), tokLine("byte", "41"), tokLine("intcblock", "0x41", "0x42"), tokLine("int", "1"), tokLine("load", "1"), tokLine("pushint", "1"), tokLine("byte", "0x41"), tokLine("txn", "1"), tokLine("global", "0")}
	for named := -1; named <= 1; named++ {
		for decoded := -1; decoded <= 1; decoded++ {
			key := fmt.Sprintf("options %d %d", named, decoded)
			hints(key, prog, named, decoded, func(line int, ls []string) {
				w := ""
				switch {
				case line == 9 && decoded != 0:
					w = "A"
				case line == 10 && named != 0:
					w = "Fee"
				case line == 11 && named != 0:
					w = "MinTxnFee"
				}
				r.check(strings.Join(ls, ",") == w, key, pos, "%s is shown as %q instead of %q", toksText(prog[line]), ls, w)
			})
		}
	}
}

func toksText(l []tok) string {
	var ws []string
	for _, t := range l {
		ws = append(ws, t.Text)
	}
	return strings.Join(ws, " ")
}

// commandEdits: the edits the commands lead to.
func (c *Ctx) commandEdits(r *Report, pos string) {
	setup := func(s *srv) { s.indent = true }
	edits := func(fs *Facts, o srvOut) []string {
		var out []string
		for _, m := range o.Sent {
			if unq(m.J.at("method")) != "workspace/applyEdit" {
				continue
			}
			e := m.J.at("params", "edit")
			n := 0
			for _, d := range e.at("documentChanges").list() {
				n++
				for _, x := range d.at("edits").list() {
					out = append(out, unq(d.at("textDocument", "uri"))+" "+rangeOf(fs, x.at("range"))+" "+x.at("newText").String())
				}
			}
			if ch := e.at("changes"); ch != nil {
				for _, u := range ch.N {
					n++
					for _, x := range ch.F[u].list() {
						out = append(out, u+" "+rangeOf(fs, x.at("range"))+" "+x.at("newText").String())
					}
				}
			}
			out = append(out, "edit")
		}
		sort.Strings(out)
		return out
	}
	exec := func(key string, prog [][]tok, cmd *jv, args *jv, want ...string) {
		ms := []msg{lspOpen("u2", "Q"), lspOpen("u1", "P"), lspReq(jsym("ID"), "workspace/executeCommand", jo("command", cmd, "arguments", args))}
		ps := map[string][][]tok{"P": prog, "Q": {tokLine("#pragma", "version", "3"), tokLine("q:"), tokLine("zz:")}}
		for _, o := range c.session(r, key, "lsp", ms, ps, nil, setup) {
			rs := o.replies("ID")
			r.check(len(rs) == 1 && !isErr(rs[0]), key, pos, "not answered with one result (%s)", sentStr(o))
			g, w := keyList(edits(o.Out.St.facts, o)), keyList(append([]string{"edit"}, want...))
			r.check(g == w, key, pos, "the edits are [%s] instead of [%s]", g, w)
			r.count("edits")
		}
	}
	at := func(l1 int64, b Val, l2 int64, e Val) string {
		return fmt.Sprintf("u1 %d:%s-%d:%s ", l1, b.Key(), l2, e.Key())
	}
	zero := mkInt(0, intT)
	// the commands of the code actions, sent back as they are
	for _, pn := range [][]string{{"txn", "byte"}, {"int", "miss"}, {"a:", "ver"}, {"", "b", "a:"}, {"block", "", "ver", "miss"}, {"#", "ver", "a:"}, {"//", "#", "miss"}, {"//", "#", "ver"}, {"", "#", "ver"}, {"//", "", "//", "#", "txn", "ver"}} {
		kinds := actKinds()
		kinds["#"] = tokLine("#pragma", "version", "3")
		var prog [][]tok
		for _, n := range pn {
			prog = append(prog, kinds[n])
		}
		key := "commands of " + strings.Join(pn, "; ")
		p := jo("textDocument", jdoc("u1"), "range", jo("start", jpos(jint(0), jint(0)), "end", jpos(jint(100), jint(0))), "context", jo("diagnostics", ja()))
		its := actItems(prog)
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), "textDocument/codeAction", p)}, map[string][][]tok{"P": prog}, nil, setup) {
			for _, rs := range o.replies("ID") {
				for _, a := range rs.at("result").list() {
					cmd := a.at("command")
					k := unq(cmd.at("command")) + " " + keyList(scalars(o.Out.St.facts, cmd.at("arguments")))
					var it *actItem
					for i := range its {
						n, as := its[i].action()
						if n+" "+as == k {
							it = &its[i]
						}
					}
					if it == nil {
						continue // covered by the comparison of the actions
					}
					var want string
					line := int64(it.line)
					switch it.kind {
					case "named":
						want = at(line, it.b, line, it.e) + fmt.Sprintf("%q", it.value)
					case "decoded":
						want = at(line, it.b, line, it.e) + fmt.Sprintf("%q", tealString(it.value))
					case "redundant":
						want = at(line, zero, line+1, zero) + `""`
					case "missing":
						want = "label"
					case "version":
						want = at(0, zero, 0, zero) + fmt.Sprintf("%q", "#pragma version "+it.value+"\r\n")
						for l, ts := range prog {
							if len(ts) > 0 && ts[0].Text == "#pragma" {
								b, e := tokCols(ts, 2)
								want = at(int64(l), colVal(l, b), int64(l), colVal(l, e)) + fmt.Sprintf("%q", it.value)
							}
						}
					}
					if it.kind == "missing" {
						c.createsLabel(r, key, pos, prog, cmd, it.value, setup)
						continue
					}
					exec(key+"/"+k, prog, cmd.at("command"), cmd.at("arguments"), want)
				}
			}
		}
	}
	// removal of a label covers all of its definitions
	for _, pn := range [][]string{{"a:"}, {"a:", "txn", "a:"}, {"b", "a:"}, {"txn"}, {"a:", "lbl:"}} {
		kinds := actKinds()
		kinds["lbl:"] = tokLine("lbl:")
		var prog [][]tok
		for _, n := range pn {
			prog = append(prog, kinds[n])
		}
		ls, _ := navOf(prog)
		for _, name := range []string{"a", "lbl", "q"} {
			var want []string
			for _, l := range ls {
				if l.name == name {
					want = append(want, "u1 "+jrange(l.line, l.b, l.e)+` ""`)
				}
			}
			exec("remove "+name+" from "+strings.Join(pn, "; "), prog, js("teal.label.remove"), ja(jo("uri", js("u1"), "name", js(name))), want...)
		}
	}
}

// createsLabel: the label is put on a line of its own behind the last line.
func (c *Ctx) createsLabel(r *Report, key, pos string, prog [][]tok, cmd *jv, name string, setup func(*srv)) {
	key += "/create " + name
	ms := []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), "workspace/executeCommand", jo("command", cmd.at("command"), "arguments", cmd.at("arguments")))}
	for _, o := range c.session(r, key, "lsp", ms, map[string][][]tok{"P": prog}, nil, setup) {
		n := 0
		for _, m := range o.Sent {
			for _, d := range m.J.at("params", "edit", "documentChanges").list() {
				for _, x := range d.at("edits").list() {
					n++
					l := x.at("range", "start", "line").String()
					t := unq(x.at("newText"))
					own := strings.TrimSpace(t) == name+":" && (strings.HasPrefix(t, "\n") || strings.HasPrefix(t, "\r\n"))
					r.check(unq(d.at("textDocument", "uri")) == "u1" && l == fmt.Sprint(len(prog)) && x.at("range", "start", "character").String() == "0" && own, key, pos, "the label is created by %s", x)
				}
			}
		}
		r.check(n == 1, key, pos, "%d edits create the label", n)
		r.count("edits")
	}
}
