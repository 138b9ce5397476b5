package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func allGlobals(g *ssa.Global) bool { return true }

// tokenText replaces the text of argument token k by a constant.
func (c *Ctx) tokenText(in *Interp, st *State, cc int, k int, text string) {
	ctx := st.get(cc).(*StructV)
	av := lineCursor(c, in, st, ctx)
	if av == nil {
		return
	}
	for _, f := range av.F {
		sl, ok := f.(*SliceV)
		if !ok {
			continue
		}
		q := st.get(sl.Cell).(*Seq)
		nq := &Seq{T: q.T, Segs: append([]Seg{}, q.Segs...)}
		tv := nq.Segs[k].V.(*StructV)
		nv := &StructV{T: tv.T, F: append([]Val{}, tv.F...)}
		for i, x := range nv.F {
			if isStringT(typeOf(x)) {
				nv.F[i] = mkStr(text)
			}
		}
		nq.Segs[k] = Seg{Kind: SegElem, V: nv}
		st.heap[sl.Cell] = nq
	}
}

// ctxVersion is the program version the parser knows when it reads the line.
func ctxVersion(c *Ctx, in *Interp) Val {
	pc, _, err := c.parserTypes()
	if err != nil {
		return nil
	}
	v := in.expand(in.NewState(), &Sym{Name: "ctx", T: pc}).(*StructV)
	return ctxField(c, v, "version")
}

// immWords returns the printed words of every accepting path.
func (c *Ctx) immWords(run OpRun) ([][][]Val, []*Facts, string) {
	if len(run.Ops) != 1 {
		return nil, nil, fmt.Sprintf("%d instructions recorded", len(run.Ops))
	}
	outs, err := c.printed(run.In, run.Out.St, run.Ops[0])
	if err != nil {
		return nil, nil, err.Error()
	}
	var ws [][][]Val
	var fs []*Facts
	for _, o := range outs {
		if o.Kind != OutReturn {
			return nil, nil, "printing the instruction can panic"
		}
		ws = append(ws, words(o.Vals[0]))
		fs = append(fs, o.St.facts)
	}
	return ws, fs, ""
}

type formCase struct {
	Op   *OrOp
	Reg  OpReg
	N    int
	Form OrForm
}

// forms enumerates every accepted form of every opcode.
func (c *Ctx) forms(r *Report) []formCase {
	regs, err := c.opsByName()
	if err != nil {
		r.bad("registry", "process.go", "%v", err)
		return nil
	}
	var out []formCase
	for _, name := range oracleNames() {
		o := oracleOps[name]
		reg, ok := regs[name]
		if !ok {
			r.bad("registered/"+name, "process.go", "opcode %q is not registered", name)
			continue
		}
		ar := o.arities()
		if o.Variadic == "bytes" {
			ar = []int{0, 1, 2}
		} else if o.Variadic != "" {
			ar = []int{0, 1, 2, 3}
		}
		for _, n := range ar {
			f, _ := o.form(n)
			out = append(out, formCase{Op: o, Reg: reg, N: n, Form: f})
		}
	}
	return out
}

// ---------------------------------------------------------------- P04

func checkP04(c *Ctx, r *Report) {
	r.Rule = "For every opcode form with a field immediate and every field name of the AVM reference tables: abstract interpretation of the parse function with that token fixed and the program version and all other tokens arbitrary. Every accepting path's path condition must entail version >= the field's introduction (inner-transaction introduction for itxn_field; array fields only in array positions), every path rejecting that token must entail the opposite, and the recorded instruction must denote that field. Every number 0..255 is accepted exactly if it denotes a field. Every named integer constant yields its value."
	r.floor("field name in position", 1200)
	r.floor("field number in position", 9000)
	for _, fc := range c.forms(r) {
		for i, kind := range fc.Form.Imms {
			pos := r.fnPos(fc.Reg.Parse)
			k := i + 1
			id := fmt.Sprintf("%s/%d/arg%d", fc.Op.Name, fc.N, k)
			if kind == "constint" {
				for _, g := range []string{"txntype", "oncompletion"} {
					for _, f := range oracleFields[g] {
						if strings.Contains(f.Name, " ") {
							continue // cannot be written as one token
						}
						r.count("named integer")
						c.constTok(r, fc, k, f.Name, id+"/"+f.Name, pos, nil, func(w string) bool { return w == strconv.FormatInt(f.Num, 10) })
					}
				}
				continue
			}
			group, need := fieldGroup(kind)
			if group == "" {
				continue
			}
			byNum := map[int64]string{}
			apt := map[int64]bool{}
			for _, f := range oracleFields[group] {
				byNum[f.Num] = f.Name
				f := f
				nd := need(f)
				apt[f.Num] = nd >= 0
				r.count("field name in position")
				c.constTok(r, fc, k, f.Name, id+"/"+f.Name, pos, &nd, func(w string) bool { return w == f.Name || w == strconv.FormatInt(f.Num, 10) })
			}
			for n := int64(0); n < 256; n++ {
				txt := strconv.FormatInt(n, 10)
				name, ok := byNum[n]
				r.count("field number in position")
				if ok && !apt[n] {
					continue // a number of a field that does not apply here: not decided
				}
				if ok {
					c.constTok(r, fc, k, txt, id+"/#"+txt, pos, nil, func(w string) bool { return w == name || w == txt })
				} else {
					never := int64(-1)
					c.constTok(r, fc, k, txt, id+"/#"+txt, pos, &never, func(string) bool { return true })
				}
			}
		}
	}
}

// constTok analyses a form with token k fixed. need: nil = always accepted,
// -1 = never, else the version from which it is accepted.
func (c *Ctx) constTok(r *Report, fc formCase, k int, text, key, pos string, need *int64, okWord func(string) bool) {
	runs, in, err := c.runParse(fc.Reg, fc.N, allGlobals, func(in *Interp, st *State, cc int) { c.tokenText(in, st, cc, k, text) })
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	r.incompl(in, key, pos)
	ver := ctxVersion(c, in)
	acc := 0
	for _, run := range runs {
		f := run.Out.St.facts
		if run.Out.Kind == OutReturn {
			if need != nil && *need < 0 {
				r.bad(key+"/accepted", pos, "%s %q is accepted as argument %d of %s, where it has no meaning", fc.Op.Name, text, k, fc.Op.Name)
				continue
			}
			if need != nil && *need > 0 {
				r.check(f.decide(cond{op: "le", a: mkInt(*need, typeOf(ver)), b: ver}) == 1, key+"/early", pos, "%s %s can be accepted in a program of a version below %d, in which %s does not exist", fc.Op.Name, text, *need, text)
			}
			acc++
			ws, _, msg := c.immWords(run)
			if msg != "" {
				r.bad(key+"/print", pos, "%s %s: %s", fc.Op.Name, text, msg)
				continue
			}
			for _, w := range ws {
				got := ""
				if k < len(w) {
					got, _ = wordStr(w[k])
				}
				r.check(okWord(got), key+"/value", pos, "%s %s (argument %d) records %q instead", fc.Op.Name, text, k, got)
			}
			continue
		}
		if run.Consumed != int64(k) {
			continue // rejected because of another token
		}
		if need == nil {
			r.bad(key+"/rejected", pos, "%s %s is rejected although %s is always available", fc.Op.Name, text, text)
			continue
		}
		if *need >= 0 {
			r.check(*need > 0 && f.decide(cond{op: "lt", a: ver, b: mkInt(*need, typeOf(ver))}) == 1, key+"/late", pos, "%s %s can be rejected in a program of version %d or later, in which %s exists", fc.Op.Name, text, *need, text)
		}
	}
	if need == nil || *need >= 0 {
		r.check(acc > 0, key+"/never", pos, "%s %s is never accepted", fc.Op.Name, text)
	} else if acc == 0 {
		r.ok(key + "/refused")
	}
}

// ---------------------------------------------------------------- P05

// flatten lists every scalar reachable from an instruction value.
func (in *Interp) flatten(st *State, v Val, seen map[string]bool) []Val {
	if v == nil || seen[v.Key()] {
		return nil
	}
	switch x := v.(type) {
	case *IfaceV:
		return in.flatten(st, x.V, seen)
	case *Ptr:
		seen[v.Key()] = true
		return in.flatten(st, in.load(st, x), seen)
	case *StructV:
		var out []Val
		for _, f := range x.F {
			out = append(out, in.flatten(st, f, seen)...)
		}
		return out
	case *SliceV:
		var out []Val
		if q, ok := in.seqOf(st, x); ok {
			for _, g := range q.Segs {
				if g.Kind == SegElem {
					out = append(out, in.flatten(st, g.V, seen)...)
				} else {
					out = append(out, q)
				}
			}
		}
		return out
	}
	return []Val{v}
}

// errOf finds the decoding call inside a value and reports whether the path
// knows that it succeeded (1), failed (0) or does not know (-1). 2: no call.
func decodedOK(f *Facts, v Val) int {
	res := 2
	walkVal(v, func(x Val) {
		t, ok := x.(*Term)
		if !ok || t.Op != "ext" || t.Extra != "0" {
			return
		}
		call, ok := t.Args[0].(*Term)
		if !ok || call.Op != "call" {
			return
		}
		for i := 1; i < 4; i++ {
			e := &Term{Op: "ext", Extra: strconv.Itoa(i), Args: []Val{call}}
			if f.decide(cond{op: "eq", a: e, b: &Const{}}) == 1 {
				if res == 2 {
					res = 1
				}
				return
			}
		}
		res = 0
	})
	return res
}

func checkP05(c *Ctx, r *Report) {
	r.Rule = "For every form of every opcode, on a line with that many arbitrary tokens: on each accepting path the recorded instruction holds, for each numeric immediate, the value the conversion of that token returned, with no narrowing that can lose bits, on a path that knows the conversion succeeded, and the conversion admits exactly the immediate's range (8 bits unsigned or signed, 64 bits for integer constants, which also admit the 0x notation); labels, addresses and signatures are the token's text; byte constants derive from their tokens through a decoding known to have succeeded. On each rejecting path at least one token is known to be malformed, i.e. no line whose tokens all decode is refused."
	r.floor("numeric immediate", 60)
	r.floor("label immediate", 8)
	r.floor("byte immediate", 5)
	for _, fc := range c.forms(r) {
		pos := r.fnPos(fc.Reg.Parse)
		key := fmt.Sprintf("%s/%d", fc.Op.Name, fc.N)
		runs, in, err := c.runParse(fc.Reg, fc.N, nil, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		r.incompl(in, key, pos)
		bytesOp := isBytesOp(fc.Op)
		for _, run := range runs {
			f := run.Out.St.facts
			if run.Out.Kind == OutPanic {
				if bytesOp || fc.N == 0 {
					continue
				}
				why := rejectReason(f, run, fc)
				r.check(why != "", key+"/refused", pos, "%s refuses a line with %d arguments although none of them is known to be malformed (%s)", fc.Op.Name, fc.N, strings.Join(f.Dump(), "; "))
				continue
			}
			if len(run.Ops) != 1 {
				continue // P01
			}
			vals := in.flatten(run.Out.St, run.Ops[0], map[string]bool{})
			for i, kind := range fc.Form.Imms {
				k := i + 1
				ik := fmt.Sprintf("%s/arg%d", key, k)
				switch kind {
				case "u8", "i8", "int":
					r.count("numeric immediate")
					found := false
					for _, v := range vals {
						d, ok := decodeNum(f, v)
						if !ok || d.Tok != k {
							continue
						}
						found = true
						bits := map[string]int64{"u8": 8, "i8": 8, "int": 64}[kind]
						r.check(!d.Lossy, ik+"/truncated", pos, "argument %d of %s is converted to a narrower type without a range check: large values silently become other values (%s)", k, fc.Op.Name, v.Key())
						if !d.Lossy {
							r.check(d.Bits == bits && d.Signed == (kind == "i8"), ik+"/range", pos, "argument %d of %s admits a %d-bit (signed: %v) value; the immediate has %d bits", k, fc.Op.Name, d.Bits, d.Signed, bits)
						}
						r.check(d.Base == 0 || d.Base == 10 && kind != "int", ik+"/base", pos, "argument %d of %s is read in base %d", k, fc.Op.Name, d.Base)
						r.check(decodedOK(f, v) == 1, ik+"/unchecked", pos, "argument %d of %s is used although its conversion may have failed", k, fc.Op.Name)
					}
					r.check(found, ik+"/kept", pos, "the instruction recorded for %s does not hold the value of argument %d", fc.Op.Name, k)
				case "label", "addr", "method":
					r.count(kind + " immediate")
					found := false
					for _, v := range vals {
						toks := tokensIn(v)
						if kind == "method" {
							if len(toks) == 1 && toks[k] && isStringT(typeOf(v)) {
								found = true
							}
						} else if tokText(v) == k {
							found = true
						}
					}
					r.check(found, ik+"/kept", pos, "the instruction recorded for %s does not hold the text of argument %d", fc.Op.Name, k)
					if kind == "addr" {
						okd := false
						for key, v := range f.eq {
							if isNilConst(v) && strings.HasPrefix(key, "ext:1(call:") && strings.Contains(key, fmt.Sprintf("DecodeAddress(f:v(tok%d)", k)) {
								okd = true
							}
						}
						r.check(okd, ik+"/unchecked", pos, "the address of %s is accepted without being decoded", fc.Op.Name)
					}
				case "constint":
					r.count("numeric immediate")
					found := false
					for _, v := range vals {
						if d, ok := decodeNum(f, v); ok && d.Tok == k {
							found = true
							r.check(!d.Lossy && d.Bits == 64 && !d.Signed && d.Base == 0, ik+"/range", pos, "argument %d of %s does not admit every 64-bit value in decimal or 0x notation", k, fc.Op.Name)
							r.check(decodedOK(f, v) == 1, ik+"/unchecked", pos, "argument %d of %s is used although its conversion may have failed", k, fc.Op.Name)
						} else if t, ok := v.(*Term); ok && len(tokensIn(v)) == 1 && tokensIn(v)[k] && (t.Op == "lookup" || t.Op == "f") {
							found = true
						}
					}
					r.check(found, ik+"/kept", pos, "the instruction recorded for %s does not hold the value of argument %d", fc.Op.Name, k)
				}
			}
			if bytesOp {
				r.count("byte immediate")
				c.checkBytes(r, fc, key, pos, in, run, vals)
			}
		}
	}
}

// checkBytes: every token of an accepted byte-constant line is either a
// notation keyword or the source of exactly one decoded value, in order.
func (c *Ctx) checkBytes(r *Report, fc formCase, key, pos string, in *Interp, run OpRun, vals []Val) {
	f := run.Out.St.facts
	used := map[int]bool{}
	last := 0
	for _, v := range vals {
		toks, how := bytesDecode(v)
		if len(toks) == 0 {
			continue
		}
		if !r.check(len(toks) == 1, key+"/bytes/mixed", pos, "a byte constant of %s mixes several tokens: %s", fc.Op.Name, v.Key()) {
			continue
		}
		k := 0
		for t := range toks {
			k = t
		}
		r.check(how != "", key+"/bytes/raw", pos, "a byte constant of %s is not a decoded literal: %s", fc.Op.Name, v.Key())
		r.check(decodedOK(f, v) == 1, key+"/bytes/unchecked", pos, "a byte constant of %s is used although its decoding may have failed: %s", fc.Op.Name, v.Key())
		r.check(k > last, key+"/bytes/order", pos, "the byte constants of %s are not in source order", fc.Op.Name)
		last = k
		used[k] = true
		// the notation keyword, if any, is the token before
		if kw := f.eq[fmt.Sprintf("f:v(tok%d)", k-1)]; kw != nil {
			used[k-1] = true
		}
		r.check(notationMatches(f, k, how), key+"/bytes/notation", pos, "a literal of %s is decoded as %s although its notation is another one (%s)", fc.Op.Name, how, strings.Join(f.Dump(), "; "))
	}
	for k := 1; k <= int(run.Consumed); k++ {
		r.check(used[k], key+"/bytes/dropped", pos, "argument %d of %s is consumed but leaves no value", k, fc.Op.Name)
	}
}

// notationMatches: base32 notation is decoded by a base32 decoder, and so on.
func notationMatches(f *Facts, k int, how string) bool {
	tok := fmt.Sprintf("f:v(tok%d)", k)
	note := ""
	pre := func(p string) bool {
		return f.truth["call:strings.HasPrefix("+tok+","+strconv.Quote(p)+")"]
	}
	kw := ""
	if v := f.eq[fmt.Sprintf("f:v(tok%d)", k-1)]; v != nil {
		kw, _ = constStr(v)
	}
	switch {
	case pre("base32(") || pre("b32(") || kw == "base32" || kw == "b32":
		note = "32"
	case pre("base64(") || pre("b64(") || kw == "base64" || kw == "b64":
		note = "64"
	case pre("0x"):
		note = "hex"
	default:
		note = "string"
	}
	h := strings.ToLower(how)
	switch note {
	case "32":
		return strings.Contains(h, "base32")
	case "64":
		return strings.Contains(h, "base64")
	case "hex":
		return strings.Contains(h, "hex")
	}
	return !strings.Contains(h, "base32") && !strings.Contains(h, "base64") && !strings.Contains(h, "hex")
}

// rejectReason names the token a rejecting path knows to be malformed.
func rejectReason(f *Facts, run OpRun, fc formCase) string {
	// a conversion of some token is known to have failed
	var ks []string
	for k, m := range f.neq {
		if _, ok := m["nil"]; ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "ext:") && strings.Contains(k, "f:v(tok") {
			return k
		}
	}
	// a field immediate is unavailable (decided name by name in P04)
	c := int(run.Consumed)
	for i := 0; i < c && i < len(fc.Form.Imms); i++ {
		if g, _ := fieldGroup(fc.Form.Imms[i]); g != "" {
			return "field"
		}
		if fc.Form.Imms[i] == "method" {
			return "quotes"
		}
	}
	return ""
}

// ---------------------------------------------------------------- P07

func checkP07(c *Ctx, r *Report) {
	r.Rule = "For every form of every opcode: the instruction recorded on an accepting path is printed (abstract interpretation of its String method on the same heap) and the printed words are compared with the form: the mnemonic, then one word per argument, word k depending on token k only and written in a notation the parser reads back as the same value (decimal for numbers, the field's own text for fields, the token itself for labels and addresses, parenthesised base64 of the decoded value for byte constants, the quoted and re-escaped text for signatures)."
	r.floor("printed form", 190)
	for _, fc := range c.forms(r) {
		pos := r.fnPos(fc.Reg.Parse)
		key := fmt.Sprintf("%s/%d", fc.Op.Name, fc.N)
		runs, in, err := c.runParse(fc.Reg, fc.N, nil, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		for _, run := range runs {
			if run.Out.Kind != OutReturn || len(run.Ops) != 1 {
				continue
			}
			r.count("printed form")
			wss, fss, msg := c.immWords(run)
			if msg != "" {
				r.bad(key+"/print", pos, "%s: %s", fc.Op.Name, msg)
				continue
			}
			spos := pos
			if iv, ok := run.Ops[0].(*IfaceV); ok {
				spos = r.fnPos(c.P.Prog.LookupMethod(iv.Dyn, nil, "String"))
			}
			for wi, ws := range wss {
				f := fss[wi]
				if len(ws) == 0 {
					r.bad(key+"/words", spos, "%s prints nothing", fc.Op.Name)
					continue
				}
				m, _ := wordStr(ws[0])
				exp := fc.Form.Op
				r.check(m == exp, key+"/mnemonic", spos, "%s prints the mnemonic %q, which is not %q", fc.Op.Name, m, exp)
				if isBytesOp(fc.Op) {
					printedBytes(r, fc, key, spos, in, run, ws[1:])
					continue
				}
				if !r.check(len(ws)-1 == len(fc.Form.Imms), key+"/words", spos, "%s with %d arguments prints %d: %s", fc.Op.Name, len(fc.Form.Imms), len(ws)-1, wordsKey(ws)) {
					continue
				}
				for i, kind := range fc.Form.Imms {
					why := rereads(f, kind, ws[i+1], i+1)
					r.check(why == "", fmt.Sprintf("%s/arg%d", key, i+1), spos, "the printed form of %s does not read back: argument %d is printed as %s (%s)", fc.Op.Name, i+1, keys(ws[i+1]), why)
				}
			}
		}
		r.incompl(in, key, pos)
		for i, kind := range fc.Form.Imms {
			group, need := fieldGroup(kind)
			if group == "" {
				continue
			}
			_, pneed := fieldGroup(kind)
			if po := oracleOps[fc.Form.Op]; po != nil {
				if pf, ok := po.form(len(fc.Form.Imms)); ok {
					_, pneed = fieldGroup(pf.Imms[i])
				}
			}
			for _, f := range oracleFields[group] {
				if need(f) < 0 {
					continue
				}
				r.count("printed field")
				fk := fmt.Sprintf("%s/arg%d/%s", key, i+1, f.Name)
				runs, in, err := c.runParse(fc.Reg, fc.N, allGlobals, func(in *Interp, st *State, cc int) { c.tokenText(in, st, cc, i+1, f.Name) })
				if err != nil {
					r.bad(fk, pos, "%v", err)
					continue
				}
				r.incompl(in, fk, pos)
				for _, run := range runs {
					if run.Out.Kind != OutReturn || len(run.Ops) != 1 {
						continue
					}
					if pneed(f) < 0 {
						r.bad(key+"/context", pos, "%s %s is recorded as %s, which does not take that field: its printed form is refused", fc.Op.Name, f.Name, fc.Form.Op)
						continue
					}
					wss, _, msg := c.immWords(run)
					if msg != "" {
						r.bad(fk, pos, "%s %s: %s", fc.Op.Name, f.Name, msg)
						continue
					}
					for _, ws := range wss {
						got := ""
						if i+1 < len(ws) {
							got, _ = wordStr(ws[i+1])
						}
						r.check(got == f.Name || got == strconv.FormatInt(f.Num, 10), fk, pos, "%s %s is printed with the field %q", fc.Op.Name, f.Name, got)
					}
				}
			}
		}
	}
}

func rereads(f *Facts, kind string, w []Val, k int) string {
	toks := map[int]bool{}
	for _, p := range w {
		for t := range tokensIn(p) {
			toks[t] = true
		}
	}
	if len(toks) != 1 || !toks[k] {
		return "it does not depend on exactly that argument"
	}
	switch kind {
	case "method":
		if len(w) != 3 {
			return "not a quoted signature"
		}
		a, _ := constStr(w[0])
		b, _ := constStr(w[2])
		if a != "\"" || b != "\"" {
			return "not a quoted signature"
		}
		t, ok := w[1].(*Term)
		if !ok || t.Op != "call" || t.Extra != "strings.ReplaceAll" {
			return "inner quotes are not escaped"
		}
		x, _ := constStr(t.Args[1])
		y, _ := constStr(t.Args[2])
		if x != "\"" || y != "\\\"" {
			return "inner quotes are not escaped"
		}
		s, ok := t.Args[0].(*Term)
		if !ok || s.Op != "substr" {
			if tokText(t.Args[0]) == k {
				return "the quotes of the source are printed as part of the signature"
			}
			return "not the text between the quotes"
		}
		return ""
	}
	if len(w) != 1 {
		return "several parts"
	}
	switch kind {
	case "label", "addr":
		if tokText(w[0]) != k {
			return "not the argument's text"
		}
		return ""
	}
	if g, _ := fieldGroup(kind); g != "" {
		return "" // decided name by name
	}
	v, how := unfmt(w[0])
	if how == "" {
		return "not a number or a field"
	}
	switch kind {
	case "u8", "i8", "int":
		if how != "fmt:d" {
			return "not decimal"
		}
		d, ok := decodeNum(f, v)
		if !ok || d.Lossy {
			return "not the converted argument"
		}
	case "constint":
		if how != "fmt:d" {
			return "not decimal"
		}
		if d, ok := decodeNum(f, v); ok && d.Lossy {
			return "not the converted argument"
		}
	}
	return ""
}

// printedBytes: each word is b64(<base64 of the decoded value>), the values in
// the order in which the instruction holds them.
func printedBytes(r *Report, fc formCase, key, pos string, in *Interp, run OpRun, ws [][]Val) {
	var vals []Val
	for _, v := range in.flatten(run.Out.St, run.Ops[0], map[string]bool{}) {
		if len(tokensIn(v)) > 0 {
			vals = append(vals, v)
		}
	}
	if !r.check(len(vals) == len(ws), key+"/bytes/words", pos, "%s holds %d constants and prints %d: %s", fc.Op.Name, len(vals), len(ws), wordsKey(ws)) {
		return
	}
	for i, w := range ws {
		ok := false
		why := keys(w)
		if len(w) == 3 {
			a, _ := constStr(w[0])
			b, _ := constStr(w[2])
			if (a == "b64(" || a == "base64(") && b == ")" {
				if t, isT := w[1].(*Term); isT && t.Op == "call" && strings.HasSuffix(t.Extra, "base64.Encoding).EncodeToString") && len(t.Args) == 2 {
					ok = t.Args[0].Key() == "global:base64.StdEncoding" && t.Args[1].Key() == vals[i].Key()
				}
			}
		}
		if len(w) == 2 {
			a, _ := constStr(w[0])
			if t, isT := w[1].(*Term); isT && a == "0x" && t.Op == "call" && t.Extra == "encoding/hex.EncodeToString" {
				ok = t.Args[0].Key() == vals[i].Key()
			}
		}
		r.check(ok, key+"/bytes/form", pos, "a byte constant of %s is printed in a form that does not read back as the same bytes: %s", fc.Op.Name, why)
	}
}
