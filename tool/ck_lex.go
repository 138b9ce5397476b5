package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lexTok is a token of the reference.
type lexTok struct {
	kind string // word, string, comment, eol
	line int
	b, e int
	text []Val
}

// lexRef is an independent formulation of tokenisation, on characters that may
// be unknown: what it needs to know is asked for.
func lexRef(cs []Val, ask func(cond) bool) (ts []lexTok, errs []lexTok) {
	is := func(i int, b byte) bool {
		return i < len(cs) && ask(cond{op: "eq", a: chrAs(cs[i], intT), b: mkInt(int64(b), intT)})
	}
	line, lb := 0, 0
	for i := 0; i < len(cs); {
		b := i
		add := func(kind string, text []Val) { ts = append(ts, lexTok{kind, line, b - lb, i - lb, text}) }
		switch {
		case is(i, ' ') || is(i, '\t'):
			i++
		case is(i, '\n'):
			i++
			add("eol", cs[b:i])
			line, lb = line+1, i
		case is(i, '\r'):
			i++
			if is(i, '\n') {
				i++
			}
			add("eol", cs[b:i])
			line, lb = line+1, i
		case is(i, '/') && is(i+1, '/'):
			i += 2
			for i < len(cs) && !is(i, '\n') && !is(i, '\r') {
				i++
			}
			add("comment", cs[b+2:i])
		case is(i, '"'):
			i++
			text := []Val{cs[b]}
			done := false
			for i < len(cs) && !done {
				switch {
				case is(i, '"'):
					text = append(text, cs[i])
					i++
					done = true
					add("string", text)
				case is(i, '\\') && i+1 < len(cs) && !is(i+1, '\n') && !is(i+1, '\r'):
					// an escaped quotation mark loses its backslash
					if !is(i+1, '"') {
						text = append(text, cs[i])
					}
					text = append(text, cs[i+1])
					i += 2
				case is(i, '\n') || is(i, '\r'):
					done = true
					add("open string", nil)
					errs = append(errs, ts[len(ts)-1])
				default:
					text = append(text, cs[i])
					i++
				}
			}
			if !done {
				errs = append(errs, lexTok{"", line, b - lb, i - lb, nil})
			}
		default:
			for i < len(cs) && !is(i, ' ') && !is(i, '\t') && !is(i, '\n') && !is(i, '\r') {
				i++
			}
			add("word", cs[b:i])
		}
	}
	return
}

// lexSource is a source text: known parts and unknown characters (?).
func lexSource(tmpl string) []Val {
	var cs []Val
	n := 0
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '?' {
			cs = append(cs, chrSym(fmt.Sprint(n)))
			n++
		} else {
			cs = append(cs, mkInt(int64(tmpl[i]), types.Typ[types.Byte]))
		}
	}
	return cs
}

func checkP12(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of the functions from source text to tokens on every text of up to 5 characters (thorough: 6), each of them unknown, and on known texts with unknown characters at the places that matter: every path, whose facts say of every character what the code compared it with, ends normally and yields exactly the tokens (kind, text, line, begin, end) and syntax errors (line) of an independent formulation, whose open cases are split until the path's facts decide them."
	tz := c.tokenizers()
	if len(tz) == 0 {
		r.bad("tokenizer", "lexer.go", "no function from source text to tokens found")
		return
	}
	max := 5
	if r.Thorough {
		max = 6
	}
	var tmpl []string
	for n := 0; n <= max; n++ {
		tmpl = append(tmpl, strings.Repeat("?", n))
	}
	tmpl = append(tmpl,
		"a ??", "a?b", "?a?", "a:?", "// ??", "//a?b", "a//?", "/?/", "a /??",
		"\"??\"", "\"a?b\"?", "\"\\??\"", "\"\\\\?\"?", "\"?\\\"?", "\"??", "a \"?\" b", "\"?\n?", "\"?\r\n?", "\"//?\"?", "\"? \"?",
		"a?\"b\"", "\"a\"?b", "\"a\"\"?", "\"\"?",
		"a\n?\nb?", "a\r?b", "a\r\n?b ?", "\n\n?a", "\r\r?a", "\r\n\r\n?", "a?\n  b?c", "?\n\t?", "a\n//?\n?",
		"byte \"a b\\n?\" // c?", "int 1 ?// x", "label: ?", "byte b64 ??", "a\tb?c\td", "  ?  a  ?", "#pragma version ?",
		"é ?", "é\n?é", "\"é?\"", "//é?", "aé?b",
		"int 1\nint 2\nint 3\nint 4\nint 5\nint 6\nint 7\nint 8\nint 9\nint 10\nbyte \"a\" // ?\n?",
		strings.Repeat("x", 300)+"?"+strings.Repeat("y", 10)+" ?",
		strings.Repeat("a ", 40)+"?\n"+strings.Repeat("b\n", 40)+" ?c",
		"\""+strings.Repeat("s", 300)+"?\" ?", "a\n"+strings.Repeat("b ", 150)+"\"?")
	for _, fn := range tz {
		for _, t := range tmpl {
			c.lexText(r, fn, t)
		}
	}
	r.floor("texts", 40)
	r.floor("paths", 2000)
}

func (c *Ctx) lexText(r *Report, fn *ssa.Function, tmpl string) {
	key := shortFn(fn) + " " + fmt.Sprintf("%.60q", tmpl)
	pos := r.fnPos(fn)
	cs := lexSource(tmpl)
	in := c.NewAnalysis(allGlobals)
	in.Unroll, in.Exact, in.MaxVisits = true, true, 4*len(cs)+40 // a tokeniser goes round once per character or token
	st := in.NewState()
	src, _ := strOf(cs)
	if isByteSlice(fn.Signature.Params().At(0).Type()) {
		src = in.convert(st, src, types.Typ[types.String], fn.Signature.Params().At(0).Type())
	}
	for _, x := range cs {
		if isChr(x) {
			st.facts.assume(cond{op: "le", a: mkInt(0, intT), b: x})
			st.facts.assume(cond{op: "le", a: x, b: mkInt(127, intT)})
		}
	}
	outs := in.Call(st, fn, []Val{src}, nil, 0)
	r.incompl(in, key, pos)
	r.count("texts")
	why := ""
	n := 0
	tt := c.P.Type("", "Token")
	for _, o := range outs {
		if o.Kind != OutReturn {
			why = fmt.Sprintf("an outcome that is no regular end (%v)", o.Kind)
			if o.Kind == OutPanic {
				why = "a crash: " + o.Pan.Key()
			}
			continue
		}
		n++
		r.count("paths")
		var toks, diags []Val
		for i, v := range o.Vals {
			sl, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			q, ok := in.seqOf(o.St, v)
			if !ok {
				why = "the result could not be determined"
				continue
			}
			for _, g := range q.Segs {
				if g.Kind != SegElem {
					why = "the result could not be determined"
				}
				if types.Identical(sl.Elem(), tt) {
					toks = append(toks, g.V)
				} else {
					diags = append(diags, g.V)
				}
			}
		}
		if why != "" {
			break
		}
		get := func(v Val, m string) Val {
			if iv, ok := v.(*IfaceV); ok {
				x, _, err := c.callMethod(in, o.St, iv, m)
				if err != nil {
					why = err.Error()
					return mkInt(-1, nil)
				}
				return x
			}
			x, _, err := c.callMethod(in, o.St, &IfaceV{Dyn: tt, V: v}, m)
			if err != nil {
				why = err.Error()
				return mkInt(-1, nil)
			}
			return x
		}
		o.St.facts.split(func(fs *Facts, ask func(cond) bool) {
			ts, errs := lexRef(cs, ask)
			var got, want, ge, we []string
			for _, t := range ts {
				kind := map[string]string{"word": "Value", "string": "Value", "open string": "Value", "comment": "Comment", "eol": "EOL"}[t.kind]
				s := fs.byteText(t.text)
				if t.kind == "open string" {
					s = "" // its text does not matter
				}
				want = append(want, fmt.Sprintf("%s %q %d:%d-%d", kind, s, t.line, t.b, t.e))
			}
			for i, t := range toks {
				s := fs.text(get(t, "String"))
				if i < len(ts) && ts[i].kind == "open string" {
					s = ""
				}
				k, _ := constStr(get(t, "Type"))
				l, b, e := get(t, "Line").Key(), get(t, "Begin").Key(), get(t, "End").Key()
				if get(t, "StartLine").Key() != l || get(t, "EndLine").Key() != l || get(t, "StartCharacter").Key() != b || get(t, "EndCharacter").Key() != e {
					why = "the position of a token is inconsistent"
				}
				got = append(got, fmt.Sprintf("%s %q %s:%s-%s", k, s, l, b, e))
			}
			for _, l := range errs {
				we = append(we, fmt.Sprint(l.line, " 1"))
			}
			for i, d := range diags {
				ge = append(ge, get(d, "Line").Key()+" "+get(d, "Severity").Key())
				b, ok := constInt(get(d, "Begin"))
				e, ok2 := constInt(get(d, "End"))
				if i < len(errs) && (!ok || !ok2 || b > e || b < int64(errs[i].b) || e > int64(errs[i].e)) {
					why = fmt.Sprintf("%q: the error of the open string at %d:%d-%d is placed at %s-%s", fs.byteText(cs), errs[i].line, errs[i].b, errs[i].e, get(d, "Begin").Key(), get(d, "End").Key())
				}
			}
			text := fmt.Sprintf("%q", fs.byteText(cs))
			if strings.Join(got, ", ") != strings.Join(want, ", ") {
				why = fmt.Sprintf("%s: the tokens are [%s] instead of [%s]", text, strings.Join(got, ", "), strings.Join(want, ", "))
			} else if strings.Join(ge, ",") != strings.Join(we, ",") {
				why = fmt.Sprintf("%s: the syntax errors are on lines %v instead of %v", text, ge, we)
			}
		})
		if why != "" {
			break
		}
	}
	if why == "" && n == 0 {
		why = "no outcome"
	}
	r.check(why == "", key, pos, "%s", why)
}
