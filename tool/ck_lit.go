package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// litRef is an independent formulation of what an immediate denotes, on
// characters that may be unknown. ok: the line is accepted.
type litWant struct {
	ok    bool
	bytes []string // byte constants, rendered
	text  string   // signature or address
	num   string   // number
}

// stringRef decodes the characters between the quotes of a string literal in
// the source.
func stringRef(cs []Val, ask func(cond) bool) (out []Val, ok bool) {
	is := func(i int, b byte) bool {
		return ask(cond{op: "eq", a: chrAs(cs[i], intT), b: mkInt(int64(b), intT)})
	}
	digit := func(i int) (int64, bool) {
		for k, d := range []byte("0123456789abcdefABCDEF") {
			if is(i, d) {
				if k >= 16 {
					k -= 6
				}
				return int64(k), true
			}
		}
		return 0, false
	}
	for i := 0; i < len(cs); i++ {
		if !is(i, '\\') {
			out = append(out, cs[i])
			continue
		}
		i++
		if i == len(cs) {
			return nil, false
		}
		b := func(n int64) { out = append(out, mkInt(n, types.Typ[types.Byte])) }
		switch {
		case is(i, 'n'):
			b('\n')
		case is(i, 'r'):
			b('\r')
		case is(i, 't'):
			b('\t')
		case is(i, '\\'):
			b('\\')
		case is(i, '"'):
			b('"')
		case is(i, 'x'):
			if i+2 >= len(cs) {
				return nil, false
			}
			h, ok := digit(i + 1)
			if !ok {
				return nil, false
			}
			l, ok := digit(i + 2)
			if !ok {
				return nil, false
			}
			b(h<<4 | l)
			i += 2
		default:
			return nil, false
		}
	}
	return out, true
}

// litLine processes a one-line source text with unknown characters; the
// characters are such that the text is one line of the tokens meant.
func (c *Ctx) litLine(r *Report, key, tmpl string, assume func(cs []Val, f *Facts), judge func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string) {
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("Process", "process.go", "Process not found")
		return
	}
	pos := r.fnPos(fn)
	cs := lexSource(tmpl)
	in := c.NewAnalysis(allGlobals)
	in.Unroll, in.Exact, in.NoSummary, in.MaxVisits = true, true, true, 20*len(cs)+400
	st := in.NewState()
	src, _ := strOf(cs)
	for _, x := range cs {
		if isChr(x) {
			st.facts.assume(cond{op: "le", a: mkInt(0, intT), b: x})
			st.facts.assume(cond{op: "le", a: x, b: mkInt(127, intT)})
		}
	}
	assume(cs, st.facts)
	outs := in.Call(st, fn, []Val{src}, nil, 0)
	r.incompl(in, key, pos)
	r.count("lines")
	why := ""
	n := 0
	for _, o := range outs {
		if o.Kind == OutLoop {
			continue
		}
		text := fmt.Sprintf("%q", o.St.facts.byteText(cs))
		if o.Kind != OutReturn {
			why = text + ": an outcome that is no regular end"
			if o.Kind == OutPanic {
				why = text + ": a crash: " + o.Pan.Key()
			}
			break
		}
		n++
		r.count("paths")
		p := procOut{Out: o, In: in}
		if ptr, ok := o.Vals[0].(*Ptr); ok {
			p.Res, _ = in.load(o.St, ptr).(*StructV)
		}
		ls, ok := p.seq("Listing")
		ds, ok2 := p.seq("Diagnostics")
		if !ok || !ok2 || len(ls) == 0 {
			why = text + ": the listing could not be determined"
			break
		}
		op, _ := ls[len(ls)-1].(*IfaceV)
		errs := 0
		for _, d := range ds {
			iv, ok := d.(*IfaceV)
			if !ok {
				why = text + ": the diagnostics could not be determined"
				continue
			}
			v, _, err := c.callMethod(in, o.St, iv, "Rule")
			if err != nil {
				why = text + ": " + err.Error()
				continue
			}
			if s, _ := constStr(v); s == "PARSE" || s == "SYNTAX" {
				errs++
			}
		}
		if why != "" {
			break
		}
		o.St.facts.split(func(fs *Facts, ask func(cond) bool) {
			if w := judge(fs, ask, cs, errs == 0, op, in, o.St); w != "" && why == "" {
				why = fmt.Sprintf("%q: %s", fs.byteText(cs), w)
			}
		})
		if why != "" {
			break
		}
	}
	if why == "" && n == 0 {
		why = "no outcome"
	}
	r.check(why == "", key, pos, "%s", why)
}

// constBytes are the byte constants an instruction holds, rendered.
func (in *Interp) constBytes(st *State, fs *Facts, v Val) (out []string, ok bool) {
	ok = true
	var walk func(v Val, t types.Type)
	walk = func(v Val, t types.Type) {
		if iv, is := v.(*IfaceV); is {
			walk(iv.V, iv.Dyn)
			return
		}
		switch u := und(t).(type) {
		case *types.Pointer:
			if p, is := v.(*Ptr); is {
				walk(in.load(st, p), u.Elem())
			}
		case *types.Struct:
			if sv, is := v.(*StructV); is {
				for i, f := range sv.F {
					walk(f, u.Field(i).Type())
				}
			}
		case *types.Slice:
			if isByteSlice(t) {
				if isNilConst(v) {
					out = append(out, "")
					return
				}
				q, is := in.seqOf(st, v)
				if !is {
					ok = false
					return
				}
				var cs []Val
				for _, g := range q.Segs {
					if g.Kind != SegElem {
						ok = false
						return
					}
					cs = append(cs, stripConv(g.V))
				}
				out = append(out, fs.byteText(cs))
				return
			}
			if q, is := in.seqOf(st, v); is {
				for _, g := range q.Segs {
					if g.Kind != SegElem {
						ok = false
						return
					}
					walk(g.V, u.Elem())
				}
			}
		}
	}
	walk(v, v.(*IfaceV).Dyn)
	return
}

// numberRef: an integer as the language of the assembler writes it: decimal,
// or with the prefixes 0x, 0b, 0o or 0; single underscores between digits of
// (or after the prefix of) a number with a prefix or of a decimal one.
func numberRef(s string) (uint64, bool) {
	base, i := uint64(10), 0
	l := strings.ToLower(s)
	digit := false // an underscore may follow
	switch {
	case strings.HasPrefix(l, "0x"):
		base, i, digit = 16, 2, true
	case strings.HasPrefix(l, "0b"):
		base, i, digit = 2, 2, true
	case strings.HasPrefix(l, "0o"):
		base, i, digit = 8, 2, true
	case len(l) > 1 && l[0] == '0':
		base, i, digit = 8, 1, true
	}
	if i == len(l) {
		return 0, false
	}
	var n uint64
	for ; i < len(l); i++ {
		c := l[i]
		if c == '_' {
			if !digit || i+1 == len(l) {
				return 0, false
			}
			digit = false
			continue
		}
		d := uint64(99)
		switch {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		}
		if d >= base || n > (1<<64-1-d)/base {
			return 0, false
		}
		n = n*base + d
		digit = true
	}
	return n, true
}

func checkP34(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of the whole of Process on one-line sources whose literals have unknown characters (string literals, hex digits) or every notation with known ones: on every path the recorded instruction holds exactly the bytes, text or number an independent formulation assigns to the literal, whose open cases are split, and the line is refused exactly if the literal is malformed."
	ops := []string{"byte", "pushbytes", "bytecblock", "pushbytess"}
	regs, err := c.opsByName()
	if err != nil {
		r.bad("registry", "process.go", "%v", err)
		return
	}
	noEnd := func(cs []Val, f *Facts) {
		for _, x := range cs {
			if isChr(x) {
				for _, b := range "\n\r" {
					f.assume(cond{op: "eq", a: x, b: mkInt(int64(b), intT), neg: true})
				}
			}
		}
	}
	show := func(in *Interp, st *State, fs *Facts, op *IfaceV, accepted bool) string {
		if !accepted || op == nil {
			return "rejected"
		}
		bs, ok := in.constBytes(st, fs, op)
		if !ok {
			return "bytes that could not be determined"
		}
		return fmt.Sprintf("%q", bs)
	}
	// string literals with unknown characters
	strs := []string{"", "?", "??", "???", "\\x??", "\\x?", "a\\x?", "\\?b", "?\\x4f?", "\\\\?", "\\\"?", "?\\\"", "\\\\\\\"?", "\\x41\\x?1", "a b?c", "//?", "é?", "\\n?\\t", strings.Repeat("ab", 60) + "?\\?"}
	if r.Thorough {
		strs = append(strs, "????", "\\????", "?\\x??")
	}
	for _, name := range ops {
		if _, ok := regs[name]; !ok {
			r.bad("registered/"+name, "process.go", "opcode %q is not registered", name)
			continue
		}
		for i, s := range strs {
			if name != "byte" && i > 6 {
				continue
			}
			tmpl := name + " \"" + s + "\""
			judge := func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				// the literal is what stands between the first quote and the
				// next one without a backslash: other cases are P12's
				body := cs[len(name)+2 : len(cs)-1]
				esc := false
				for _, x := range body {
					if esc {
						esc = false
						continue
					}
					if ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt('"', intT)}) {
						return ""
					}
					esc = ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt('\\', intT)})
				}
				if esc {
					return ""
				}
				out, ok := stringRef(body, ask)
				want := "rejected"
				if ok {
					want = fmt.Sprintf("%q", []string{fs.byteText(out)})
				}
				if got := show(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literal yields %s instead of %s", got, want)
				}
				return ""
			}
			c.litLine(r, name+"/string "+fmt.Sprintf("%.40q", s), tmpl, noEnd, judge)
		}
	}
	// hexadecimal literals
	hexs := []string{"", "?", "??", "ff?0", "0?0", strings.Repeat("aB", 40) + "?1", "??a"}
	for _, name := range ops {
		for i, s := range hexs {
			if name != "byte" && i > 3 {
				continue
			}
			judge := func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				body := cs[len(name)+3:]
				var out []Val
				ok := len(body)%2 == 0
				var hi int64
				for i, x := range body {
					d := int64(-1)
					for k, b := range []byte("0123456789abcdefABCDEF") {
						if d < 0 && ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt(int64(b), intT)}) {
							if k >= 16 {
								k -= 6
							}
							d = int64(k)
						}
					}
					if d < 0 {
						ok = false
						// a space ends the literal: not this one
						if ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt(' ', intT)}) || ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt('\t', intT)}) {
							return ""
						}
						continue
					}
					if i%2 == 1 {
						out = append(out, mkInt(hi<<4|d, types.Typ[types.Byte]))
					}
					hi = d
				}
				want := "rejected"
				if ok {
					want = fmt.Sprintf("%q", []string{fs.byteText(out)})
				}
				if got := show(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literal yields %s instead of %s", got, want)
				}
				return ""
			}
			c.litLine(r, name+"/hex "+fmt.Sprintf("%.40q", s), name+" 0x"+s, noEnd, judge)
		}
	}
	// every notation, known characters
	known := []struct{ lit, want string }{
		{"base64 SGVsbG8=", "Hello"}, {"b64 SGVsbG8=", "Hello"}, {"base64(SGVsbG8=)", "Hello"}, {"b64(SGVsbG8=)", "Hello"},
		{"b64 AAEC/w==", "\x00\x01\x02\xff"}, {"b64 +/+/", "\xfb\xff\xbf"}, {"b64(+/+/)", "\xfb\xff\xbf"}, {"b64()", ""},
		{"b64 SGVsbG8", "!"}, {"b64 SGVsbG9", "!"}, {"b64 -_-_", "!"}, {"b64 S", "!"}, {"b64", "!"}, {"base64(SGVsbG8=", "!"}, {"b64(*)", "!"}, {"b64(SGVsbG8)", "!"}, {"base64(SGVsbG9)", "!"}, {"b64(SGVsbG9=)", "Hello"}, {"b64 SGVsbG9=", "Hello"}, {"b64(SGVsbG8==)", "!"}, {"b64(-_-_)", "!"}, {"b32(jbsq)", "!"}, {"b32(JBSQ==)", "!"}, {"base64 *", "!"},
		{"base32 JBSWY3DP", "Hello"}, {"b32 JBSWY3DP", "Hello"}, {"base32(JBSWY3DP)", "Hello"}, {"b32(JBSWY3DP)", "Hello"},
		{"b32 JBSQ====", "He"}, {"b32 JBSQ", "He"}, {"b32(JBSQ)", "He"}, {"b32(JBSQ====)", "He"}, {"b32 77777777", "\xff\xff\xff\xff\xff"}, {"b32()", ""},
		{"b32 jbswy3dp", "!"}, {"b32 1", "!"}, {"b32", "!"}, {"base32(JBSQ", "!"}, {"base32(JBSWY3D1)", "!"}, {"b32 JBSQ==", "!"},
		{"0x", ""}, {"0x00", "\x00"}, {"0xfF", "\xff"}, {"0X00", "!"}, {"0xg0", "!"}, {"00", "!"}, {"abc", "!"}, {"x", "!"}, {"1", "!"}, {"\"a\"b", "!"}, {"b\"a\"", "!"}, {"Base64 SGVsbG8=", "!"}, {"b16 00", "!"},
		{"\"\"", ""}, {"\"a\"", "a"}, {"\"// no comment\"", "// no comment"}, {"\"a\\\\\"", "a\\"}, {"\"\\\"\"", "\""}, {"\"\\x00\\xff\"", "\x00\xff"}, {"\"\\\\\\\"\\\\\"", "\\\"\\"}, {"\"\\\\n\"", "\\n"}, {"\"\\a\"", "!"}, {"\"\\x1\"", "!"}, {"\"\\xg0\"", "!"},
	}
	for _, name := range ops {
		for _, k := range known {
			want := "rejected"
			if k.want != "!" {
				want = fmt.Sprintf("%q", []string{k.want})
			}
			c.litLine(r, name+"/"+k.lit, name+" "+k.lit, noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				if got := show(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literal yields %s instead of %s", got, want)
				}
				return ""
			})
		}
	}
	for _, name := range ops[2:] {
		for _, k := range []struct {
			lit  string
			want []string
		}{
			{"0x01 0x02", []string{"\x01", "\x02"}}, {"\"a\" 0x02 b64 AA==", []string{"a", "\x02", "\x00"}}, {"b64(AA==) b32 AA \"c d\"", []string{"\x00", "\x00", "c d"}}, {"\"a\" \"\" \"a\"", []string{"a", "", "a"}},
			{"0x01 // 0x02", []string{"\x01"}},
		} {
			want := fmt.Sprintf("%q", k.want)
			c.litLine(r, name+"/"+k.lit, name+" "+k.lit, noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				if got := show(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literals yield %s instead of %s", got, want)
				}
				return ""
			})
		}
	}
	// integers
	number := func(in *Interp, st *State, fs *Facts, op *IfaceV, accepted bool) string {
		if !accepted || op == nil {
			return "rejected"
		}
		var ns []string
		for _, x := range in.flatten(st, op, map[string]bool{}) {
			if t := typeOf(x); t != nil && isInt(t) {
				ns = append(ns, fs.constOf(x).Key())
			}
		}
		return strings.Join(ns, " ")
	}
	names := map[string]uint64{"unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6, "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}
	ints := []string{"0", "1", "7", "255", "256", "65535", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0x0", "0xff", "0XfF", "0xffffffffffffffff", "0x10000000000000000", "0b101", "0o17", "017", "08", "1_000", "_1", "1__0", "-1", "+1", "1.0", "1e3", "0x", "x1", "a", "\"1\"", "Pay", "noop", "NoOps", "appl ", "1 // 2", "Sender", "TMPL_X"}
	for k := range names {
		ints = append(ints, k)
	}
	for _, name := range []string{"int", "pushint", "intcblock", "pushints"} {
		for _, s := range ints {
			t := strings.TrimSpace(strings.Split(s, "//")[0])
			v, ok := numberRef(t)
			if n, is := names[t]; is && name == "int" {
				v, ok = n, true
			}
			want := "rejected"
			if ok {
				want = strconv.FormatUint(v, 10)
			}
			c.litLine(r, name+"/"+s, name+" "+s, noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				if got := number(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literal yields %s instead of %s", got, want)
				}
				return ""
			})
		}
	}
	for _, name := range []string{"int", "pushint", "intcblock"} {
		for _, s := range []string{"?", "??", "0x??", "0?", "1?2", "p?y", "?ppl", "No?p", "1844674407370955161?", "0xfffffffffffffff?f", "0xffffffffffffffff?"} {
			c.litLine(r, name+"/number "+s, name+" "+s, noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
				var b []byte
				for _, x := range cs[len(name)+1:] {
					if n, ok := constInt(fs.constOf(x)); ok {
						b = append(b, byte(n))
						continue
					}
					d := byte('!')
					for _, k := range []byte(" \t0123456789abcdefABCDEFxXoO_ypaNl") {
						if d == '!' && ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt(int64(k), intT)}) {
							d = k
						}
					}
					b = append(b, d)
				}
				if strings.ContainsAny(string(b), " \t") || len(b) > 1 && string(b[:2]) == "//" {
					return ""
				}
				want := "rejected"
				v, ok := numberRef(string(b))
				if n, is := names[string(b)]; is && name == "int" {
					v, ok = n, true
				}
				if ok {
					want = strconv.FormatUint(v, 10)
				}
				if got := number(in, st, fs, op, accepted); got != want {
					return fmt.Sprintf("the literal yields %s instead of %s", got, want)
				}
				return ""
			})
		}
	}
	// method signatures
	for _, s := range []string{"", "?", "a(?)b", "add(uint64,uint64)uint64", "?a"} {
		c.litLine(r, "method/"+s, "method \""+s+"\"", noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
			body := cs[len("method")+2 : len(cs)-1]
			for _, x := range body {
				if ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt('"', intT)}) || ask(cond{op: "eq", a: chrAs(x, intT), b: mkInt('\\', intT)}) {
					return ""
				}
			}
			want := fmt.Sprintf("%q", fs.byteText(body))
			got := "rejected"
			if accepted && op != nil {
				var ns []string
				for _, x := range in.flatten(st, op, map[string]bool{}) {
					if t := typeOf(x); t != nil && isStringT(t) {
						ns = append(ns, fmt.Sprintf("%q", fs.text(x)))
					}
				}
				got = strings.Join(ns, " ")
			}
			if got != want {
				return fmt.Sprintf("the signature is %s instead of %s", got, want)
			}
			return ""
		})
	}
	for _, s := range []string{"a", "a()void", "\"", "'a'", ""} {
		c.litLine(r, "method unquoted/"+s, "method "+s, noEnd, func(fs *Facts, ask func(cond) bool, cs []Val, accepted bool, op *IfaceV, in *Interp, st *State) string {
			if accepted {
				return "the line is accepted without a quoted signature"
			}
			return ""
		})
	}
	r.floor("lines", 400)
	r.floor("paths", 1000)
}
