package main

import (
	"go/types"
	"strings"
	"unicode/utf8"
)

// A string of known length with unknown (ASCII) characters is a concatenation
// of constants and "chr" terms, one per unknown character. The bytes of such a
// string are constants and symbols whose names start with "?c".

func isChr(v Val) bool {
	s, ok := v.(*Sym)
	return ok && strings.HasPrefix(s.Name, "?c")
}

func chrSym(name string) Val { return &Sym{Name: "?c" + name, T: types.Typ[types.Byte]} }

func chrAs(v Val, t types.Type) Val {
	if s, ok := v.(*Sym); ok {
		return &Sym{Name: s.Name, T: t}
	}
	if n, ok := constInt(v); ok {
		return mkInt(n, t)
	}
	return v
}

// strOf is the string with the given bytes.
func strOf(cs []Val) (Val, bool) {
	var ps []Val
	for _, c := range cs {
		if n, ok := constInt(c); ok {
			ps = append(ps, mkStr(string([]byte{byte(n)})))
		} else if isChr(c) {
			ps = append(ps, &Term{Op: "chr", Args: []Val{chrAs(c, types.Typ[types.Byte])}, T: types.Typ[types.String]})
		} else {
			return nil, false
		}
	}
	return strCat(ps...), true
}

// hasChr reports whether a string has unknown characters.
func hasChr(v Val) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	if t.Op == "chr" {
		return true
	}
	if t.Op == "cat" {
		for _, p := range t.Args {
			if hasChr(p) {
				return true
			}
		}
	}
	return false
}

// chars are the bytes of a string of known length; what the facts pin is
// constant.
func (f *Facts) chars(v Val) ([]Val, bool) {
	v = f.constOf(v)
	if s, ok := constStr(v); ok {
		var cs []Val
		for i := 0; i < len(s); i++ {
			cs = append(cs, mkInt(int64(s[i]), types.Typ[types.Byte]))
		}
		return cs, true
	}
	t, ok := v.(*Term)
	if !ok {
		return nil, false
	}
	switch t.Op {
	case "chr":
		c := f.constOf(t.Args[0])
		if n, ok := constInt(c); ok {
			c = mkInt(n, types.Typ[types.Byte])
		}
		return []Val{c}, true
	case "cat":
		var cs []Val
		for _, p := range t.Args {
			x, ok := f.chars(p)
			if !ok {
				return nil, false
			}
			cs = append(cs, x...)
		}
		return cs, true
	}
	return nil, false
}

// text renders a string of known length, unknown characters as {name}.
func (f *Facts) text(v Val) string {
	cs, ok := f.chars(v)
	if !ok {
		return "not known: " + v.Key()
	}
	return f.byteText(cs)
}

func (f *Facts) byteText(cs []Val) string {
	var sb strings.Builder
	for _, c := range cs {
		if n, ok := constInt(f.constOf(c)); ok {
			sb.WriteByte(byte(n))
		} else {
			sb.WriteString("{" + c.Key() + "}")
		}
	}
	return sb.String()
}

// eqStr decides the equality of strings of known length: 1, 0, or -1 with the
// pairs that are open.
func (f *Facts) eqStr(a, b Val) (int, [][2]Val) {
	x, ok1 := f.chars(a)
	y, ok2 := f.chars(b)
	if !ok1 || !ok2 {
		return -1, nil
	}
	if len(x) != len(y) {
		return 0, nil
	}
	var open [][2]Val
	for i := range x {
		switch f.decide(cond{op: "eq", a: x[i], b: y[i]}) {
		case 0:
			return 0, nil
		case -1:
			open = append(open, [2]Val{x[i], y[i]})
		}
	}
	if len(open) == 0 {
		return 1, nil
	}
	return -1, open
}

// bytesOf are the bytes of a string or byte slice of known length.
func (in *Interp) bytesOf(st *State, v Val) ([]Val, bool) {
	if t := typeOf(v); t != nil && isStringT(t) {
		return st.facts.chars(v)
	}
	if q, ok := in.seqOf(st, v); ok {
		var cs []Val
		for _, g := range q.Segs {
			if g.Kind != SegElem {
				return nil, false
			}
			c := st.facts.constOf(g.V)
			if n, ok := constInt(c); ok {
				c = mkInt(n, types.Typ[types.Byte])
			} else if !isChr(c) {
				return nil, false
			}
			cs = append(cs, c)
		}
		return cs, true
	}
	return nil, false
}

// charCall models library functions on strings and byte slices of known length
// with unknown characters: what they depend on is decided case by case.
func (in *Interp) charCall(ctx *CallCtx, name string, args []Val) ([]Outcome, bool) {
	st := ctx.St
	pkg, fn := "", name
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, fn = name[:i], name[i+1:]
	}
	switch pkg {
	case "strings", "bytes", "unicode/utf8", "unicode":
	default:
		return nil, false
	}
	unknown := false
	bs := make([][]Val, len(args))
	for i, a := range args {
		if isChr(a) && !isConstV(st.facts.constOf(a)) {
			unknown = true
		}
		t := typeOf(a)
		if t == nil || !isStringT(t) && !isByteSlice(t) {
			continue
		}
		b, ok := in.bytesOf(st, a)
		if !ok {
			return nil, false
		}
		bs[i] = b
		for _, c := range b {
			if !isConstV(c) {
				unknown = true
			}
		}
	}
	if !unknown && name != "unicode/utf8.DecodeRune" {
		return nil, false
	}
	res := func(i int) types.Type { return ctx.Res.At(i).Type() }
	// str makes a result of the type of the first argument
	str := func(s2 *State, cs []Val) Val {
		if isStringT(res(0)) {
			v, _ := strOf(cs)
			return v
		}
		q := &Seq{T: types.Typ[types.Byte]}
		for _, c := range cs {
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: c})
		}
		return in.newSlice(s2, q, res(0))
	}
	type asker func(cond) bool
	is := func(ask asker, c Val, b Val) bool { return ask(cond{op: "eq", a: chrAs(c, intT), b: chrAs(b, intT)}) }
	at := func(ask asker, s, p []Val, i int) bool {
		if i < 0 || i+len(p) > len(s) {
			return false
		}
		for k := range p {
			if !is(ask, s[i+k], p[k]) {
				return false
			}
		}
		return true
	}
	index := func(ask asker, s, p []Val) int {
		for i := 0; i+len(p) <= len(s); i++ {
			if at(ask, s, p, i) {
				return i
			}
		}
		return -1
	}
	any := func(ask asker, c Val, set []Val) bool {
		for _, x := range set {
			if is(ask, c, x) {
				return true
			}
		}
		return false
	}
	lit := func(s string) (cs []Val) {
		for i := 0; i < len(s); i++ {
			cs = append(cs, mkInt(int64(s[i]), types.Typ[types.Byte]))
		}
		return
	}
	space := lit(" \t\n\v\f\r")
	one := func(v Val) []Val {
		if n, ok := constInt(v); ok && n >= 0x80 {
			return lit(string(rune(n)))
		}
		return []Val{v}
	}
	between := func(ask asker, c Val, lo, hi int64) bool {
		c = chrAs(c, intT)
		return ask(cond{op: "le", a: mkInt(lo, intT), b: c}) && ask(cond{op: "le", a: c, b: mkInt(hi, intT)})
	}
	trim := func(ask asker, s, set []Val, left, right bool) []Val {
		for left && len(s) > 0 && any(ask, s[0], set) {
			s = s[1:]
		}
		for right && len(s) > 0 && any(ask, s[len(s)-1], set) {
			s = s[:len(s)-1]
		}
		return s
	}
	var f func(s2 *State, ask asker) []Val
	n := func(i int) Val { return mkInt(int64(i), intT) }
	switch fn {
	case "DecodeRune", "DecodeRuneInString":
		f = func(s2 *State, ask asker) []Val {
			s := bs[0]
			if len(s) == 0 {
				return []Val{mkInt(utf8.RuneError, types.Typ[types.Rune]), n(0)}
			}
			if isChr(s[0]) {
				return []Val{chrAs(s[0], types.Typ[types.Rune]), n(1)}
			}
			var buf []byte
			for _, c := range s {
				x, ok := constInt(c)
				if !ok || len(buf) >= 4 {
					break
				}
				buf = append(buf, byte(x))
			}
			r, k := utf8.DecodeRune(buf)
			return []Val{mkInt(int64(r), types.Typ[types.Rune]), n(k)}
		}
	case "DecodeLastRune", "DecodeLastRuneInString":
		f = func(s2 *State, ask asker) []Val {
			s := bs[0]
			if isChr(s[len(s)-1]) {
				return []Val{chrAs(s[len(s)-1], types.Typ[types.Rune]), n(1)}
			}
			x, ok := constInt(s[len(s)-1])
			if !ok || x >= 0x80 {
				return nil
			}
			return []Val{mkInt(x, types.Typ[types.Rune]), n(1)}
		}
	case "RuneLen":
		f = func(s2 *State, ask asker) []Val { return []Val{n(1)} }
	case "RuneCount", "RuneCountInString":
		f = func(s2 *State, ask asker) []Val {
			k := 0
			for _, c := range bs[0] {
				if x, ok := constInt(c); !ok || x&0xc0 != 0x80 {
					k++
				}
			}
			return []Val{n(k)}
		}
	case "Valid", "ValidString", "ValidRune":
		f = func(s2 *State, ask asker) []Val {
			for _, c := range bs[0] {
				if x, ok := constInt(c); ok && x >= 0x80 {
					return nil
				}
			}
			return []Val{mkBool(true)}
		}
	case "Equal":
		f = func(s2 *State, ask asker) []Val {
			return []Val{mkBool(len(bs[0]) == len(bs[1]) && at(ask, bs[0], bs[1], 0))}
		}
	case "HasPrefix":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(at(ask, bs[0], bs[1], 0))} }
	case "HasSuffix":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(at(ask, bs[0], bs[1], len(bs[0])-len(bs[1])))} }
	case "Contains":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(index(ask, bs[0], bs[1]) >= 0)} }
	case "Index":
		f = func(s2 *State, ask asker) []Val { return []Val{n(index(ask, bs[0], bs[1]))} }
	case "IndexByte", "IndexRune", "ContainsRune":
		f = func(s2 *State, ask asker) []Val {
			i := index(ask, bs[0], one(args[1]))
			if fn == "ContainsRune" {
				return []Val{mkBool(i >= 0)}
			}
			return []Val{n(i)}
		}
	case "LastIndex", "LastIndexByte":
		f = func(s2 *State, ask asker) []Val {
			p := bs[1]
			if fn == "LastIndexByte" {
				p = one(args[1])
			}
			for i := len(bs[0]) - len(p); i >= 0; i-- {
				if at(ask, bs[0], p, i) {
					return []Val{n(i)}
				}
			}
			return []Val{n(-1)}
		}
	case "IndexAny", "ContainsAny":
		f = func(s2 *State, ask asker) []Val {
			k := -1
			for i, c := range bs[0] {
				if any(ask, c, bs[1]) {
					k = i
					break
				}
			}
			if fn == "ContainsAny" {
				return []Val{mkBool(k >= 0)}
			}
			return []Val{n(k)}
		}
	case "Count":
		f = func(s2 *State, ask asker) []Val {
			if len(bs[1]) == 0 {
				return nil
			}
			k := 0
			for i := 0; i < len(bs[0]); {
				if at(ask, bs[0], bs[1], i) {
					k++
					i += len(bs[1])
				} else {
					i++
				}
			}
			return []Val{n(k)}
		}
	case "ReplaceAll", "Replace":
		f = func(s2 *State, ask asker) []Val {
			if len(bs[1]) == 0 {
				return nil
			}
			max := int64(-1)
			if fn == "Replace" {
				x, ok := constInt(args[3])
				if !ok {
					return nil
				}
				max = x
			}
			var out []Val
			s := bs[0]
			for i := 0; i < len(s); {
				if max != 0 && at(ask, s, bs[1], i) {
					out = append(out, bs[2]...)
					i += len(bs[1])
					max--
				} else {
					out = append(out, s[i])
					i++
				}
			}
			return []Val{str(s2, out)}
		}
	case "TrimSpace":
		f = func(s2 *State, ask asker) []Val { return []Val{str(s2, trim(ask, bs[0], space, true, true))} }
	case "Trim":
		f = func(s2 *State, ask asker) []Val { return []Val{str(s2, trim(ask, bs[0], bs[1], true, true))} }
	case "TrimLeft":
		f = func(s2 *State, ask asker) []Val { return []Val{str(s2, trim(ask, bs[0], bs[1], true, false))} }
	case "TrimRight":
		f = func(s2 *State, ask asker) []Val { return []Val{str(s2, trim(ask, bs[0], bs[1], false, true))} }
	case "TrimPrefix":
		f = func(s2 *State, ask asker) []Val {
			s := bs[0]
			if at(ask, s, bs[1], 0) {
				s = s[len(bs[1]):]
			}
			return []Val{str(s2, s)}
		}
	case "TrimSuffix":
		f = func(s2 *State, ask asker) []Val {
			s := bs[0]
			if at(ask, s, bs[1], len(s)-len(bs[1])) {
				s = s[:len(s)-len(bs[1])]
			}
			return []Val{str(s2, s)}
		}
	case "IsSpace":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(any(ask, args[0], space))} }
	case "IsDigit", "IsNumber":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(between(ask, args[0], '0', '9'))} }
	case "IsLetter":
		f = func(s2 *State, ask asker) []Val {
			return []Val{mkBool(between(ask, args[0], 'a', 'z') || between(ask, args[0], 'A', 'Z'))}
		}
	case "IsPrint":
		f = func(s2 *State, ask asker) []Val { return []Val{mkBool(between(ask, args[0], ' ', '~'))} }
	case "IsControl":
		f = func(s2 *State, ask asker) []Val {
			return []Val{mkBool(!between(ask, args[0], ' ', '~'))}
		}
	default:
		return nil, false
	}
	var outs []Outcome
	good := true
	st.facts.split(func(fs *Facts, ask func(cond) bool) {
		s2 := st.clone()
		s2.facts = fs
		vs := f(s2, ask)
		if vs == nil {
			good = false
			return
		}
		outs = append(outs, Outcome{St: s2, Kind: OutReturn, Vals: vs})
	})
	return outs, good
}
