package main

import (
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

type codec interface {
	DecodeString(string) ([]byte, error)
	EncodeToString([]byte) string
}

// codecOf is the encoding a value of the library stands for.
func codecOf(v Val) codec {
	switch x := v.(type) {
	case *Sym:
		switch strings.TrimSuffix(x.Name, ".*") {
		case "global:base32.StdEncoding":
			return base32.StdEncoding
		case "global:base32.HexEncoding":
			return base32.HexEncoding
		case "global:base64.StdEncoding":
			return base64.StdEncoding
		case "global:base64.RawStdEncoding":
			return base64.RawStdEncoding
		case "global:base64.URLEncoding":
			return base64.URLEncoding
		case "global:base64.RawURLEncoding":
			return base64.RawURLEncoding
		}
	case *Term:
		if x.Op == "load" || x.Op == "deref" || x.Op == "*" {
			return codecOf(x.Args[0])
		}
		if x.Op != "call" || len(x.Args) == 0 {
			return nil
		}
		c := codecOf(x.Args[0])
		switch {
		case strings.HasSuffix(x.Extra, ").WithPadding") && len(x.Args) == 2:
			n, ok := constInt(x.Args[1])
			if !ok {
				return nil
			}
			switch e := c.(type) {
			case *base32.Encoding:
				return e.WithPadding(rune(n))
			case *base64.Encoding:
				return e.WithPadding(rune(n))
			}
		case strings.HasSuffix(x.Extra, ").Strict"):
			if e, ok := c.(*base64.Encoding); ok {
				return e.Strict()
			}
		}
	}
	if strings.HasSuffix(v.Key(), ".*") {
		return codecOf(&Sym{Name: v.Key()})
	}
	return nil
}

// codecCall models the decoders and encoders of the library: of known texts by
// their value; of unknown characters, digit by digit, for numbers and hex.
func (in *Interp) codecCall(ctx *CallCtx, name string, args []Val) ([]Outcome, bool) {
	st := ctx.St
	bytesVal := func(s2 *State, bs []byte) Val {
		q := &Seq{T: types.Typ[types.Uint8]}
		for _, b := range bs {
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: mkInt(int64(b), types.Typ[types.Uint8])})
		}
		return in.newSlice(s2, q, ctx.Res.At(0).Type())
	}
	errVal := func(err error) Val {
		if err == nil {
			return &Const{T: ctx.Res.At(1).Type()}
		}
		return &Term{Op: "mkerr", Args: []Val{mkStr(err.Error())}, T: ctx.Res.At(1).Type()}
	}
	known := func(v Val) ([]byte, bool) {
		cs, ok := in.bytesOf(st, v)
		var out []byte
		for _, c := range cs {
			n, is := constInt(c)
			if !is {
				return nil, false
			}
			out = append(out, byte(n))
		}
		return out, ok
	}
	switch name {
	case "(*encoding/base32.Encoding).DecodeString", "(*encoding/base64.Encoding).DecodeString":
		c := codecOf(args[0])
		s, ok := known(args[1])
		if c == nil || !ok {
			return nil, false
		}
		bs, err := c.DecodeString(string(s))
		return []Outcome{{St: st, Kind: OutReturn, Vals: []Val{bytesVal(st, bs), errVal(err)}}}, true
	case "(*encoding/base32.Encoding).EncodeToString", "(*encoding/base64.Encoding).EncodeToString":
		c := codecOf(args[0])
		s, ok := known(args[1])
		if c == nil || !ok {
			return nil, false
		}
		return []Outcome{{St: st, Kind: OutReturn, Vals: []Val{mkStr(c.EncodeToString(s))}}}, true
	case "encoding/hex.EncodeToString":
		s, ok := known(args[0])
		if !ok {
			return nil, false
		}
		return []Outcome{{St: st, Kind: OutReturn, Vals: []Val{mkStr(hex.EncodeToString(s))}}}, true
	}
	base, bits := int64(10), int64(0)
	switch name {
	case "encoding/hex.DecodeString":
		base = 16
	case "strconv.Atoi":
	case "strconv.ParseUint", "strconv.ParseInt":
		var o1, o2 bool
		base, o1 = constInt(args[1])
		bits, o2 = constInt(args[2])
		if !o1 || !o2 || base < 0 || base > 36 {
			return nil, false
		}
	default:
		return nil, false
	}
	if !hasChr(args[0]) {
		return nil, false
	}
	cs, ok := st.facts.chars(args[0])
	if !ok {
		return nil, false
	}
	alpha := ""
	for i := 0; i < 36; i++ {
		d := strconv.FormatInt(int64(i), 36)
		if int64(i) < base || base == 0 && i < 16 {
			alpha += d
			if i > 9 {
				alpha += strings.ToUpper(d)
			}
		}
	}
	if base == 0 {
		alpha += "xXoO_"
	}
	if name == "strconv.ParseInt" || name == "strconv.Atoi" {
		alpha += "+-"
	}
	n := 0
	for _, c := range cs {
		if !isConstV(c) {
			n++
		}
	}
	if n > 3 {
		return nil, false
	}
	var outs []Outcome
	st.facts.split(func(fs *Facts, ask func(cond) bool) {
		s2 := st.clone()
		s2.facts = fs
		var s []byte
		for _, c := range cs {
			if x, ok := constInt(c); ok {
				s = append(s, byte(x))
				continue
			}
			d := byte('!') // a character no number has
			for k := 0; k < len(alpha); k++ {
				if ask(cond{op: "eq", a: chrAs(c, intT), b: mkInt(int64(alpha[k]), intT)}) {
					d = alpha[k]
					break
				}
			}
			s = append(s, d)
		}
		var v Val
		var err error
		switch name {
		case "encoding/hex.DecodeString":
			var bs []byte
			bs, err = hex.DecodeString(string(s))
			v = bytesVal(s2, bs)
		case "strconv.ParseUint":
			var u uint64
			u, err = strconv.ParseUint(string(s), int(base), int(bits))
			v = &Const{V: constant.MakeUint64(u), T: ctx.Res.At(0).Type()}
		default:
			var i int64
			i, err = strconv.ParseInt(string(s), int(base), int(bits))
			v = mkInt(i, ctx.Res.At(0).Type())
		}
		outs = append(outs, Outcome{St: s2, Kind: OutReturn, Vals: []Val{v, errVal(err)}})
	})
	return outs, true
}
