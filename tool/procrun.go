package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tok is one token of an abstract source line: fixed or arbitrary text.
type tok struct {
	Text string
	Sym  string // arbitrary text with this name
	Kind string // "", "comment"
}

func tokLine(ws ...string) []tok {
	var out []tok
	for _, w := range ws {
		out = append(out, tok{Text: w})
	}
	return out
}

func (c *Ctx) constOf(name string) (Val, error) {
	o, ok := c.P.pkg("").Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil, fmt.Errorf("constant %s not found", name)
	}
	return &Const{V: o.Val(), T: o.Type()}, nil
}

// tokenVal builds a token; positions are arbitrary, but on the given line.
func (c *Ctx) tokenVal(in *Interp, st *State, t tok, line, k int) (Val, error) {
	tt := c.P.Type("", "Token")
	if tt == nil {
		return nil, fmt.Errorf("token type not found")
	}
	name := fmt.Sprintf("t%d_%d", line, k)
	sv := in.expand(st, &Sym{Name: name, T: tt}).(*StructV)
	kind := "TokenValue"
	switch t.Kind {
	case "comment":
		kind = "TokenComment"
	case "eol":
		kind = "TokenEol"
	}
	kv, err := c.constOf(kind)
	if err != nil {
		return nil, err
	}
	// the field the accessor for the line returns
	li := c.accessorField(tt, "Line")
	if li < 0 {
		return nil, fmt.Errorf("the line of a token is not stored in it")
	}
	ki := c.accessorField(tt, "Type")
	if ki < 0 {
		return nil, fmt.Errorf("the type of a token is not stored in it")
	}
	for i, f := range sv.F {
		switch {
		case i == li:
			sv.F[i] = mkInt(int64(line), typeOf(f))
		case i == ki:
			sv.F[i] = retype(kv, typeOf(f))
		case isStringT(typeOf(f)):
			if t.Sym != "" {
				sv.F[i] = &Sym{Name: t.Sym, T: typeOf(f)}
			} else {
				sv.F[i] = mkStr(t.Text)
			}
		}
	}
	return sv, nil
}

// accessorField finds the field a getter returns.
func (c *Ctx) accessorField(t *types.Named, method string) int {
	m := c.P.Method(t, method)
	if m == nil {
		return -1
	}
	in := c.NewAnalysis(allGlobals)
	st := in.NewState()
	sv := in.expand(st, &Sym{Name: "x", T: t}).(*StructV)
	for _, o := range in.Call(st, m, []Val{sv}, nil, 0) {
		if o.Kind == OutReturn && len(o.Vals) == 1 {
			for i, f := range sv.F {
				if f.Key() == o.Vals[0].Key() {
					return i
				}
			}
		}
	}
	return -1
}

// tokenizers are the functions that turn source text into a token list.
func (c *Ctx) tokenizers() []*ssa.Function {
	tt := c.P.Type("", "Token")
	var out []*ssa.Function
	for _, fn := range c.P.funcs {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() == 0 {
			continue
		}
		p := sig.Params().At(0).Type()
		if !isStringT(p) && !isByteSlice(p) {
			continue
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if sl, ok := sig.Results().At(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tt) {
				out = append(out, fn)
			}
		}
	}
	return out
}

// procOut is one outcome of processing an abstract program.
type procOut struct {
	Out Outcome
	Res *StructV // the ProcessResult
	In  *Interp
}

func (p procOut) field(n string) Val { return structField(p.Res, n) }

func (p procOut) seq(n string) ([]Val, bool) {
	q, ok := p.In.seqOf(p.Out.St, p.field(n))
	if !ok {
		return nil, false
	}
	var out []Val
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			return nil, false
		}
		out = append(out, g.V)
	}
	return out, true
}

// process analyses Process on a program given as token lines; the tokeniser
// is replaced by its result.
func (c *Ctx) process(lines [][]tok, setup func(in *Interp, st *State)) ([]procOut, *Interp, error) {
	fn := c.P.Func("", "Process")
	if fn == nil {
		return nil, nil, fmt.Errorf("Process not found")
	}
	tz := c.tokenizers()
	if len(tz) == 0 {
		return nil, nil, fmt.Errorf("no function from source text to tokens found")
	}
	isTz := map[*ssa.Function]bool{}
	for _, t := range tz {
		isTz[t] = true
	}
	in := c.NewAnalysis(allGlobals)
	st := in.NewState()
	tt := c.P.Type("", "Token")
	q, err := c.tokenSeq(in, st, lines)
	if err != nil {
		return nil, nil, err
	}
	src := &Sym{Name: "source", T: types.Typ[types.String]}
	hooked := false
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		if !isTz[ctx.Fn] {
			return nil, false
		}
		hooked = true
		sig := ctx.Fn.Signature
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			if sl, ok := rt.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tt) {
				vs = append(vs, in.newSlice(ctx.St, q, rt))
			} else {
				vs = append(vs, zeroOf(rt))
			}
		}
		return []Outcome{{St: ctx.St, Kind: OutReturn, Vals: vs}}, true
	}
	if setup != nil {
		setup(in, st)
	}
	outs := in.Call(st, fn, []Val{src}, nil, 0)
	if !hooked {
		return nil, in, fmt.Errorf("Process does not tokenise its source with %s", shortFn(tz[0]))
	}
	var res []procOut
	for _, o := range outs {
		if o.Kind == OutLoop {
			continue
		}
		p := procOut{Out: o, In: in}
		if o.Kind == OutReturn && len(o.Vals) == 1 {
			if ptr, ok := o.Vals[0].(*Ptr); ok {
				p.Res, _ = in.load(o.St, ptr).(*StructV)
			}
		}
		res = append(res, p)
	}
	return res, in, nil
}
