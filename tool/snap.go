package main

import (
	"fmt"
	"go/types"
	"strings"
)

// InitSnapshot evaluates the package initialisers of the root package (and the
// repo packages it imports) by constant propagation; the result is the value
// of every package-level table as the source defines it.
func InitSnapshot(p *Prog, sub string) (*Interp, *State, error) {
	in := NewInterp(p)
	in.initMode = true
	st := in.NewState()
	pk := p.pkg(sub)
	if pk == nil {
		return nil, nil, fmt.Errorf("package %q not found", sub)
	}
	outs := in.Call(st, pk.Func("init"), nil, nil, 0)
	var rets []*State
	for _, o := range outs {
		if o.Kind == OutReturn {
			rets = append(rets, o.St)
		}
	}
	if len(in.Incompl) > 0 {
		return nil, nil, fmt.Errorf("initialisers not fully evaluated: %s", strings.Join(in.Incompl, "; "))
	}
	if len(rets) != 1 {
		return nil, nil, fmt.Errorf("initialisers have %d outcomes", len(rets))
	}
	// the servers' own package-level values; what is not constant stays unknown
	res := rets[0]
	for _, o := range []string{"lsp", "dbg"} {
		pk := p.pkg(o)
		if sub != "" || pk == nil || pk.Func("init") == nil {
			continue
		}
		i2 := NewInterp(p)
		i2.initMode = true
		i2.nextCell, i2.nextSym = in.nextCell, in.nextSym
		var one []*State
		for _, q := range i2.Call(res.clone(), pk.Func("init"), nil, nil, 0) {
			if q.Kind == OutReturn {
				one = append(one, q.St)
			}
		}
		if len(one) == 1 && len(i2.Incompl) == 0 {
			res, in = one[0], i2
		}
	}
	return in, res, nil
}

// Global returns the initial value of a package-level variable.
func (c *Ctx) Global(sub, name string) Val {
	pk := c.P.pkg(sub)
	if pk == nil {
		return nil
	}
	g := pk.Var(name)
	if g == nil {
		return nil
	}
	cell, ok := c.Snap.syms["g:"+g.String()]
	if !ok {
		return nil
	}
	return c.Snap.get(cell)
}

func structField(v Val, name string) Val {
	s, ok := v.(*StructV)
	if !ok {
		return nil
	}
	u := s.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

func (c *Ctx) deref(v Val) Val {
	if p, ok := v.(*Ptr); ok {
		return c.SnapIn.load(c.Snap, p)
	}
	return v
}

// elems returns the elements of a known slice or array.
func (c *Ctx) elems(v Val) ([]Val, bool) {
	if q, ok := v.(*Seq); ok {
		var out []Val
		for _, g := range q.Segs {
			if g.Kind != SegElem {
				return nil, false
			}
			out = append(out, g.V)
		}
		return out, true
	}
	if isNilConst(v) {
		return nil, true
	}
	q, ok := c.SnapIn.seqOf(c.Snap, v)
	if !ok {
		return nil, false
	}
	return c.elems(q)
}

func (c *Ctx) mapEntries(v Val) (ks []Val, vs []Val, ok bool) {
	r, ok := v.(*MapRef)
	if !ok {
		return nil, nil, false
	}
	mc, ok := c.Snap.get(r.Cell).(*MapC)
	if !ok || mc.Base != nil {
		return nil, nil, false
	}
	for _, k := range mc.Keys {
		if mc.M[k.Key()] != nil {
			ks = append(ks, k)
			vs = append(vs, mc.M[k.Key()])
		}
	}
	return ks, vs, true
}
