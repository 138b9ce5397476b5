package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// OpReg is one registered opcode: mnemonic, parse function, documented data.
type OpReg struct {
	Name  string
	Parse *ssa.Function
	Bind  []Val // captured variables, if the parser is a closure
	Item  Val   // opItem struct value
}

// Registry returns the opcodes registered by the package initialisers.
func (c *Ctx) Registry() ([]OpReg, error) {
	ops := c.deref(c.Global("", "Ops"))
	ks, vs, ok := c.mapEntries(structField(ops, "Items"))
	if !ok {
		return nil, fmt.Errorf("the opcode table (Ops.Items) could not be evaluated")
	}
	var out []OpReg
	for i, k := range ks {
		n, _ := constStr(k)
		f, ok := structField(vs[i], "Parse").(*FuncV)
		if !ok {
			return nil, fmt.Errorf("opcode %q has no parse function", n)
		}
		out = append(out, OpReg{Name: n, Parse: f.Fn, Bind: f.Bind, Item: vs[i]})
	}
	return out, nil
}

// NewAnalysis returns an interpreter that sees the initialiser snapshot for
// the globals selected by useSnap and opaque values for all others.
func (c *Ctx) NewAnalysis(useSnap func(g *ssa.Global) bool) *Interp {
	in := NewInterp(c.P)
	in.Snapshot = c.Snap
	in.nextCell = c.SnapIn.nextCell
	in.nextSym = c.SnapIn.nextSym
	in.UseSnap = useSnap
	for k, v := range c.SnapIn.ptrNames {
		in.ptrNames[k] = v
	}
	return in
}

func ptrOrIfaceGlobal(g *ssa.Global) bool {
	switch und(g.Type().(*types.Pointer).Elem()).(type) {
	case *types.Pointer, *types.Interface:
		return true
	case *types.Basic:
		return true
	}
	return false
}

// fieldIdx finds a struct field index by name.
func fieldIdx(t types.Type, name string) int {
	u, ok := und(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// parserState builds the abstract state in which a parse function runs: the
// line holds the mnemonic (already consumed) and n further, arbitrary tokens.
func (c *Ctx) parserState(in *Interp, n int) (*State, Val, int, error) {
	pc, at, err := c.parserTypes()
	if err != nil {
		return nil, nil, 0, err
	}
	st := in.NewState()
	args := in.expand(st, &Sym{Name: "args", T: at}).(*StructV)
	u := at.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isInt(ft) {
			args.F[i] = mkInt(1, ft)
		} else if et := elemType(ft); et != nil {
			q := &Seq{T: et}
			for k := 0; k <= n; k++ {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: in.expand(st, &Sym{Name: fmt.Sprintf("tok%d", k), T: et})})
			}
			args.F[i] = in.newSlice(st, q, ft)
		}
	}
	ctx := in.expand(st, &Sym{Name: "ctx", T: pc}).(*StructV)
	ai := ctxFieldIdx(c, pc, "args")
	if ai < 0 {
		return nil, nil, 0, fmt.Errorf("no cursor over the tokens of a line in the parser context")
	}
	if _, ok := pc.Underlying().(*types.Struct).Field(ai).Type().Underlying().(*types.Pointer); ok {
		ctx.F[ai] = &Ptr{Cell: in.alloc(st, args), T: types.NewPointer(at)}
	} else {
		ctx.F[ai] = args
	}
	cc := in.alloc(st, ctx)
	ptr := &Ptr{Cell: cc, T: types.NewPointer(pc)}
	if c.ctxIface {
		return st, &IfaceV{Dyn: types.NewPointer(pc), V: ptr}, cc, nil
	}
	return st, ptr, cc, nil
}

// parserTypes finds the type of the state the opcode parsers work on (the
// type of, or the only implementation of, their parameter) and the type of its
// cursor over the tokens of the line.
func (c *Ctx) parserTypes() (pc, at *types.Named, err error) {
	if c.ctxT == nil {
		reg, err := c.Registry()
		if err != nil {
			return nil, nil, err
		}
		if len(reg) == 0 || reg[0].Parse.Signature.Params().Len() != 1 {
			return nil, nil, fmt.Errorf("parse functions do not have one parameter")
		}
		t := reg[0].Parse.Signature.Params().At(0).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			c.ctxT, _ = pt.Elem().(*types.Named)
		} else if it, ok := t.Underlying().(*types.Interface); ok {
			c.ctxIface = true
			sc := c.P.pkg("").Pkg.Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				n, ok := tn.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 || types.IsInterface(n) {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(n), it) {
					// the one that carries the instruction list
					if ctxFieldIdx(c, n, "ops") >= 0 && (c.ctxT == nil || n.Obj().Name() == "parserContext") {
						c.ctxT = n
					}
				}
			}
		}
	}
	if c.ctxT == nil {
		return nil, nil, fmt.Errorf("parser context type not found")
	}
	i := ctxFieldIdx(c, c.ctxT, "args")
	if i < 0 {
		return nil, nil, fmt.Errorf("no cursor over the tokens of a line in the parser context")
	}
	return c.ctxT, cursorType(c.ctxT.Underlying().(*types.Struct).Field(i).Type()), nil
}

// cursorType is the struct behind t if it holds a list of tokens and an index.
func cursorType(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	toks, ints := 0, 0
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isInt(ft) {
			ints++
		} else if et := elemType(ft); et != nil && typeName(et) == "Token" {
			toks++
		}
	}
	if toks == 1 && ints == 1 {
		return n
	}
	return nil
}

// lineCursor is the cursor of a parser context.
func lineCursor(c *Ctx, in *Interp, st *State, ctx *StructV) *StructV {
	switch v := ctxField(c, ctx, "args").(type) {
	case *Ptr:
		av, _ := in.load(st, v).(*StructV)
		return av
	case *StructV:
		return v
	}
	return nil
}
