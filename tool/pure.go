package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pureLoop reports whether fn is a looping function without side effects whose
// parameters are plain values (strings, numbers, byte slices read only): such a
// function is summarised as an uninterpreted function of its arguments.
func (in *Interp) pureLoop(fn *ssa.Function) bool {
	if fn.Blocks == nil || len(in.loopsOf(fn).header) == 0 {
		return false
	}
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
				return false
			}
		default:
			return false
		}
	}
	if len(fn.FreeVars) > 0 {
		return false
	}
	return in.pureFn(fn, map[*ssa.Function]bool{})
}

func (in *Interp) pureFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if v, ok := in.pureMemo[fn]; ok {
		return v
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	r := in.pureFn1(fn, seen)
	in.pureMemo[fn] = r
	return r
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X)
	case *ssa.Slice:
		return localAddr(v.X)
	}
	return false
}

func (in *Interp) pureFn1(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn.Blocks == nil {
		return pureExternal(fn.String())
	}
	if !in.P.isRepoFn(fn) {
		return pureExternal(fn.String())
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if !localAddr(ins.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic, *ssa.Select:
				return false
			case *ssa.Call:
				c := ins.Common()
				if c.IsInvoke() {
					return false
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap", "append", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !in.pureFn(f, seen) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}
