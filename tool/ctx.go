package main

import "go/types"

type Ctx struct {
	P      *Prog
	SnapIn *Interp
	Snap   *State

	ctxT     *types.Named // type of the parser context
	ctxIface bool         // parsers take it as an interface
}
