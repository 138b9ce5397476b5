package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokEQL = token.EQL
	tokLSS = token.LSS
	tokLEQ = token.LEQ
)

// ---------------------------------------------------------------- state

type Event struct {
	Kind string // "call", "loop", "store", ...
	Name string
	Args []Val
	Res  Val
	Pos  token.Pos
	Fn   *ssa.Function // function in which it happened
}

type evNode struct {
	e    Event
	prev *evNode
	n    int
}

type State struct {
	heap   map[int]Val
	base   map[int]Val // read-only fall-through (initialiser snapshot)
	syms   map[string]int
	facts  *Facts
	ev     *evNode
	panics []Val // panic values of unwinding frames, innermost last
	recov  []bool
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]Val, len(s.heap)+4), base: s.base, syms: make(map[string]int, len(s.syms)+2), ev: s.ev}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.syms {
		n.syms[k] = v
	}
	n.facts = s.facts.clone()
	n.panics = append([]Val{}, s.panics...)
	n.recov = append([]bool{}, s.recov...)
	return n
}

func (s *State) get(c int) Val {
	if v, ok := s.heap[c]; ok {
		return v
	}
	return s.base[c]
}

func (s *State) emit(e Event) {
	n := 0
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &evNode{e: e, prev: s.ev, n: n}
}

func (s *State) Events() []Event {
	var out []Event
	for n := s.ev; n != nil; n = n.prev {
		out = append(out, n.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type OutKind int

const (
	OutReturn OutKind = iota
	OutPanic
	OutLoop // a loop iteration that reached the fixpoint (no continuation)
)

type Outcome struct {
	St   *State
	Kind OutKind
	Vals []Val
	Pan  Val
	Loop string
}

func (o Outcome) Val() Val {
	if len(o.Vals) == 0 {
		return nil
	}
	return o.Vals[0]
}

type CallCtx struct {
	In     *Interp
	St     *State
	Instr  ssa.CallInstruction
	Caller *ssa.Function
	Fn     *ssa.Function // static callee if known
	Name   string
	Recv   Val
	Args   []Val
	Res    *types.Tuple
	Depth  int
}

type Hook func(c *CallCtx) ([]Outcome, bool)

type Interp struct {
	P          *Prog
	Hooks      map[string]Hook
	HookAny    Hook // called for every non-builtin call before inlining
	Snapshot   *State
	UseSnap    func(g *ssa.Global) bool
	Inline     func(fn *ssa.Function) bool // nil: all repo functions
	OnIndex    func(st *State, instr ssa.Instruction, idx, n Val, isSlice bool)
	OnNil      func(st *State, instr ssa.Instruction, p Val)
	MaxPaths   int
	MaxSteps   int
	MaxDepth   int
	NoWiden    bool
	initMode   bool
	nextCell   int
	nextSym    int
	paths      int
	steps      int
	Incompl    []string
	incomplOn  map[string]bool
	loops      map[*ssa.Function]*loopInfo
	Analysed   map[*ssa.Function]bool
	Widened    int
	ptrNames   map[int]string
	pureMemo   map[*ssa.Function]bool
	ForkPanics bool // possible run-time panics become paths of their own
	ForkFmt    bool // a formatted operand's String method may have several outcomes
	Exact      bool // the inputs are finite: loops are followed to their end
	MaxVisits  int  // with Exact, no loop goes round more often than this (0: 20000)
	Unroll     bool // early exits do not make a loop with a decided bound symbolic
	NoSummary  bool // inline pure looping functions instead of summarising them
}

func NewInterp(p *Prog) *Interp {
	in := &Interp{P: p, Hooks: map[string]Hook{}, MaxPaths: 60000, MaxSteps: 6000000, MaxDepth: 60, incomplOn: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}, Analysed: map[*ssa.Function]bool{}, nextCell: 1, ptrNames: map[int]string{}, pureMemo: map[*ssa.Function]bool{}}
	return in
}

func (in *Interp) NewState() *State {
	st := &State{heap: map[int]Val{}, syms: map[string]int{}, facts: newFacts()}
	if in.Snapshot != nil {
		st.base = in.Snapshot.heap
		for k, v := range in.Snapshot.syms {
			st.syms[k] = v
		}
	}
	return st
}

func (in *Interp) incomplete(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if !in.incomplOn[s] {
		in.incomplOn[s] = true
		in.Incompl = append(in.Incompl, s)
	}
}

func (in *Interp) fresh(prefix string, t types.Type) *Sym {
	in.nextSym++
	return &Sym{Name: fmt.Sprintf("%s#%d", prefix, in.nextSym), T: t}
}

func (in *Interp) alloc(st *State, v Val) int {
	in.nextCell++
	st.heap[in.nextCell] = v
	return in.nextCell
}

// ---------------------------------------------------------------- memory

// symPtr turns an opaque pointer into a pointer to a lazily created cell.
func (in *Interp) symPtr(st *State, v Val) (*Ptr, bool) {
	if p, ok := v.(*Ptr); ok {
		return p, true
	}
	t := typeOf(v)
	if t == nil {
		return nil, false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	if isNilConst(v) {
		return nil, false
	}
	k := "*" + v.Key()
	c, ok := st.syms[k]
	if !ok {
		c = in.alloc(st, &Sym{Name: v.Key() + ".*", T: pt.Elem()})
		in.ptrNames[c] = v.Key()
		st.syms[k] = c
	}
	return &Ptr{Cell: c, T: t}, true
}

func (in *Interp) globalCell(st *State, g *ssa.Global) int {
	k := "g:" + g.String()
	c, ok := st.syms[k]
	if ok {
		return c
	}
	et := g.Type().(*types.Pointer).Elem()
	if in.initMode && g.Pkg != nil && in.P.repo[g.Pkg.Pkg] && g.Name() != "BuiltInLangSpecJson" {
		c = in.alloc(st, zeroOf(et))
		st.syms[k] = c
		return c
	}
	c = in.alloc(st, &Sym{Name: "global:" + g.Name(), T: et})
	if g.Pkg != nil && g.Pkg.Pkg.Path() != repoPath {
		st.heap[c] = &Sym{Name: "global:" + g.Pkg.Pkg.Name() + "." + g.Name(), T: et}
	}
	st.syms[k] = c
	return c
}

// expand makes the first level of a symbolic aggregate explicit.
func (in *Interp) expand(st *State, v Val) Val {
	t := typeOf(v)
	if t == nil {
		return v
	}
	switch v.(type) {
	case *Sym, *Term:
	default:
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, fieldTerm(v, u, i))
		}
		return s
	case *types.Array:
		return &Seq{T: u.Elem(), Segs: []Seg{{Kind: SegChunk, Src: v, Lo: mkInt(0, nil), Hi: mkInt(u.Len(), nil)}}}
	}
	return v
}

func fieldTerm(v Val, u *types.Struct, i int) Val {
	return &Term{Op: "f", Extra: u.Field(i).Name(), Args: []Val{v}, T: u.Field(i).Type()}
}

func (in *Interp) fieldOf(st *State, v Val, i int) Val {
	switch v := v.(type) {
	case *StructV:
		return v.F[i]
	case *Tuple:
		return v.V[i]
	}
	if t := typeOf(v); t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok {
			return fieldTerm(v, u, i)
		}
	}
	return &Term{Op: "f", Extra: fmt.Sprint(i), Args: []Val{v}}
}

func (in *Interp) load(st *State, p *Ptr) Val {
	v := st.get(p.Cell)
	for _, s := range p.Path {
		if s.Idx != nil {
			if q, ok := in.expand(st, v).(*Seq); ok {
				v = seqGet(q, s.Idx)
			} else {
				v = &Term{Op: "index", Args: []Val{v, s.Idx}, T: elemType(typeOf(v))}
			}
		} else {
			v = in.fieldOf(st, v, s.Field)
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

func (in *Interp) store(st *State, p *Ptr, nv Val) {
	st.heap[p.Cell] = in.update(st, st.get(p.Cell), p.Path, nv)
}

func (in *Interp) update(st *State, old Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	old = in.expand(st, old)
	if s.Idx != nil {
		if q, ok := old.(*Seq); ok {
			if len(path) == 1 {
				return seqSet(q, s.Idx, nv)
			}
			return seqSet(q, s.Idx, in.update(st, seqGet(q, s.Idx), path[1:], nv))
		}
		return &Term{Op: "upd", Args: []Val{old, s.Idx, nv}, T: typeOf(old)}
	}
	if sv, ok := old.(*StructV); ok {
		n := &StructV{T: sv.T, F: append([]Val{}, sv.F...)}
		n.F[s.Field] = in.update(st, sv.F[s.Field], path[1:], nv)
		return n
	}
	return &Term{Op: "updf", Extra: fmt.Sprint(s.Field), Args: []Val{old, nv}, T: typeOf(old)}
}

// sliceOf views v as a SliceV (materialising opaque slices).
func (in *Interp) sliceOf(st *State, v Val) (*SliceV, bool) {
	switch v := v.(type) {
	case *SliceV:
		return v, true
	case *Const:
		if v.V == nil {
			if et := elemType(v.T); et != nil {
				c := in.alloc(st, &Seq{T: et})
				return &SliceV{Cell: c, Lo: mkInt(0, nil), Hi: mkInt(0, nil), T: v.T}, true
			}
		}
		if s, ok := constStr(v); ok && len(s) <= 4096 {
			q := &Seq{T: types.Typ[types.Uint8]}
			for i := 0; i < len(s); i++ {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: &Const{V: constant.MakeInt64(int64(s[i])), T: types.Typ[types.Uint8]}})
			}
			c := in.alloc(st, q)
			return &SliceV{Cell: c, Lo: mkInt(0, nil), Hi: mkInt(int64(len(s)), nil), T: v.T}, true
		}
		return nil, false
	}
	t := typeOf(v)
	if t == nil {
		return nil, false
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil, false
	}
	k := "arr:" + v.Key()
	c, ok := st.syms[k]
	n := &Term{Op: "len", Args: []Val{v}, T: intT}
	if !ok {
		c = in.alloc(st, &Seq{T: elemType(t), Segs: []Seg{{Kind: SegChunk, Src: v, Lo: mkInt(0, nil), Hi: n}}})
		st.syms[k] = c
		in.ptrNames[c] = v.Key()
	}
	return &SliceV{Cell: c, Lo: mkInt(0, nil), Hi: n, T: t}, true
}

func (in *Interp) seqOf(st *State, v Val) (*Seq, bool) {
	s, ok := in.sliceOf(st, v)
	if !ok {
		return nil, false
	}
	q, ok := st.get(s.Cell).(*Seq)
	if !ok {
		return nil, false
	}
	return seqSub(q, s.Lo, s.Hi), true
}

func (in *Interp) newSlice(st *State, q *Seq, t types.Type) *SliceV {
	c := in.alloc(st, q)
	return &SliceV{Cell: c, Lo: mkInt(0, nil), Hi: seqLen(q), T: t}
}

func (in *Interp) lenOf(st *State, v Val) Val {
	switch v := v.(type) {
	case *SliceV:
		return linAdd(v.Hi, v.Lo, -1, intT)
	case *Const:
		if v.V == nil {
			return mkInt(0, nil)
		}
		if s, ok := constStr(v); ok {
			return mkInt(int64(len(s)), nil)
		}
	case *MapRef:
		if m, ok := st.get(v.Cell).(*MapC); ok && m.Base == nil {
			n := 0
			for _, k := range m.Keys {
				if m.M[k.Key()] != nil {
					n++
				}
			}
			allc := true
			for _, k := range m.Keys {
				if !isConstV(k) {
					allc = false
				}
			}
			if allc {
				return mkInt(int64(n), nil)
			}
		}
	case *Seq:
		return seqLen(v)
	case *Term:
		if v.Op == "chr" {
			return mkInt(1, nil)
		}
		if v.Op == "cat" {
			var n Val = mkInt(0, nil)
			for _, p := range v.Args {
				n = linAdd(n, in.lenOf(st, p), 1, intT)
			}
			return n
		}
		if v.Op == "substr" {
			return linAdd(v.Args[2], v.Args[1], -1, intT)
		}
		if v.Op == "conv" && len(v.Args) == 1 {
			a := typeOf(v.Args[0])
			if isStringT(v.T) && isByteSlice(a) || isByteSlice(v.T) && isStringT(a) {
				return in.lenOf(st, v.Args[0])
			}
		}
	case *Ptr: // pointer to array
		if a, ok := v.T.Underlying().(*types.Pointer); ok {
			if ar, ok := a.Elem().Underlying().(*types.Array); ok {
				return mkInt(ar.Len(), nil)
			}
		}
	}
	if t := typeOf(v); t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(ar.Len(), nil)
			}
		}
		if ar, ok := t.Underlying().(*types.Array); ok {
			return mkInt(ar.Len(), nil)
		}
	}
	r := &Term{Op: "len", Args: []Val{v}, T: intT}
	if c, ok := st.facts.eq[r.Key()]; ok {
		return c
	}
	return r
}

func isStringT(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := und(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> loop body
}

func (in *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := in.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := li.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.header[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	in.loops[fn] = li
	return li
}

type loopState struct {
	visits  int
	sym     bool // an exit condition was not decided since the last header visit
	phis    map[*ssa.Phi]Val
	heap    map[int]Val
	havoc   map[string]bool // "phi name" / "cell id" already generalised
	widened int
	forks   int
	counted bool // the header's own test compares constants
	base    int  // cells above this id were allocated inside the loop
}

type defRec struct {
	common *ssa.CallCommon
	fn     Val
	args   []Val
	instr  ssa.CallInstruction
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	bind   []Val
	defers []defRec
	loops  map[*ssa.BasicBlock]*loopState
	depth  int
	calls  map[string]int
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+8), bind: f.bind, depth: f.depth, loops: map[*ssa.BasicBlock]*loopState{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]defRec{}, f.defers...)
	for k, v := range f.loops {
		c := *v
		c.havoc = map[string]bool{}
		for a, b := range v.havoc {
			c.havoc[a] = b
		}
		n.loops[k] = &c
	}
	return n
}

type work struct {
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	i    int
	fr   *frame
	st   *State
}

// Call interprets fn abstractly from st and returns every outcome.
func (in *Interp) Call(st *State, fn *ssa.Function, args []Val, bind []Val, depth int) []Outcome {
	if fn.Blocks == nil {
		in.incomplete("no body: %s", fn)
		return []Outcome{{St: st, Kind: OutReturn, Vals: in.opaqueResults(fn.String(), args, fn.Signature.Results(), nil)}}
	}
	in.Analysed[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, depth: depth, loops: map[*ssa.BasicBlock]*loopState{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in.fresh("p:"+p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		} else {
			fr.env[p] = in.fresh("fv:"+p.Name(), p.Type())
		}
	}
	return in.run(work{b: fn.Blocks[0], fr: fr, st: st})
}

func (in *Interp) run(w0 work) []Outcome {
	var outs []Outcome
	stack := []work{w0}
	for len(stack) > 0 {
		w := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if in.paths > in.MaxPaths || in.steps > in.MaxSteps {
			in.incomplete("path budget exhausted in %s", w.fr.fn)
			return outs
		}
		if w.i == 0 {
			nw, keep, out := in.enterBlock(w)
			if !keep {
				if out != nil {
					outs = append(outs, *out)
				}
				continue
			}
			w = nw
		}
		nexts, o := in.runBlock(w)
		outs = append(outs, o...)
		in.paths += len(nexts) - 1 + len(o)
		if len(nexts) == 1 && len(o) == 0 {
			in.paths += 0
		}
		// push in reverse so the first is explored first
		for i := len(nexts) - 1; i >= 0; i-- {
			stack = append(stack, nexts[i])
		}
	}
	return outs
}

// enterBlock evaluates phis and handles loop headers.
func (in *Interp) enterBlock(w work) (work, bool, *Outcome) {
	b := w.b
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]Val{}
	if w.prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == w.prev {
				pi = i
				break
			}
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals[ph] = in.val(w.st, w.fr, ph.Edges[pi])
		}
	}
	li := in.loopsOf(w.fr.fn)
	// leaving loops forgets their state
	for h := range w.fr.loops {
		if !li.header[h][b] {
			delete(w.fr.loops, h)
		}
	}
	if body, ok := li.header[b]; ok {
		ls := w.fr.loops[b]
		isBack := w.prev != nil && body[w.prev]
		if ls == nil || !isBack {
			ls = &loopState{havoc: map[string]bool{}, base: in.nextCell}
			w.fr.loops[b] = ls
			in.snapLoop(ls, vals, w.st)
		} else {
			ls.visits++
			w.st.emit(Event{Kind: "loop", Name: in.loopName(b), Pos: firstPos(b), Fn: w.fr.fn})
			if !ls.sym && ls.widened == 0 {
				// every exit test since the last visit was decided: continue exactly
				if ls.visits > 20000 || in.MaxVisits > 0 && ls.visits > in.MaxVisits {
					in.incomplete("loop bound in %s", w.fr.fn)
					return w, false, nil
				}
				in.snapLoop(ls, vals, w.st)
			} else if in.NoWiden && ls.visits > 2 {
				return w, false, &Outcome{St: w.st, Kind: OutLoop, Loop: in.loopName(b)}
			} else {
				changed := in.widen(w, ls, b, phis, vals)
				if !changed {
					return w, false, &Outcome{St: w.st, Kind: OutLoop, Loop: in.loopName(b)}
				}
				in.Widened++
			}
			ls.sym = false
		}
	}
	for _, ph := range phis {
		w.fr.env[ph] = vals[ph]
	}
	w.i = len(phis)
	if w.i == 0 {
		w.i = 0
	}
	w.i = -(w.i + 1) // mark: entered
	return w, true, nil
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func (in *Interp) loopName(b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s:loop%d", b.Parent().Name(), b.Index)
}

func (in *Interp) snapLoop(ls *loopState, vals map[*ssa.Phi]Val, st *State) {
	ls.phis = map[*ssa.Phi]Val{}
	for k, v := range vals {
		ls.phis[k] = v
	}
	ls.heap = make(map[int]Val, len(st.heap))
	for k, v := range st.heap {
		ls.heap[k] = v
	}
}

// widen generalises whatever changed since the header snapshot. It returns
// false when the arriving state is already covered.
func (in *Interp) widen(w work, ls *loopState, b *ssa.BasicBlock, phis []*ssa.Phi, vals map[*ssa.Phi]Val) bool {
	changed := false
	name := in.loopName(b)
	if ls.widened > 6 {
		in.incomplete("widening bound in %s", w.fr.fn)
		return false
	}
	nphis := map[*ssa.Phi]Val{}
	for _, ph := range phis {
		o, n := ls.phis[ph], vals[ph]
		if o == nil {
			o = n
		}
		if o.Key() == n.Key() {
			nphis[ph] = o
			continue
		}
		hk := "phi:" + ph.Name()
		g, ch := in.generalise(w.st, ls, name+":"+ph.Name(), hk, o, n, ph.Type())
		changed = changed || ch
		nphis[ph] = g
	}
	var cells []int
	for c := range ls.heap {
		cells = append(cells, c)
	}
	sort.Ints(cells)
	type upd struct {
		c int
		v Val
	}
	var ups []upd
	for _, c := range cells {
		o, n := ls.heap[c], w.st.heap[c]
		if n == nil || o.Key() == n.Key() {
			continue
		}
		g, ch := in.generalise(w.st, ls, fmt.Sprintf("%s:c%s", name, in.cellName(c)), fmt.Sprintf("c%d", c), o, n, typeOf(o))
		changed = changed || ch
		ups = append(ups, upd{c, g})
	}
	if !changed {
		return false
	}
	ls.widened++
	for _, u := range ups {
		w.st.heap[u.c] = u.v
	}
	for ph, v := range nphis {
		vals[ph] = v
	}
	in.snapLoop(ls, vals, w.st)
	return true
}

func (in *Interp) cellName(c int) string {
	if n, ok := in.ptrNames[c]; ok {
		return n
	}
	return fmt.Sprint(c)
}

// generalise merges old (header snapshot) with new (arriving) value.
// changed=false means new is covered by old.
func (in *Interp) generalise(st *State, ls *loopState, name, hk string, o, n Val, t types.Type) (Val, bool) {
	if o.Key() == n.Key() {
		return o, false
	}
	if ls.havoc[hk] {
		// already opaque for this loop: covered
		if _, ok := o.(*Sym); ok {
			return o, false
		}
	}
	switch ov := o.(type) {
	case *StructV:
		if nv, ok := n.(*StructV); ok && len(nv.F) == len(ov.F) {
			r := &StructV{T: ov.T, F: make([]Val, len(ov.F))}
			ch := false
			for i := range ov.F {
				g, c := in.generalise(st, ls, fmt.Sprintf("%s.%d", name, i), fmt.Sprintf("%s.%d", hk, i), ov.F[i], nv.F[i], typeOf(ov.F[i]))
				r.F[i] = g
				ch = ch || c
			}
			return r, ch
		}
	case *Seq:
		if nv, ok := n.(*Seq); ok {
			return in.genSeq(st, ls, name, hk, ov, nv)
		}
	case *SliceV:
		var oq, nq *Seq
		if q, ok := st.get(ov.Cell).(*Seq); ok {
			oq = seqSub(q, ov.Lo, ov.Hi)
		}
		if q0, ok := ls.heap[ov.Cell].(*Seq); ok {
			oq = seqSub(q0, ov.Lo, ov.Hi)
		}
		if nv, ok := n.(*SliceV); ok {
			if q, ok := st.get(nv.Cell).(*Seq); ok {
				nq = seqSub(q, nv.Lo, nv.Hi)
			}
			if oq != nil && nq != nil {
				g, ch := in.genSeq(st, ls, name, hk, oq, nq)
				if !ch {
					return o, false
				}
				al := append(append([]int{}, ov.Alias...), nv.Alias...)
				s := in.newSlice(st, g.(*Seq), ov.T)
				s.Alias = al
				return s, true
			}
		}
	case *Const:
		if ov.V == nil {
			if nv, ok := n.(*SliceV); ok {
				if nq, ok := st.get(nv.Cell).(*Seq); ok {
					et := elemType(ov.T)
					g, ch := in.genSeq(st, ls, name, hk, &Seq{T: et}, seqSub(nq, nv.Lo, nv.Hi))
					if !ch {
						return o, false
					}
					s := in.newSlice(st, g.(*Seq), nv.T)
					s.Alias = nv.Alias
					return s, true
				}
			}
		}
		if isStringT(t) {
			return in.genStr(ls, name, hk, o, n)
		}
	case *Term:
		if isStringT(t) {
			return in.genStr(ls, name, hk, o, n)
		}
	case *MapC:
		if _, ok := n.(*MapC); ok && ls.havoc[hk] && ov.Base != nil && len(ov.M) == 0 {
			return o, false
		}
		ls.havoc[hk] = true
		return &MapC{Base: &Sym{Name: name + fmt.Sprintf("@%d", ls.widened), T: ov.T}, M: map[string]Val{}, T: ov.T}, true
	case *Sym:
		if isStringT(t) {
			return in.genStr(ls, name, hk, o, n)
		}
	}
	if t == nil {
		t = typeOf(n)
	}
	if t == nil {
		t = typeOf(o)
	}
	ls.havoc[hk] = true
	in.nextSym++
	s := &Sym{Name: fmt.Sprintf("%s@%d", name, in.nextSym), T: t}
	if isInt(t) {
		if d, ok := linDiff(n, o); ok {
			if c, isc := constInt(o); isc && d > 0 && c >= 0 {
				s.Name = "nn:" + s.Name
			}
			if d > 0 {
				st.facts.addLE(linAdd(o, s, -1, intT)) // o <= s
			} else if d < 0 {
				st.facts.addLE(linAdd(s, o, -1, intT))
			}
		}
	}
	return s, true
}

func (in *Interp) genSeq(st *State, ls *loopState, name, hk string, o, n *Seq) (Val, bool) {
	// append-only accumulation: n = o ++ extra
	if len(n.Segs) >= len(o.Segs) {
		pre := true
		for i := range o.Segs {
			if (&Seq{Segs: []Seg{o.Segs[i]}}).Key() != (&Seq{Segs: []Seg{n.Segs[i]}}).Key() {
				pre = false
				break
			}
		}
		if pre {
			var extra []Val
			simple := true
			for _, g := range n.Segs[len(o.Segs):] {
				switch g.Kind {
				case SegElem:
					extra = append(extra, g.V)
				case SegChunk:
					extra = append(extra, &Term{Op: "spread", Args: []Val{&Seq{T: n.T, Segs: []Seg{g}}}})
				case SegRep:
					extra = append(extra, &Term{Op: "spread", Args: []Val{&Seq{T: n.T, Segs: []Seg{g}}}})
				}
			}
			if simple {
				if len(extra) == 0 {
					return o, false
				}
				if len(o.Segs) > 0 {
					l := o.Segs[len(o.Segs)-1]
					if l.Kind == SegRep && l.Loop == name {
						for _, a := range l.Alts {
							if in.canonKeys(st, ls, a) == in.canonKeys(st, ls, extra) {
								return o, false
							}
						}
						if len(l.Alts) < 6 {
							nl := l
							nl.Alts = append(append([][]Val{}, l.Alts...), extra)
							segs := append([]Seg{}, o.Segs[:len(o.Segs)-1]...)
							return &Seq{T: o.T, Segs: append(segs, nl)}, true
						}
					}
				}
				in.nextSym++
				rep := Seg{Kind: SegRep, Alts: [][]Val{extra}, Loop: name, LenV: &Term{Op: "replen", Extra: fmt.Sprintf("%s#%d", name, in.nextSym), T: intT}}
				return &Seq{T: o.T, Segs: append(append([]Seg{}, o.Segs...), rep)}, true
			}
		}
	}
	// in-place rewriting: same length
	if ls.havoc[hk] && len(o.Segs) == 1 && o.Segs[0].Kind == SegChunk {
		if s, ok := o.Segs[0].Src.(*Term); ok && s.Op == "havocseq" {
			// record a new template if it is one
			if t := updTemplate(n, o); t != nil {
				for _, a := range s.Args {
					if in.canonKeys(st, ls, []Val{a}) == in.canonKeys(st, ls, []Val{t}) {
						return o, false
					}
				}
				if len(s.Args) < 5 {
					ns := &Term{Op: "havocseq", Extra: s.Extra, Args: append(append([]Val{}, s.Args...), t)}
					return &Seq{T: o.T, Segs: []Seg{{Kind: SegChunk, Src: ns, Lo: o.Segs[0].Lo, Hi: o.Segs[0].Hi}}}, true
				}
			}
			return o, false
		}
	}
	ls.havoc[hk] = true
	in.nextSym++
	src := &Term{Op: "havocseq", Extra: fmt.Sprintf("%s#%d", name, in.nextSym)}
	if t := updTemplate(n, o); t != nil {
		src.Args = append(src.Args, t)
	}
	var hi Val = seqLen(o)
	if seqLen(n).Key() != hi.Key() {
		hi = &Term{Op: "replen", Extra: fmt.Sprintf("%s#%d", name, in.nextSym), T: intT}
	}
	return &Seq{T: o.T, Segs: []Seg{{Kind: SegChunk, Src: src, Lo: mkInt(0, nil), Hi: hi}}}, true
}

// canonKeys compares values modulo the identity of cells allocated inside the
// loop (they are replaced by their content).
func (in *Interp) canonKeys(st *State, ls *loopState, vs []Val) string {
	var sb strings.Builder
	for _, v := range vs {
		sb.WriteString(in.canon(st, ls, v, 0))
		sb.WriteByte('|')
	}
	return sb.String()
}

func (in *Interp) canon(st *State, ls *loopState, v Val, d int) string {
	if v == nil {
		return "nil"
	}
	if d > 6 {
		return "..."
	}
	switch v := v.(type) {
	case *Ptr:
		if v.Cell > ls.base && ls.base > 0 {
			p := *v
			return "&{" + in.canon(st, ls, st.get(p.Cell), d+1) + "}" + fmt.Sprint(len(p.Path))
		}
	case *IfaceV:
		return "iface:" + typeName(v.Dyn) + ":" + in.canon(st, ls, v.V, d+1)
	case *StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range v.F {
			sb.WriteString(in.canon(st, ls, f, d+1))
			sb.WriteByte(',')
		}
		return sb.String() + "}"
	case *SliceV:
		if v.Cell > ls.base && ls.base > 0 {
			return "sl{" + in.canon(st, ls, st.get(v.Cell), d+1) + v.Lo.Key() + ":" + v.Hi.Key() + "}"
		}
	case *Seq:
		var sb strings.Builder
		sb.WriteString("[")
		for _, g := range v.Segs {
			if g.Kind == SegElem {
				sb.WriteString(in.canon(st, ls, g.V, d+1))
			} else {
				sb.WriteString((&Seq{Segs: []Seg{g}}).Key())
			}
			sb.WriteByte(',')
		}
		return sb.String() + "]"
	case *Term:
		var sb strings.Builder
		sb.WriteString(v.Op + "/" + v.Extra + "(")
		for _, a := range v.Args {
			sb.WriteString(in.canon(st, ls, a, d+1))
			sb.WriteByte(',')
		}
		return sb.String() + ")"
	}
	return v.Key()
}

// updTemplate finds the (index,value) pair written into n relative to o.
func updTemplate(n, o *Seq) Val {
	var found Val
	if len(n.Segs) == 1 && n.Segs[0].Kind == SegChunk {
		if t, ok := n.Segs[0].Src.(*Term); ok && t.Op == "upd" {
			return &Term{Op: "at", Args: []Val{t.Args[1], t.Args[2]}}
		}
	}
	old := map[string]bool{}
	for _, g := range o.Segs {
		if g.Kind == SegElem {
			old[g.V.Key()] = true
		}
	}
	var at Val = mkInt(0, nil)
	for _, g := range n.Segs {
		if g.Kind == SegElem && !old[g.V.Key()] {
			found = &Term{Op: "at", Args: []Val{at, g.V}}
		}
		at = linAdd(at, segLen(g), 1, intT)
	}
	return found
}

func (in *Interp) genStr(ls *loopState, name, hk string, o, n Val) (Val, bool) {
	op, np := catParts(o), catParts(n)
	// n = o ++ extra (splitting a merged constant)
	pre := len(np) >= len(op)
	var extra []Val
	if pre {
		for i := range op {
			if op[i].Key() == np[i].Key() {
				continue
			}
			a, oka := constStr(op[i])
			b, okb := constStr(np[i])
			if i == len(op)-1 && oka && okb && strings.HasPrefix(b, a) {
				extra = append(extra, mkStr(b[len(a):]))
				continue
			}
			pre = false
		}
		if pre {
			extra = append(extra, np[len(op):]...)
		}
	}
	if pre && len(extra) > 0 {
		if len(op) > 0 {
			if l, ok := op[len(op)-1].(*Term); ok && l.Op == "rep" && l.Extra == name {
				ex := &Term{Op: "alt", Args: extra}
				for _, a := range l.Args {
					if a.Key() == ex.Key() {
						return o, false
					}
				}
				if len(l.Args) < 6 {
					nl := &Term{Op: "rep", Extra: name, Args: append(append([]Val{}, l.Args...), ex), T: types.Typ[types.String]}
					return strCat(append(append([]Val{}, op[:len(op)-1]...), nl)...), true
				}
			}
		}
		rep := &Term{Op: "rep", Extra: name, Args: []Val{&Term{Op: "alt", Args: extra}}, T: types.Typ[types.String]}
		return strCat(append(append([]Val{}, op...), rep)...), true
	}
	if ls.havoc[hk] {
		return o, false
	}
	ls.havoc[hk] = true
	in.nextSym++
	return &Sym{Name: fmt.Sprintf("%s@%d", name, in.nextSym), T: types.Typ[types.String]}, true
}
