package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// OpRun is one outcome of a parse function on a line with N argument tokens.
type OpRun struct {
	Reg      OpReg
	N        int
	In       *Interp
	Out      Outcome
	Ops      []Val // ops appended by the parse function
	OpsOK    bool
	Diags    []Val // diagnostics appended
	Consumed int64 // tokens consumed after the mnemonic
	CtxCell  int
}

// runParse analyses one parse function on a line with n arbitrary arguments.
// setTok may replace the text of a token (index from 1).
func (c *Ctx) runParse(r OpReg, n int, useSnap func(g *ssa.Global) bool, setup func(in *Interp, st *State, cc int)) ([]OpRun, *Interp, error) {
	if useSnap == nil {
		useSnap = ptrOrIfaceGlobal
	}
	in := c.NewAnalysis(useSnap)
	st, ctx, cc, err := c.parserState(in, n)
	if err != nil {
		return nil, in, err
	}
	if setup != nil {
		setup(in, st, cc)
	}
	outs := in.Call(st, r.Parse, []Val{ctx}, r.Bind, 0)
	var runs []OpRun
	for _, o := range outs {
		if o.Kind == OutLoop {
			continue
		}
		run := OpRun{Reg: r, N: n, In: in, Out: o, CtxCell: cc}
		ctxv, ok := o.St.get(cc).(*StructV)
		if !ok {
			return nil, in, fmt.Errorf("the parser context became opaque")
		}
		run.Ops, run.OpsOK = appended(in, o.St, ctxField(c, ctxv, "ops"), "")
		run.Diags, _ = appended(in, o.St, ctxField(c, ctxv, "diag"), "")
		run.Consumed = -1
		if av := lineCursor(c, in, o.St, ctxv); av != nil {
			for _, f := range av.F {
				if isInt(typeOf(f)) {
					if k, ok := constInt(f); ok {
						run.Consumed = k - 1
						if run.Consumed > int64(n) { // a failed scan leaves the cursor past the end
							run.Consumed = int64(n)
						}
					}
				}
			}
		}
		runs = append(runs, run)
	}
	return runs, in, nil
}

// appended lists what was appended to the (symbolic) initial content of a
// context slice.
func appended(in *Interp, st *State, v Val, name string) ([]Val, bool) {
	if s, ok := v.(*Term); ok && s.Op == "f" {
		return nil, true
	}
	q, ok := in.seqOf(st, v)
	if !ok {
		return nil, false
	}
	var out []Val
	for i, g := range q.Segs {
		if i == 0 && g.Kind == SegChunk {
			continue
		}
		if g.Kind != SegElem {
			return nil, false
		}
		out = append(out, g.V)
	}
	return out, true
}

// ctxField finds a field of the parser context by its role: the instruction
// list, the diagnostics, the argument cursor.
func ctxField(c *Ctx, ctx *StructV, role string) Val {
	if i := ctxFieldIdx(c, ctx.T, role); i >= 0 {
		return ctx.F[i]
	}
	return structField(ctx, role)
}

func ctxFieldIdx(c *Ctx, t types.Type, role string) int {
	u := t.Underlying().(*types.Struct)
	hit, n := -1, 0
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		ok := false
		switch role {
		case "ops":
			et := elemType(ft)
			ok = et != nil && typeName(et) == "Op"
		case "diag":
			et := elemType(ft)
			ok = et != nil && typeName(et) == "Diagnostic"
		case "args":
			ok = cursorType(ft) != nil
		case "version":
			b, isB := ft.Underlying().(*types.Basic)
			ok = isB && b.Kind() == types.Uint64
		}
		if !ok {
			continue
		}
		if u.Field(i).Name() == role {
			return i
		}
		hit = i
		n++
	}
	if n == 1 {
		return hit
	}
	return -1
}

// printed analyses String() of an emitted op on the state reached by parsing.
func (c *Ctx) printed(in *Interp, st *State, op Val) ([]Outcome, error) {
	iv, ok := op.(*IfaceV)
	if !ok {
		return nil, fmt.Errorf("the emitted value is opaque")
	}
	fn := c.P.Prog.LookupMethod(iv.Dyn, nil, "String")
	if fn == nil {
		return nil, fmt.Errorf("%s has no String method", typeName(iv.Dyn))
	}
	var out []Outcome
	for _, o := range in.Call(st.clone(), fn, []Val{iv.V}, nil, 0) {
		if o.Kind != OutLoop {
			out = append(out, o)
		}
	}
	return out, nil
}

// words splits a printed value into space separated words; each word is a list
// of parts (constants without spaces, or opaque parts).
func words(v Val) [][]Val {
	var out [][]Val
	var cur []Val
	flush := func() {
		if len(cur) > 0 {
			out = append(out, cur)
			cur = nil
		}
	}
	for _, p := range catParts(v) {
		s, ok := constStr(p)
		if !ok {
			cur = append(cur, p)
			continue
		}
		for i, w := range strings.Split(s, " ") {
			if i > 0 {
				flush()
			}
			if w != "" {
				cur = append(cur, mkStr(w))
			}
		}
	}
	flush()
	return out
}

func wordStr(w []Val) (string, bool) {
	if len(w) != 1 {
		return "", false
	}
	return constStr(w[0])
}

func wordsKey(ws [][]Val) string {
	var out []string
	for _, w := range ws {
		out = append(out, keys(w))
	}
	return strings.Join(out, " | ")
}

// tokText matches f:v(tokK) and returns K.
func tokText(v Val) int {
	t, ok := v.(*Term)
	if !ok || t.Op != "f" || len(t.Args) != 1 || !isStringT(t.T) {
		return -1
	}
	s, ok := t.Args[0].(*Sym)
	if !ok || !strings.HasPrefix(s.Name, "tok") {
		return -1
	}
	var k int
	if _, err := fmt.Sscanf(s.Name, "tok%d", &k); err != nil {
		return -1
	}
	return k
}

// tokensIn lists every token whose text a value depends on.
func tokensIn(v Val) map[int]bool {
	m := map[int]bool{}
	walkVal(v, func(x Val) {
		if k := tokText(x); k >= 0 {
			m[k] = true
		}
	})
	return m
}

func walkVal(v Val, f func(Val)) {
	if v == nil {
		return
	}
	f(v)
	switch v := v.(type) {
	case *Term:
		for _, a := range v.Args {
			walkVal(a, f)
		}
	case *Lin:
		for _, a := range v.Atoms {
			walkVal(a, f)
		}
	case *StructV:
		for _, a := range v.F {
			walkVal(a, f)
		}
	case *IfaceV:
		walkVal(v.V, f)
	case *Tuple:
		for _, a := range v.V {
			walkVal(a, f)
		}
	case *Seq:
		for _, g := range v.Segs {
			walkVal(g.V, f)
			walkVal(g.Src, f)
			for _, a := range g.Alts {
				for _, x := range a {
					walkVal(x, f)
				}
			}
		}
	}
}

// numDecode recognises an integer decoded from a token's text: the token, the
// number of bits the parse admits and whether a later conversion can lose bits.
type numDecode struct {
	Tok    int
	Bits   int64
	Signed bool
	Base   int64
	Lossy  bool
}

func decodeNum(f *Facts, v Val) (numDecode, bool) {
	var width int64 = 64
	signedWidth := false
	for {
		t, ok := v.(*Term)
		if !ok {
			return numDecode{}, false
		}
		if t.Op == "conv" && len(t.Args) == 1 {
			if b, u, ok := basicBits(t.T); ok {
				if int64(b) < width {
					width = int64(b)
					signedWidth = !u
				}
			}
			v = t.Args[0]
			continue
		}
		if t.Op == "ext" && t.Extra == "0" {
			call, ok := t.Args[0].(*Term)
			if !ok || call.Op != "call" {
				return numDecode{}, false
			}
			d := numDecode{}
			switch call.Extra {
			case "strconv.ParseUint":
			case "strconv.ParseInt":
				d.Signed = true
			default:
				return numDecode{}, false
			}
			d.Tok = tokText(call.Args[0])
			d.Base, _ = constInt(call.Args[1])
			d.Bits, _ = constInt(call.Args[2])
			if d.Tok < 0 || d.Bits == 0 {
				return numDecode{}, false
			}
			if width < d.Bits {
				// lossless only if the path bounds the value
				lim := int64(1) << uint(width)
				if signedWidth {
					lim >>= 1
				}
				if width < 63 && f.provesLE(linAdd(v, mkInt(lim-1, nil), -1, intT)) {
					d.Bits = width
				} else {
					d.Lossy = true
				}
			}
			if signedWidth && !d.Signed && width == d.Bits {
				d.Lossy = true
			}
			return d, true
		}
		return numDecode{}, false
	}
}

// unfmt strips the formatting applied to a number or a field.
func unfmt(v Val) (Val, string) {
	t, ok := v.(*Term)
	if !ok {
		return v, ""
	}
	if t.Op == "fmt" || t.Op == "str" {
		return t.Args[0], t.Op + ":" + t.Extra
	}
	return v, ""
}

// fieldDecode recognises a field read from a token: by name through a table,
// or by number.
type fieldDecode struct {
	Tok    int
	ByName bool
	Map    Val
	Look   Val
}

func decodeField(f *Facts, v Val) (fieldDecode, bool) {
	x := v
	for {
		t, ok := x.(*Term)
		if !ok {
			return fieldDecode{}, false
		}
		if t.Op == "conv" && len(t.Args) == 1 {
			x = t.Args[0]
			continue
		}
		if t.Op == "f" {
			if l, ok := t.Args[0].(*Term); ok && l.Op == "lookup" {
				if k := tokText(l.Args[1]); k >= 0 {
					return fieldDecode{Tok: k, ByName: true, Map: l.Args[0], Look: l}, true
				}
			}
			return fieldDecode{}, false
		}
		break
	}
	d, ok := decodeNum(f, v)
	if ok && !d.Lossy {
		return fieldDecode{Tok: d.Tok}, true
	}
	return fieldDecode{}, false
}

// bytesDecode recognises a byte value decoded from the token(s) at k.
func bytesDecode(v Val) (toks map[int]bool, how string) {
	toks = tokensIn(v)
	t, ok := v.(*Term)
	if !ok {
		return toks, ""
	}
	if t.Op == "ext" {
		if c, ok := t.Args[0].(*Term); ok && c.Op == "call" {
			return toks, c.Extra
		}
	}
	return toks, t.Op + ":" + t.Extra
}

// ---------------------------------------------------------------- P01

func (c *Ctx) opsByName() (map[string]OpReg, error) {
	regs, err := c.Registry()
	if err != nil {
		return nil, err
	}
	m := map[string]OpReg{}
	for _, r := range regs {
		m[r.Name] = r
	}
	return m, nil
}

// lineArities are the token counts analysed for an opcode.
func lineArities(o *OrOp) []int {
	max := o.maxArity() + 1
	if o.Variadic == "bytes" {
		max = 2
	}
	if hasImm(o, "bytes") && o.Variadic == "" {
		max = 3
	}
	var out []int
	for n := 0; n <= max; n++ {
		out = append(out, n)
	}
	return out
}

func hasImm(o *OrOp, kind string) bool {
	if o.Variadic == kind {
		return true
	}
	for _, f := range o.Forms {
		for _, k := range f.Imms {
			if k == kind {
				return true
			}
		}
	}
	return false
}

func isBytesOp(o *OrOp) bool { return hasImm(o, "bytes") }

// longLists: a list of values of any length reaches the instruction whole.
func (c *Ctx) longLists(r *Report, pos string) {
	for _, name := range []string{"intcblock", "bytecblock", "pushints", "pushbytess", "switch", "match"} {
		for _, n := range []int{255, 256, 300} {
			ws := []string{name}
			for i := 0; i < n; i++ {
				switch oracleOps[name].Variadic {
				case "bytes":
					ws = append(ws, fmt.Sprintf("0x%04x", i))
				case "label":
					ws = append(ws, fmt.Sprintf("l%d", i))
				default:
					ws = append(ws, fmt.Sprint(i))
				}
			}
			key := fmt.Sprintf("%s with %d values", name, n)
			outs, in, err := c.process([][]tok{tokLine(ws...)}, nil)
			if err != nil {
				r.bad(key, pos, "%v", err)
				continue
			}
			r.incompl(in, key, pos)
			m := 0
			for _, o := range outs {
				if o.Res == nil {
					r.bad(key, pos, "%s: Process can panic", key)
					break
				}
				m++
				ls, ok := o.seq("Listing")
				if !r.check(ok && len(ls) == 1, key, pos, "%s: there is no one instruction", key) {
					break
				}
				t, _, err := c.callMethod(in, o.Out.St, ls[0], "String")
				if err != nil {
					r.bad(key, pos, "%s: %v", key, err)
					break
				}
				got, _ := constStr(t)
				gw := strings.Fields(got)
				if !r.check(len(gw) == len(ws), key, pos, "%s yields an instruction that prints %d values", key, len(gw)-1) {
					break
				}
				for i := range ws {
					if oracleOps[name].Variadic == "bytes" && i > 0 {
						break // printed in another notation
					}
					if !r.check(gw[i] == ws[i], key, pos, "%s: value %d is %s instead of %s", key, i, gw[i], ws[i]) {
						break
					}
				}
			}
			r.count("long list")
			r.check(m > 0, key, pos, "%s: no outcome", key)
		}
	}
}

func checkP01(c *Ctx, r *Report) {
	r.Rule = "For every opcode of the AVM reference list: constant propagation of the package initialisers shows that it is registered; abstract interpretation of its parse function on a line with n arbitrary argument tokens (every n from 0 to one more than the largest accepted count) shows that an accepting path appends exactly one instruction, reports nothing, consumes exactly the accepted tokens, and that the appended instruction prints the mnemonic; a rejecting path appends no instruction, records a diagnostic on a token of the line and unwinds with the parser's own signal. The name emitted for a label line is the label."
	regs, err := c.opsByName()
	if err != nil {
		r.bad("registry", "process.go", "%v", err)
		return
	}
	c.longLists(r, "process.go")
	r.floor("opcode", 180)
	for _, name := range oracleNames() {
		o := oracleOps[name]
		reg, ok := regs[name]
		if !r.check(ok, "registered/"+name, "process.go opsList", "opcode %q is not registered: a line using it is not recognised", name) {
			continue
		}
		r.count("opcode")
		pos := r.fnPos(reg.Parse)
		for _, n := range lineArities(o) {
			runs, in, err := c.runParse(reg, n, nil, nil)
			key := fmt.Sprintf("%s/%d", name, n)
			if err != nil {
				r.bad(key, pos, "%v", err)
				continue
			}
			r.incompl(in, key, pos)
			want := -1
			var form OrForm
			for k := n; k >= 0; k-- { // the longest accepted form that fits
				if f, ok := o.form(k); ok {
					want, form = k, f
					break
				}
			}
			exact, okExact := o.form(n)
			if !okExact && n < o.maxArity() {
				want = -1 // too few arguments for the longer form
				if n == 0 {
					want = -1
				}
			}
			if okExact {
				want, form = n, exact
			}
			returns := 0
			for _, run := range runs {
				if run.Out.Kind == OutPanic {
					r.count("rejecting path")
					pk := key + "/reject"
					iv, ok := run.Out.Pan.(*IfaceV)
					_, named := func() (types.Object, bool) {
						if !ok {
							return nil, false
						}
						if nt, ok := iv.Dyn.(*types.Named); ok && nt.Obj().Pkg() != nil && c.P.repo[nt.Obj().Pkg()] {
							return nt.Obj(), true
						}
						return nil, false
					}()
					r.check(named, pk+"/signal", pos, "%s with %d arguments can panic with %s instead of reporting an error", name, n, run.Out.Pan.Key())
					r.check(run.OpsOK && len(run.Ops) == 0, pk+"/ops", pos, "%s with %d arguments records an instruction and then fails", name, n)
					if named {
						r.check(len(run.Diags) > 0, pk+"/diag", pos, "%s with %d arguments is rejected without a diagnostic", name, n)
						for _, d := range run.Diags {
							r.check(diagOnLine(d), pk+"/range", pos, "the diagnostic of a rejected %q line is not placed on one of its tokens: %s", name, d.Key())
						}
					}
					continue
				}
				returns++
				r.count("accepting path")
				ak := key + "/accept"
				if isBytesOp(o) && n > 0 {
					// the token count depends on the literal's notation
				} else if want < 0 {
					r.bad(ak, pos, "%s accepts a line with %d arguments (needs %v)", name, n, o.arities())
					continue
				} else {
					r.check(run.Consumed == int64(want), ak+"/consumed", pos, "%s consumes %d of %d arguments (its form has %d)", name, run.Consumed, n, want)
				}
				r.check(len(run.Diags) == 0, ak+"/diag", pos, "%s reports a diagnostic on an accepted line", name)
				if !r.check(run.OpsOK && len(run.Ops) == 1, ak+"/ops", pos, "%s appends %d instructions for one line", name, len(run.Ops)) {
					continue
				}
				outs, err := c.printed(in, run.Out.St, run.Ops[0])
				if err != nil {
					r.bad(ak+"/print", pos, "%v", err)
					continue
				}
				for _, po := range outs {
					if po.Kind != OutReturn {
						r.bad(ak+"/print", pos, "printing the instruction of %q can panic", name)
						continue
					}
					ws := words(po.Vals[0])
					w := ""
					if len(ws) > 0 {
						w, _ = wordStr(ws[0])
					}
					exp := form.Op
					if isBytesOp(o) {
						exp = name
					}
					r.check(w == exp, ak+"/mnemonic", pos, "a %q line with %d arguments yields the instruction %q, not %q", name, n, w, exp)
				}
			}
			if want >= 0 {
				r.check(returns > 0, key+"/accepted", pos, "%s with %d arguments is never accepted", name, n)
			}
		}
	}
	for name, reg := range regs {
		if oracleOps[name] == nil {
			r.bad("unknown/"+name, r.fnPos(reg.Parse), "%q is registered but is not an AVM opcode", name)
		}
	}
}

// diagOnLine: the diagnostic's line and both columns come from one token.
func diagOnLine(d Val) bool {
	toks := map[string]bool{}
	fields := map[string]bool{}
	walkVal(d, func(x Val) {
		if t, ok := x.(*Term); ok && t.Op == "f" && len(t.Args) == 1 {
			if s, ok := t.Args[0].(*Sym); ok && strings.HasPrefix(s.Name, "tok") && isInt(t.T) {
				toks[s.Name] = true
				fields[t.Extra] = true
			}
		}
		if s, ok := x.(*Sym); ok && strings.HasPrefix(s.Name, "tok") {
			toks[s.Name] = true
		}
	})
	return len(toks) >= 1
}

var _ = constant.MakeInt64
