package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// Facts is the path condition: truth of opaque conditions, equalities with
// constants, and affine inequalities (Lin <= 0).
type Facts struct {
	truth map[string]bool
	eq    map[string]Val            // value key -> constant
	neq   map[string]map[string]Val // value key -> excluded constants
	ineq  []Val                     // each: expression <= 0
	dyn   map[string]types.Type     // interface value key -> dynamic type
	vals  map[string]Val            // key -> value (for reporting / queries)
	order []string                  // decisions in order, for reports
	gen   int
	neqs  []Val // each: expression != 0
}

func newFacts() *Facts {
	return &Facts{truth: map[string]bool{}, eq: map[string]Val{}, neq: map[string]map[string]Val{}, dyn: map[string]types.Type{}, vals: map[string]Val{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.truth {
		n.truth[k] = v
	}
	for k, v := range f.eq {
		n.eq[k] = v
	}
	for k, v := range f.neq {
		m := map[string]Val{}
		for a, b := range v {
			m[a] = b
		}
		n.neq[k] = m
	}
	for k, v := range f.dyn {
		n.dyn[k] = v
	}
	for k, v := range f.vals {
		n.vals[k] = v
	}
	n.ineq = append([]Val{}, f.ineq...)
	n.order = append([]string{}, f.order...)
	n.gen = f.gen
	n.neqs = f.neqs[:len(f.neqs):len(f.neqs)]
	return n
}

var intT = types.Typ[types.Int]

// provesLE reports whether e <= 0 follows from the recorded inequalities
// (bounded affine combination: at most 3 facts, plus len(x) >= 0).
func (f *Facts) provesLE(e Val) bool {
	return f.proveDepth(e, 3)
}

func (f *Facts) proveDepth(e Val, depth int) bool {
	if c, ok := constInt(e); ok {
		return c <= 0
	}
	if f.sub(e) {
		return true
	}
	if depth == 0 {
		return false
	}
	// try to cancel one atom with a fact sharing it with the same sign
	_, atoms, coef, ok := linParts(e)
	if !ok {
		return false
	}
	for _, q := range f.ineq {
		_, qa, qc, _ := linParts(q)
		share := false
		for i, a := range atoms {
			for j, b := range qa {
				if coef[i] == qc[j] && a.Key() == b.Key() {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		d := linAdd(e, q, -1, intT) // e = q + d ; q<=0, need d<=0
		_, da, _, _ := linParts(d)
		if len(da) <= len(atoms)+1 && f.proveDepth(d, depth-1) {
			return true
		}
	}
	return false
}

// sub: e is a constant minus nonnegative atoms.
func (f *Facts) sub(e Val) bool {
	c, atoms, coef, ok := linParts(e)
	if !ok || c > 0 {
		return false
	}
	for i, a := range atoms {
		if coef[i] > 0 || !nonNeg(a) {
			return false
		}
	}
	return true
}

func nonNeg(a Val) bool {
	switch t := a.(type) {
	case *Term:
		if t.Op == "len" || t.Op == "replen" {
			return true
		}
		if t.Op == "conv" {
			if b, ok := typeOf(t.Args[0]).(types.Type); ok && b != nil {
				if bb, ok := b.Underlying().(*types.Basic); ok && bb.Info()&types.IsUnsigned != 0 && bb.Kind() != types.Uint64 && bb.Kind() != types.Uint && bb.Kind() != types.Uintptr {
					return true
				}
			}
		}
		if b, ok := t.T.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	case *Sym:
		if strings.HasPrefix(t.Name, "nn:") {
			return true
		}
	}
	return false
}

func (f *Facts) addLE(e Val) {
	if _, ok := constInt(e); ok {
		return
	}
	for _, q := range f.ineq {
		if q.Key() == e.Key() {
			return
		}
	}
	f.ineq = append(f.ineq, e)
	for _, d := range f.neqs {
		f.tighten(d, e)
	}
}

// tighten: d != 0 and d <= 0 give d+1 <= 0, likewise for -d; e is the fact
// just added.
func (f *Facts) tighten(d, e Val) {
	if e != nil {
		_, da, _, _ := linParts(d)
		_, ea, _, _ := linParts(e)
		share := false
		for _, a := range da {
			for _, b := range ea {
				if a.Key() == b.Key() {
					share = true
				}
			}
		}
		if !share {
			return
		}
	}
	one := mkInt(1, nil)
	for _, x := range []Val{d, linScale(d, -1, intT)} {
		if x1 := linAdd(x, one, 1, intT); f.provesLE(x) && !f.provesLE(x1) {
			f.addLE(x1)
		}
	}
}

// constOf resolves v to a constant if the facts pin it.
func (f *Facts) constOf(v Val) Val {
	if _, ok := v.(*Const); ok {
		return v
	}
	if c, ok := f.eq[v.Key()]; ok {
		return c
	}
	return v
}

type cond struct {
	op   string // "eq" "lt" (a<b) "le" (a<=b) "true"
	a, b Val
	neg  bool
}

func isConstV(v Val) bool { _, ok := v.(*Const); return ok }

// decide returns 1 true, 0 false, -1 unknown.
func (f *Facts) decide(c cond) int {
	r := f.decide0(c)
	if r >= 0 && c.neg {
		return 1 - r
	}
	return r
}

func (f *Facts) decide0(c cond) int {
	switch c.op {
	case "true":
		if b, ok := constBool(c.a); ok {
			return b2i(b)
		}
		if v, ok := f.truth[c.a.Key()]; ok {
			return b2i(v)
		}
	case "eq":
		if hasChr(c.a) || hasChr(c.b) {
			if r, open := f.eqStr(c.a, c.b); r >= 0 || open != nil {
				return r
			}
		}
		a, b := f.constOf(c.a), f.constOf(c.b)
		if a.Key() == b.Key() {
			if _, isf := a.(*FuncV); !isf {
				return 1
			}
		}
		ca, oka := a.(*Const)
		cb, okb := b.(*Const)
		if oka && okb {
			if ca.V == nil || cb.V == nil {
				return b2i(ca.V == nil && cb.V == nil)
			}
			if ca.V.Kind() == cb.V.Kind() || numeric(ca.V) && numeric(cb.V) {
				return b2i(constant.Compare(ca.V, tokEQL, cb.V))
			}
			return 0
		}
		// nil vs known non-nil
		if oka && ca.V == nil {
			if r := nonNil(b, f); r {
				return 0
			}
		}
		if okb && cb.V == nil {
			if r := nonNil(a, f); r {
				return 0
			}
		}
		if okb {
			if m, ok := f.neq[a.Key()]; ok {
				if _, ok := m[cb.Key()]; ok {
					return 0
				}
			}
		}
		if oka {
			if m, ok := f.neq[b.Key()]; ok {
				if _, ok := m[ca.Key()]; ok {
					return 0
				}
			}
		}
		if isLinType(typeOf(a)) || isLinType(typeOf(b)) || isChr(a) || isChr(b) {
			d := linAdd(chrAs(a, intT), chrAs(b, intT), -1, intT)
			if n, ok := constInt(d); ok {
				return b2i(n == 0)
			}
			if f.provesLE(linAdd(d, mkInt(1, nil), 1, intT)) || f.provesLE(linAdd(linScale(d, -1, intT), mkInt(1, nil), 1, intT)) {
				return 0
			}
			if f.provesLE(d) && f.provesLE(linScale(d, -1, intT)) {
				return 1
			}
		}
		// string with a constant non-empty part vs ""
		if okb && cb.V != nil && cb.V.Kind() == constant.String && constant.StringVal(cb.V) == "" {
			for _, p := range catParts(a) {
				if s, ok := constStr(p); ok && s != "" {
					return 0
				}
			}
		}
		if sa, ok := a.(*StructV); ok {
			if sb, ok := b.(*StructV); ok && len(sa.F) == len(sb.F) {
				all := 1
				for i := range sa.F {
					r := f.decide0(cond{op: "eq", a: sa.F[i], b: sb.F[i]})
					if r == 0 {
						return 0
					}
					if r < 0 {
						all = -1
					}
				}
				return all
			}
		}
		if ia, ok := a.(*IfaceV); ok {
			if ib, ok := b.(*IfaceV); ok {
				if !types.Identical(ia.Dyn, ib.Dyn) {
					return 0
				}
				return f.decide0(cond{op: "eq", a: ia.V, b: ib.V})
			}
		}
		if pa, ok := a.(*Ptr); ok {
			if pb, ok := b.(*Ptr); ok && pa.Cell != pb.Cell {
				return 0
			}
		}
		if v, ok := f.truth["eq("+a.Key()+","+b.Key()+")"]; ok {
			return b2i(v)
		}
		if v, ok := f.truth["eq("+b.Key()+","+a.Key()+")"]; ok {
			return b2i(v)
		}
	case "lt", "le":
		a, b := f.constOf(c.a), f.constOf(c.b)
		ca, oka := a.(*Const)
		cb, okb := b.(*Const)
		if oka && okb && ca.V != nil && cb.V != nil {
			if c.op == "lt" {
				return b2i(constant.Compare(ca.V, tokLSS, cb.V))
			}
			return b2i(constant.Compare(ca.V, tokLEQ, cb.V))
		}
		ta := typeOf(a)
		if ta == nil {
			ta = typeOf(b)
		}
		if bt, ok := und(ta).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			// a<b : a-b+1<=0 ; a<=b : a-b<=0
			d := linAdd(a, b, -1, intT)
			yes, no := d, linAdd(linScale(d, -1, intT), mkInt(1, nil), 1, intT)
			if c.op == "lt" {
				yes = linAdd(d, mkInt(1, nil), 1, intT)
				no = linScale(d, -1, intT)
			}
			if f.provesLE(yes) {
				return 1
			}
			if f.provesLE(no) {
				return 0
			}
		}
		if v, ok := f.truth[c.op+"("+a.Key()+","+b.Key()+")"]; ok {
			return b2i(v)
		}
	}
	return -1
}

func und(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func numeric(v constant.Value) bool {
	return v.Kind() == constant.Int || v.Kind() == constant.Float
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func nonNil(v Val, f *Facts) bool {
	switch v := v.(type) {
	case *Ptr, *SliceV, *MapRef, *FuncV, *StructV, *Seq:
		return true
	case *IfaceV:
		return true
	case *Term:
		if v.Op == "nonnil" || v.Op == "mkerr" {
			return true
		}
	case *Sym:
		// exported variables of the standard library are set
		for _, p := range []string{"base32.", "base64.", "io.", "hex.", "os.", "binary."} {
			if strings.HasPrefix(v.Name, "global:"+p) {
				return true
			}
		}
	}
	if m, ok := f.neq[v.Key()]; ok {
		if _, ok := m["nil"]; ok {
			return true
		}
	}
	if _, ok := f.dyn[v.Key()]; ok {
		return true
	}
	return false
}

// assume records c as true.
func (f *Facts) assume(c cond) {
	f.gen++
	f.order = append(f.order, c.String())
	a, b := c.a, c.b
	switch c.op {
	case "true":
		f.truth[a.Key()] = !c.neg
		f.vals[a.Key()] = a
		if t, ok := a.(*Term); ok && !c.neg && len(t.Args) == 2 && t.Op == "call" && (t.Extra == "strings.HasPrefix" || t.Extra == "strings.HasSuffix" || t.Extra == "strings.Contains") {
			if y, ok := constStr(t.Args[1]); ok { // then it is at least that long
				f.addLE(linAdd(mkInt(int64(len(y)), nil), &Term{Op: "len", Args: []Val{t.Args[0]}, T: intT}, -1, intT))
			}
		}
	case "eq":
		if hasChr(a) || hasChr(b) {
			if _, open := f.eqStr(a, b); open != nil {
				if !c.neg || len(open) == 1 {
					for _, p := range open {
						f.assume(cond{op: "eq", a: p[0], b: p[1], neg: c.neg})
					}
				}
				return
			}
		}
		a, b = f.constOf(a), f.constOf(b)
		if _, ok := a.(*Const); ok {
			a, b = b, a
		}
		f.vals[a.Key()] = a
		if _, ok := b.(*Const); ok {
			if c.neg {
				m := f.neq[a.Key()]
				if m == nil {
					m = map[string]Val{}
					f.neq[a.Key()] = m
				}
				m[b.Key()] = b
				if isInt(typeOf(a)) {
					// tighten: a != 0 and a >= 0 gives a >= 1
					if n, ok := constInt(b); ok {
						if f.provesLE(linAdd(mkInt(n, nil), a, -1, intT)) {
							f.addLE(linAdd(mkInt(n+1, nil), a, -1, intT))
						}
						if f.provesLE(linAdd(a, mkInt(n, nil), -1, intT)) {
							f.addLE(linAdd(a, mkInt(n-1, nil), -1, intT))
						}
					}
				}
			} else {
				f.eq[a.Key()] = b
				if isInt(typeOf(a)) {
					d := linAdd(a, b, -1, intT)
					f.addLE(d)
					f.addLE(linScale(d, -1, intT))
				}
			}
			return
		}
		f.truth["eq("+a.Key()+","+b.Key()+")"] = !c.neg
		f.vals[b.Key()] = b
		if isInt(typeOf(a)) {
			d := linAdd(a, b, -1, intT)
			if !c.neg {
				f.addLE(d)
				f.addLE(linScale(d, -1, intT))
			} else {
				f.tighten(d, nil)
				f.neqs = append(f.neqs, d)
			}
		}
	case "lt", "le":
		f.truth[c.op+"("+a.Key()+","+b.Key()+")"] = !c.neg
		if isInt(typeOf(a)) || isInt(typeOf(b)) {
			d := linAdd(a, b, -1, intT)
			switch {
			case c.op == "lt" && !c.neg:
				f.addLE(linAdd(d, mkInt(1, nil), 1, intT))
			case c.op == "lt" && c.neg:
				f.addLE(linScale(d, -1, intT))
			case c.op == "le" && !c.neg:
				f.addLE(d)
			default:
				f.addLE(linAdd(linScale(d, -1, intT), mkInt(1, nil), 1, intT))
			}
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c cond) String() string {
	n := ""
	if c.neg {
		n = "!"
	}
	if c.op == "true" {
		return n + c.a.Key()
	}
	return n + c.op + "(" + c.a.Key() + "," + c.b.Key() + ")"
}

// split runs fn for every way of deciding the conditions it asks for that is
// consistent with the facts.
func (f *Facts) split(fn func(fs *Facts, ask func(cond) bool)) {
	var script []bool
	for {
		fs := f.clone()
		n := 0
		fn(fs, func(c cond) bool {
			if r := fs.decide(c); r >= 0 {
				return r == 1
			}
			if n == len(script) {
				script = append(script, true)
			}
			v := script[n]
			n++
			if !v {
				c.neg = !c.neg
			}
			fs.assume(c)
			return v
		})
		script = script[:n]
		for len(script) > 0 && !script[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			return
		}
		script[len(script)-1] = false
	}
}
