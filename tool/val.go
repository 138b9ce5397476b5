package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Every value has a canonical key; equal keys mean
// "the same abstract value".
type Val interface{ Key() string }

// Const is a compile-time constant; V == nil is the zero value of a nilable type.
type Const struct {
	V constant.Value
	T types.Type
	k string
}

func (c *Const) Key() string {
	if c.k == "" {
		if c.V == nil {
			c.k = "nil"
		} else {
			c.k = c.V.ExactString()
		}
	}
	return c.k
}

// Sym is an opaque value identified by where it came from.
type Sym struct {
	Name string
	T    types.Type
}

func (s *Sym) Key() string { return s.Name }

// Term is an uninterpreted application.
type Term struct {
	Op    string
	Extra string
	Args  []Val
	T     types.Type
	k     string
}

func (t *Term) Key() string {
	if t.k == "" {
		var b strings.Builder
		b.WriteString(t.Op)
		if t.Extra != "" {
			b.WriteString(":" + t.Extra)
		}
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte(')')
		t.k = b.String()
	}
	return t.k
}

// Lin is an affine integer expression (type int; wrap-around not modelled).
type Lin struct {
	C     int64
	Atoms []Val
	Coef  []int64
	T     types.Type
	k     string
}

func (l *Lin) Key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteString("[")
		for i, a := range l.Atoms {
			fmt.Fprintf(&b, "%+d*%s", l.Coef[i], a.Key())
		}
		fmt.Fprintf(&b, "%+d]", l.C)
		l.k = b.String()
	}
	return l.k
}

type StructV struct {
	T types.Type
	F []Val
	k string
}

func (s *StructV) Key() string {
	if s.k == "" {
		var b strings.Builder
		b.WriteString(typeName(s.T) + "{")
		for i, a := range s.F {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte('}')
		s.k = b.String()
	}
	return s.k
}

type Step struct {
	Field int
	Idx   Val // non-nil: index step
}

type Ptr struct {
	Cell int
	Path []Step
	T    types.Type // pointer type
	k    string
}

func (p *Ptr) Key() string {
	if p.k == "" {
		var b strings.Builder
		fmt.Fprintf(&b, "&%d", p.Cell)
		for _, s := range p.Path {
			if s.Idx != nil {
				b.WriteString("[" + s.Idx.Key() + "]")
			} else {
				fmt.Fprintf(&b, ".%d", s.Field)
			}
		}
		p.k = b.String()
	}
	return p.k
}

// Seq is the content of a slice/array backing store.
type Seg struct {
	Kind   int // 0 elem, 1 chunk, 2 rep
	V      Val // elem
	Src    Val // chunk source
	Lo, Hi Val // chunk bounds
	Alts   [][]Val
	Loop   string
	LenV   Val // rep length
}

const (
	SegElem = iota
	SegChunk
	SegRep
)

type Seq struct {
	T    types.Type // element type
	Segs []Seg
	k    string
}

func (s *Seq) Key() string {
	if s.k == "" {
		var b strings.Builder
		b.WriteString("<")
		for i, g := range s.Segs {
			if i > 0 {
				b.WriteByte(';')
			}
			switch g.Kind {
			case SegElem:
				b.WriteString(g.V.Key())
			case SegChunk:
				b.WriteString(g.Src.Key() + "[" + g.Lo.Key() + ":" + g.Hi.Key() + "]")
			case SegRep:
				b.WriteString("rep{" + g.Loop)
				for _, a := range g.Alts {
					b.WriteString("|" + keys(a))
				}
				b.WriteString("}")
			}
		}
		b.WriteString(">")
		s.k = b.String()
	}
	return s.k
}

func keys(vs []Val) string {
	ks := make([]string, len(vs))
	for i, v := range vs {
		if v == nil {
			ks[i] = "<nil>"
		} else {
			ks[i] = v.Key()
		}
	}
	return strings.Join(ks, ",")
}

type SliceV struct {
	Cell   int
	Lo, Hi Val
	T      types.Type
	Alias  []int // other backing cells this slice may share storage with
	Cap    Val   // end of the capacity, nil if unknown
	k      string
}

func (s *SliceV) Key() string {
	if s.k == "" {
		s.k = fmt.Sprintf("slice%d[%s:%s]", s.Cell, s.Lo.Key(), s.Hi.Key())
		if s.Cap != nil {
			s.k += "cap" + s.Cap.Key()
		}
	}
	return s.k
}

type MapRef struct {
	Cell int
	T    types.Type
}

func (m *MapRef) Key() string { return fmt.Sprintf("map%d", m.Cell) }

type MapC struct {
	Base Val // nil: fully known
	Keys []Val
	M    map[string]Val
	T    types.Type
	k    string
}

func (m *MapC) Key() string {
	if m.k == "" {
		var b strings.Builder
		b.WriteString("mapc{")
		if m.Base != nil {
			b.WriteString(m.Base.Key())
		}
		for _, k := range m.Keys {
			b.WriteString("|" + k.Key() + "=")
			if v := m.M[k.Key()]; v != nil {
				b.WriteString(v.Key())
			} else {
				b.WriteString("<deleted>")
			}
		}
		b.WriteString("}")
		m.k = b.String()
	}
	return m.k
}

type IfaceV struct {
	Dyn types.Type
	V   Val
	k   string
}

func (i *IfaceV) Key() string {
	if i.k == "" {
		i.k = "iface<" + typeName(i.Dyn) + ">" + i.V.Key()
	}
	return i.k
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	k    string
}

func (f *FuncV) Key() string {
	if f.k == "" {
		f.k = "func " + f.Fn.String() + "(" + keys(f.Bind) + ")"
	}
	return f.k
}

type BuiltinV struct{ B *ssa.Builtin }

func (f *BuiltinV) Key() string { return "builtin " + f.B.Name() }

type Tuple struct{ V []Val }

func (t *Tuple) Key() string { return "(" + keys(t.V) + ")" }

// ---------------------------------------------------------------- helpers

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == repoPath {
			return ""
		}
		return p.Name()
	})
}

func mkInt(n int64, t types.Type) Val {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return &Const{V: constant.MakeInt64(n), T: t}
}
func mkStr(s string) Val {
	return &Const{V: constant.MakeString(s), T: types.Typ[types.String]}
}
func mkBool(b bool) Val {
	return &Const{V: constant.MakeBool(b), T: types.Typ[types.Bool]}
}

func constStr(v Val) (string, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil || c.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.V), true
}
func constInt(v Val) (int64, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil || c.V.Kind() != constant.Int {
		return 0, false
	}
	n, ex := constant.Int64Val(c.V)
	return n, ex
}
func constBool(v Val) (bool, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil || c.V.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.V), true
}
func isNilConst(v Val) bool {
	c, ok := v.(*Const)
	return ok && c.V == nil
}

func typeOf(v Val) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.T
	case *Sym:
		return v.T
	case *Term:
		return v.T
	case *Lin:
		return v.T
	case *StructV:
		return v.T
	case *Ptr:
		return v.T
	case *SliceV:
		return v.T
	case *MapRef:
		return v.T
	case *FuncV:
		return v.Fn.Signature
	case *IfaceV:
		return nil
	}
	return nil
}

func isLinType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

// linParts decomposes v as an affine expression.
func linParts(v Val) (int64, []Val, []int64, bool) {
	switch v := v.(type) {
	case *Const:
		n, ok := constInt(v)
		return n, nil, nil, ok
	case *Lin:
		return v.C, v.Atoms, v.Coef, true
	default:
		return 0, []Val{v}, []int64{1}, true
	}
}

func linAdd(a, b Val, kb int64, t types.Type) Val {
	ca, aa, fa, ok1 := linParts(a)
	cb, ab, fb, ok2 := linParts(b)
	if !ok1 || !ok2 {
		return &Term{Op: "+", Args: []Val{a, b}, T: t}
	}
	m := map[string]int64{}
	at := map[string]Val{}
	for i, x := range aa {
		m[x.Key()] += fa[i]
		at[x.Key()] = x
	}
	for i, x := range ab {
		m[x.Key()] += kb * fb[i]
		at[x.Key()] = x
	}
	var ks []string
	for k, c := range m {
		if c != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	c := ca + kb*cb
	if len(ks) == 0 {
		return mkInt(c, t)
	}
	if len(ks) == 1 && m[ks[0]] == 1 && c == 0 {
		return at[ks[0]]
	}
	l := &Lin{C: c, T: t}
	for _, k := range ks {
		l.Atoms = append(l.Atoms, at[k])
		l.Coef = append(l.Coef, m[k])
	}
	return l
}

func linScale(a Val, k int64, t types.Type) Val {
	return linAdd(mkInt(0, t), a, k, t)
}

// linDiff returns a-b if it is a constant.
func linDiff(a, b Val) (int64, bool) {
	return constInt(linAdd(a, b, -1, types.Typ[types.Int]))
}

// ---------------------------------------------------------------- strings

func catParts(v Val) []Val {
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		return t.Args
	}
	if s, ok := constStr(v); ok && s == "" {
		return nil
	}
	return []Val{v}
}

func strCat(vs ...Val) Val {
	var parts []Val
	for _, v := range vs {
		for _, p := range catParts(v) {
			if len(parts) > 0 {
				if a, ok := constStr(parts[len(parts)-1]); ok {
					if b, ok := constStr(p); ok {
						parts[len(parts)-1] = mkStr(a + b)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return mkStr("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return &Term{Op: "cat", Args: parts, T: types.Typ[types.String]}
}

// ---------------------------------------------------------------- seq

func seqLen(s *Seq) Val {
	var n Val = mkInt(0, nil)
	it := types.Typ[types.Int]
	for _, g := range s.Segs {
		switch g.Kind {
		case SegElem:
			n = linAdd(n, mkInt(1, nil), 1, it)
		case SegChunk:
			n = linAdd(linAdd(n, g.Hi, 1, it), g.Lo, -1, it)
		case SegRep:
			n = linAdd(n, g.LenV, 1, it)
		}
	}
	return n
}

func segLen(g Seg) Val {
	it := types.Typ[types.Int]
	switch g.Kind {
	case SegElem:
		return mkInt(1, nil)
	case SegChunk:
		return linAdd(g.Hi, g.Lo, -1, it)
	default:
		return g.LenV
	}
}

// seqLocate finds the segment containing position pos: from the front, then
// from the back (positions relative to the end of a symbolic prefix). It
// assumes pos is in bounds.
func seqLocate(s *Seq, pos Val) (seg int, off Val, ok bool) {
	it := types.Typ[types.Int]
	var at Val = mkInt(0, nil)
	// front
	for i, g := range s.Segs {
		d := linAdd(pos, at, -1, it) // offset in this segment
		n := segLen(g)
		if dc, isc := constInt(d); isc {
			if nc, isn := constInt(n); isn {
				if dc < nc {
					return i, d, true
				}
			} else {
				if dc < 0 {
					return 0, nil, false
				}
				// symbolic-length segment: only sure when it is the last one
				if i == len(s.Segs)-1 && g.Kind == SegChunk {
					return i, d, true
				}
				break
			}
		} else if g.Kind == SegChunk {
			// is pos before the end of this chunk? pos - (at+n) constant and <0
			if e, isc := linDiff(pos, linAdd(at, n, 1, it)); isc {
				if e < 0 {
					return i, d, true
				}
			} else if i == len(s.Segs)-1 {
				return i, d, true
			} else {
				break
			}
		}
		at = linAdd(at, n, 1, it)
	}
	// back
	end := seqLen(s)
	for i := len(s.Segs) - 1; i >= 0; i-- {
		g := s.Segs[i]
		n := segLen(g)
		start := linAdd(end, n, -1, it)
		d, isc := linDiff(pos, start)
		if isc && d >= 0 {
			return i, mkInt(d, nil), true
		}
		if !isc && g.Kind == SegChunk && i == 0 {
			return i, linAdd(pos, start, -1, it), true
		}
		if !isc && g.Kind != SegElem {
			return 0, nil, false
		}
		end = start
	}
	return 0, nil, false
}

func chunkAt(g Seg, off Val, et types.Type) Val {
	it := types.Typ[types.Int]
	p := linAdd(g.Lo, off, 1, it)
	if t, ok := g.Src.(*Term); ok && t.Op == "upd" {
		if t.Args[1].Key() == p.Key() {
			return t.Args[2]
		}
	}
	if s, ok := g.Src.(*Sym); ok && s.Name == "zero" {
		return zeroOf(et)
	}
	return &Term{Op: "index", Args: []Val{g.Src, p}, T: et}
}

func seqGet(s *Seq, pos Val) Val {
	if i, off, ok := seqLocate(s, pos); ok {
		g := s.Segs[i]
		switch g.Kind {
		case SegElem:
			return g.V
		case SegChunk:
			return chunkAt(g, off, s.T)
		}
	}
	// generic: the only content is a repetition with a single one-element alternative
	if len(s.Segs) == 1 && s.Segs[0].Kind == SegRep && len(s.Segs[0].Alts) > 0 {
		a := s.Segs[0].Alts
		last := a[len(a)-1]
		if len(last) == 1 {
			return &Term{Op: "repelem", Args: []Val{last[0], pos}, T: s.T}
		}
	}
	return &Term{Op: "index", Args: []Val{s, pos}, T: s.T}
}

func seqSet(s *Seq, pos Val, v Val) *Seq {
	it := types.Typ[types.Int]
	out := &Seq{T: s.T}
	if i, off, ok := seqLocate(s, pos); ok {
		g := s.Segs[i]
		out.Segs = append(out.Segs, s.Segs[:i]...)
		switch g.Kind {
		case SegElem:
			out.Segs = append(out.Segs, Seg{Kind: SegElem, V: v})
		case SegChunk:
			p := linAdd(g.Lo, off, 1, it)
			if d, c := linDiff(p, g.Lo); !(c && d == 0) {
				out.Segs = append(out.Segs, Seg{Kind: SegChunk, Src: g.Src, Lo: g.Lo, Hi: p})
			}
			out.Segs = append(out.Segs, Seg{Kind: SegElem, V: v})
			p1 := linAdd(p, mkInt(1, nil), 1, it)
			if d, c := linDiff(g.Hi, p1); !(c && d == 0) {
				out.Segs = append(out.Segs, Seg{Kind: SegChunk, Src: g.Src, Lo: p1, Hi: g.Hi})
			}
		default:
			return seqUpd(s, pos, v)
		}
		out.Segs = append(out.Segs, s.Segs[i+1:]...)
		return out
	}
	return seqUpd(s, pos, v)
}

func seqUpd(s *Seq, pos, v Val) *Seq {
	var src Val = s
	if len(s.Segs) == 1 && s.Segs[0].Kind == SegChunk {
		if c, ok := constInt(s.Segs[0].Lo); ok && c == 0 {
			src = s.Segs[0].Src
		}
	}
	return &Seq{T: s.T, Segs: []Seg{{Kind: SegChunk, Src: &Term{Op: "upd", Args: []Val{src, pos, v}}, Lo: mkInt(0, nil), Hi: seqLen(s)}}}
}

// seqSub is the sub-sequence [lo,hi).
func seqSub(s *Seq, lo, hi Val) *Seq {
	it := types.Typ[types.Int]
	if c, ok := constInt(lo); ok && c == 0 {
		if d, ok := linDiff(hi, seqLen(s)); ok && d == 0 {
			return s
		}
	}
	out := &Seq{T: s.T}
	var at Val = mkInt(0, nil)
	started := false
	done := false
	for i, g := range s.Segs {
		n := segLen(g)
		end := linAdd(at, n, 1, it)
		from, to := mkInt(0, nil), n
		if !started {
			if d, ok := linDiff(lo, end); ok && d >= 0 && !(d == 0 && i == len(s.Segs)-1) {
				at = end
				continue
			}
			from = linAdd(lo, at, -1, it)
			started = true
		}
		last := false
		if d, ok := linDiff(hi, end); ok && d >= 0 {
			to = n
			last = d == 0
		} else if ok { // hi before the end of this segment
			to = linAdd(hi, at, -1, it)
			last = true
		} else if i == len(s.Segs)-1 || g.Kind == SegChunk && i == 0 && len(s.Segs) == 1 {
			to = linAdd(hi, at, -1, it)
			last = true
		} else {
			return &Seq{T: s.T, Segs: []Seg{{Kind: SegChunk, Src: s, Lo: lo, Hi: hi}}}
		}
		switch g.Kind {
		case SegElem:
			f, okf := constInt(from)
			t, okt := constInt(to)
			if !okf || !okt {
				return &Seq{T: s.T, Segs: []Seg{{Kind: SegChunk, Src: s, Lo: lo, Hi: hi}}}
			}
			if f <= 0 && t >= 1 {
				out.Segs = append(out.Segs, g)
			}
		case SegChunk:
			nlo := linAdd(g.Lo, from, 1, it)
			nhi := linAdd(g.Lo, to, 1, it)
			if d, ok := linDiff(nhi, nlo); !(ok && d <= 0) {
				out.Segs = append(out.Segs, Seg{Kind: SegChunk, Src: g.Src, Lo: nlo, Hi: nhi})
			}
		default:
			if c, ok := constInt(from); ok && c == 0 && to.Key() == n.Key() {
				out.Segs = append(out.Segs, g)
			} else {
				return &Seq{T: s.T, Segs: []Seg{{Kind: SegChunk, Src: s, Lo: lo, Hi: hi}}}
			}
		}
		at = end
		if last {
			done = true
			break
		}
	}
	_ = done
	return out
}

func zeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Const{V: constant.MakeBool(false), T: t}
		case u.Info()&types.IsInteger != 0:
			return &Const{V: constant.MakeInt64(0), T: t}
		case u.Info()&types.IsFloat != 0:
			return &Const{V: constant.MakeFloat64(0), T: t}
		case u.Info()&types.IsString != 0:
			return &Const{V: constant.MakeString(""), T: t}
		}
		return &Const{T: t}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroOf(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 300 && u.Len() >= 0 {
			sq := &Seq{T: u.Elem()}
			if u.Len() > 300 {
				sq.Segs = []Seg{{Kind: SegChunk, Src: &Sym{Name: "zero"}, Lo: mkInt(0, nil), Hi: mkInt(u.Len(), nil)}}
				return sq
			}
			for i := int64(0); i < u.Len(); i++ {
				sq.Segs = append(sq.Segs, Seg{Kind: SegElem, V: zeroOf(u.Elem())})
			}
			return sq
		}
		return &Seq{T: u.Elem(), Segs: []Seg{{Kind: SegChunk, Src: &Sym{Name: "zero"}, Lo: mkInt(0, nil), Hi: mkInt(u.Len(), nil)}}}
	case *types.Tuple:
		tu := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tu.V = append(tu.V, zeroOf(u.At(i).Type()))
		}
		return tu
	}
	return &Const{T: t}
}

var _ = token.NoPos
