package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- abstract JSON

// jv is an abstract JSON value: leaves are constants or arbitrary values.
type jv struct {
	K string // obj arr str num bool null bad
	N []string
	F map[string]*jv
	A []*jv
	V Val
	// results only: a sequence that is not fully known
	Open bool
}

func jo(kv ...any) *jv {
	o := &jv{K: "obj", F: map[string]*jv{}}
	for i := 0; i+1 < len(kv); i += 2 {
		o.set(kv[i].(string), kv[i+1].(*jv))
	}
	return o
}

func (o *jv) set(k string, v *jv) *jv {
	if _, ok := o.F[k]; !ok {
		o.N = append(o.N, k)
	}
	o.F[k] = v
	return o
}

func ja(vs ...*jv) *jv      { return &jv{K: "arr", A: vs} }
func js(s string) *jv       { return &jv{K: "str", V: mkStr(s)} }
func jsym(name string) *jv  { return &jv{K: "str", V: &Sym{Name: name, T: types.Typ[types.String]}} }
func jint(n int64) *jv      { return &jv{K: "num", V: mkInt(n, nil)} }
func jnum(name string) *jv  { return &jv{K: "num", V: &Sym{Name: name, T: intT}} }
func jbool(b bool) *jv      { return &jv{K: "bool", V: mkBool(b)} }
func jnull() *jv            { return &jv{K: "null"} }
func jbad() *jv             { return &jv{K: "bad"} }
func jbsym(name string) *jv { return &jv{K: "bool", V: &Sym{Name: name, T: types.Typ[types.Bool]}} }

func (o *jv) clone() *jv {
	if o == nil {
		return nil
	}
	n := *o
	n.F = map[string]*jv{}
	n.N = append([]string{}, o.N...)
	n.A = nil
	for k, v := range o.F {
		n.F[k] = v.clone()
	}
	for _, v := range o.A {
		n.A = append(n.A, v.clone())
	}
	return &n
}

// at follows object members.
func (o *jv) at(path ...string) *jv {
	for _, p := range path {
		if o == nil || o.K != "obj" {
			return nil
		}
		o = o.F[p]
	}
	return o
}

func (o *jv) String() string {
	if o == nil {
		return "absent"
	}
	switch o.K {
	case "obj":
		var p []string
		ks := append([]string{}, o.N...)
		sort.Strings(ks)
		for _, k := range ks {
			p = append(p, k+":"+o.F[k].String())
		}
		return "{" + strings.Join(p, ",") + "}"
	case "arr":
		var p []string
		for _, a := range o.A {
			p = append(p, a.String())
		}
		s := strings.Join(p, ",")
		if o.Open {
			s += "..."
		}
		return "[" + s + "]"
	case "null":
		return "null"
	case "bad":
		return "malformed"
	}
	if o.V == nil {
		return o.K
	}
	return o.V.Key()
}

func jsonName(f *types.Var, tag string) (name string, omit, skip bool) {
	t := reflect.StructTag(tag).Get("json")
	if t == "-" {
		return "", false, true
	}
	ps := strings.Split(t, ",")
	name = ps[0]
	if name == "" {
		name = f.Name()
	}
	for _, p := range ps[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	return name, omit, !f.Exported()
}

// decode models encoding/json decoding of j into a value of type t that
// currently is cur.
func (s *srv) decode(st *State, j *jv, t types.Type, cur Val) (Val, error) {
	bad := func() (Val, error) { return nil, fmt.Errorf("json: cannot decode %s into %s", j.K, typeName(t)) }
	if j.K == "bad" {
		return bad()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RawMessage" {
		return s.mark(st, j, t), nil
	}
	switch u := und(t).(type) {
	case *types.Pointer:
		if j.K == "null" {
			return zeroOf(t), nil
		}
		if p, ok := cur.(*Ptr); ok {
			v, err := s.decode(st, j, u.Elem(), s.in.load(st, p))
			if err != nil {
				return nil, err
			}
			s.in.store(st, p, v)
			return p, nil
		}
		v, err := s.decode(st, j, u.Elem(), zeroOf(u.Elem()))
		if err != nil {
			return nil, err
		}
		return &Ptr{Cell: s.in.alloc(st, v), T: t}, nil
	case *types.Interface:
		if iv, ok := cur.(*IfaceV); ok {
			if p, ok := iv.V.(*Ptr); ok && j.K != "null" {
				v, err := s.decode(st, j, typeOf(p), p)
				return &IfaceV{Dyn: iv.Dyn, V: v}, err
			}
		}
		switch j.K {
		case "null":
			return zeroOf(t), nil
		case "str":
			return &IfaceV{Dyn: types.Typ[types.String], V: j.V}, nil
		case "num":
			return &IfaceV{Dyn: types.Typ[types.Float64], V: &Sym{Name: "num:" + j.V.Key(), T: types.Typ[types.Float64]}}, nil
		case "bool":
			return &IfaceV{Dyn: types.Typ[types.Bool], V: j.V}, nil
		case "obj":
			return &IfaceV{Dyn: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), V: &Sym{Name: "obj:" + j.String(), T: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))}}, nil
		case "arr":
			return &IfaceV{Dyn: types.NewSlice(types.NewInterfaceType(nil, nil)), V: &Sym{Name: "arr:" + j.String(), T: types.NewSlice(types.NewInterfaceType(nil, nil))}}, nil
		}
		return bad()
	case *types.Struct:
		if j.K == "null" {
			return cur, nil
		}
		if j.K != "obj" {
			return bad()
		}
		c, ok := s.in.expand(st, cur).(*StructV)
		if !ok {
			return bad()
		}
		n := &StructV{T: c.T, F: append([]Val{}, c.F...)}
		for i := 0; i < u.NumFields(); i++ {
			name, _, skip := jsonName(u.Field(i), u.Tag(i))
			if skip {
				continue
			}
			m := j.F[name]
			if m == nil {
				for _, k := range j.N {
					if strings.EqualFold(k, name) {
						m = j.F[k]
					}
				}
			}
			if m == nil {
				continue
			}
			v, err := s.decode(st, m, u.Field(i).Type(), n.F[i])
			if err != nil {
				return nil, err
			}
			n.F[i] = v
		}
		return n, nil
	case *types.Slice:
		if j.K == "null" {
			return zeroOf(t), nil
		}
		if j.K != "arr" {
			return bad()
		}
		q := &Seq{T: u.Elem()}
		for _, a := range j.A {
			v, err := s.decode(st, a, u.Elem(), zeroOf(u.Elem()))
			if err != nil {
				return nil, err
			}
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: v})
		}
		return s.in.newSlice(st, q, t), nil
	case *types.Basic:
		if j.K == "null" {
			return cur, nil
		}
		want := ""
		switch {
		case u.Info()&types.IsString != 0:
			want = "str"
		case u.Info()&types.IsBoolean != 0:
			want = "bool"
		case u.Info()&types.IsNumeric != 0:
			want = "num"
		}
		if j.K != want {
			return bad()
		}
		if c, ok := j.V.(*Const); ok {
			return &Const{V: c.V, T: t}, nil
		}
		return retype(j.V, t), nil
	}
	return bad()
}

// mark returns bytes that stand for a JSON text.
func (s *srv) mark(st *State, j *jv, t types.Type) Val {
	return s.in.newSlice(st, s.markSeq(j, nil), t)
}

func (s *srv) markSeq(j *jv, n Val) *Seq {
	s.nmark++
	src := &Sym{Name: fmt.Sprintf("json@%d", s.nmark), T: types.Typ[types.String]}
	s.marks[src.Name] = j
	if n == nil {
		n = &Term{Op: "len", Args: []Val{src}, T: intT}
	}
	s.lens[src.Name] = n
	return &Seq{T: types.Typ[types.Uint8], Segs: []Seg{{Kind: SegChunk, Src: src, Lo: mkInt(0, nil), Hi: n}}}
}

// unmark finds the JSON text bytes or a string stand for.
func (s *srv) unmark(st *State, v Val) *jv {
	t := s.text(st, v)
	if t == nil {
		return nil
	}
	if y, ok := t.(*Sym); ok {
		return s.marks[y.Name]
	}
	return nil
}

// text renders bytes as a string value.
func (s *srv) text(st *State, v Val) Val {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	if t, ok := v.(*Term); ok && t.Op == "conv" && len(t.Args) == 1 {
		return s.text(st, t.Args[0])
	}
	if isStringT(typeOf(v)) {
		return v
	}
	q, ok := s.in.seqOf(st, v)
	if !ok {
		return nil
	}
	var ps []Val
	for _, g := range q.Segs {
		switch g.Kind {
		case SegElem:
			n, ok := constInt(g.V)
			if !ok {
				return nil
			}
			ps = append(ps, mkStr(string([]byte{byte(n)})))
		case SegChunk:
			n := Val(&Term{Op: "len", Args: []Val{g.Src}, T: intT})
			if l := s.lens[g.Src.Key()]; l != nil {
				n = l
			}
			if z, ok := constInt(g.Lo); !ok || z != 0 || g.Hi.Key() != n.Key() && g.Hi.Key() != s.in.lenOf(st, g.Src).Key() {
				return nil
			}
			ps = append(ps, g.Src)
		default:
			return nil
		}
	}
	return strCat(ps...)
}

// encode models encoding/json encoding.
func (s *srv) encode(st *State, v Val, t types.Type, d int) *jv {
	if d > 12 {
		return jbad()
	}
	if iv, ok := v.(*IfaceV); ok {
		return s.encode(st, iv.V, iv.Dyn, d+1)
	}
	if isNilConst(v) {
		switch und(t).(type) {
		case *types.Basic:
		default:
			return jnull()
		}
	}
	switch u := und(t).(type) {
	case *types.Pointer:
		p, ok := s.in.symPtr(st, v)
		if !ok {
			return jnull()
		}
		return s.encode(st, s.in.load(st, p), u.Elem(), d+1)
	case *types.Struct:
		c, ok := s.in.expand(st, v).(*StructV)
		if !ok {
			return &jv{K: "obj", V: v, Open: true, F: map[string]*jv{}}
		}
		o := jo()
		for i := 0; i < u.NumFields(); i++ {
			name, omit, skip := jsonName(u.Field(i), u.Tag(i))
			if skip {
				continue
			}
			f := c.F[i]
			ft := u.Field(i).Type()
			if omit {
				if isNilConst(f) {
					continue
				}
				if k, ok := f.(*Const); ok && k.Key() == zeroOf(ft).Key() {
					continue
				}
				if q, ok := f.(*SliceV); ok {
					if n, ok := constInt(s.in.lenOf(st, q)); ok && n == 0 {
						continue
					}
				}
			}
			o.set(name, s.encode(st, f, ft, d+1))
		}
		return o
	case *types.Slice:
		if isByteSlice(t) {
			return &jv{K: "str", V: v}
		}
		q, ok := s.in.seqOf(st, v)
		if !ok {
			return &jv{K: "arr", Open: true, V: v}
		}
		a := ja()
		for _, g := range q.Segs {
			if g.Kind != SegElem {
				a.Open = true
				continue
			}
			a.A = append(a.A, s.encode(st, g.V, u.Elem(), d+1))
		}
		return a
	case *types.Map:
		r, ok := v.(*MapRef)
		if !ok {
			return &jv{K: "obj", V: v, Open: true, F: map[string]*jv{}}
		}
		mc := st.get(r.Cell).(*MapC)
		o := jo()
		o.Open = mc.Base != nil
		for _, k := range mc.Keys {
			if e := mc.M[k.Key()]; e != nil {
				ks, ok := constStr(k)
				if !ok {
					ks = "$" + k.Key()
				}
				o.set(ks, s.encode(st, e, u.Elem(), d+1))
			}
		}
		return o
	case *types.Basic:
		v = st.facts.constOf(v)
		switch {
		case u.Info()&types.IsString != 0:
			return &jv{K: "str", V: v}
		case u.Info()&types.IsBoolean != 0:
			return &jv{K: "bool", V: v}
		default:
			return &jv{K: "num", V: v}
		}
	}
	return &jv{K: "any", V: v}
}

// ---------------------------------------------------------------- server harness

// msg is one incoming message.
type msg struct {
	Body *jv
	Len  string // "", "neg" (arbitrary length), "bad" (not a number), "short"
}

type srv struct {
	c     *Ctx
	in    *Interp
	pkg   string
	marks map[string]*jv
	nmark int
	lens  map[string]Val
	msgs  []msg
	progs map[string][][]tok // program per document text
	files map[string]string  // text per file

	concrete bool // tokens have concrete positions: one character after another
	indent   bool // lines have an arbitrary indentation, tokens a fixed distance
	flat     bool // with indent: no indentation
	traced   bool // the server traces to a file
}

// srvOut is one path through a session.
type srvOut struct {
	Out   Outcome
	Sent  []sentMsg
	Frame string // what is wrong with the framing
	In    *Interp
	S     *srv
}

type sentMsg struct {
	J     *jv
	After int // number of messages read before
}

const writerName = "bufio(w)"

// EOF is the error value for the end of the input.
func (s *srv) eof() Val {
	return &Sym{Name: "global:io.EOF", T: types.Universe.Lookup("error").Type()}
}

func errVal(what string, t types.Type) Val {
	return &Term{Op: "mkerr", Extra: what, T: t}
}

func (s *srv) nrecv(st *State) int {
	n := 0
	for e := st.ev; e != nil; e = e.prev {
		if e.e.Kind == "recv" {
			n++
		}
	}
	return n
}

func (s *srv) install() {
	in := s.in
	errT := types.Universe.Lookup("error").Type()
	nilErr := func() Val { return &Const{T: errT} }
	isW := func(v Val) bool {
		if iv, ok := v.(*IfaceV); ok {
			v = iv.V
		}
		return v.Key() == writerName || v.Key() == "w"
	}
	out := func(ctx *CallCtx, t Val) {
		if t == nil {
			in.incomplete("%s writes bytes that are not known", shortFn(ctx.Caller))
			t = in.fresh("bytes", types.Typ[types.String])
		}
		ctx.St.emit(Event{Kind: "out", Args: []Val{t}, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
	}
	hk := in.Hooks
	mime := func(ctx *CallCtx) ([]Outcome, bool) {
		k := s.nrecv(ctx.St)
		mt := ctx.Res.At(0).Type()
		if k >= len(s.msgs) {
			return ret(ctx.St, zeroOf(mt), s.eof()), true
		}
		ctx.St.emit(Event{Kind: "recv", Name: fmt.Sprint(k), Fn: ctx.Caller})
		switch s.msgs[k].Len {
		case "mime": // a malformed header
			return ret(ctx.St, zeroOf(mt), errVal("mime", errT)), true
		case "none": // a header without the length
			mc := &MapC{M: map[string]Val{}, T: mt}
			return ret(ctx.St, &MapRef{Cell: in.alloc(ctx.St, mc), T: mt}, nilErr()), true
		}
		q := &Seq{T: types.Typ[types.String], Segs: []Seg{{Kind: SegElem, V: &Sym{Name: fmt.Sprintf("clen_%d", k), T: types.Typ[types.String]}}}}
		key := mkStr("Content-Length")
		mc := &MapC{Keys: []Val{key}, M: map[string]Val{key.Key(): in.newSlice(ctx.St, q, types.NewSlice(types.Typ[types.String]))}, T: mt}
		return ret(ctx.St, &MapRef{Cell: in.alloc(ctx.St, mc), T: mt}, nilErr()), true
	}
	hk["(*net/textproto.Reader).ReadMIMEHeader"] = mime
	get := func(ctx *CallCtx) ([]Outcome, bool) {
		r := in.mapRef(ctx.St, ctx.Args[0])
		k, ok := constStr(ctx.Args[1])
		if r == nil || !ok {
			return nil, false
		}
		mc, ok := ctx.St.get(r.Cell).(*MapC)
		if !ok || mc.Base != nil {
			return nil, false
		}
		for _, kk := range mc.Keys {
			if n, ok := constStr(kk); ok && strings.EqualFold(n, k) {
				if q, ok := in.seqOf(ctx.St, mc.M[kk.Key()]); ok && len(q.Segs) > 0 && q.Segs[0].Kind == SegElem {
					return ret(ctx.St, q.Segs[0].V), true
				}
			}
		}
		return ret(ctx.St, mkStr("")), true
	}
	hk["(net/http.Header).Get"] = get
	hk["(net/textproto.MIMEHeader).Get"] = get
	set := func(ctx *CallCtx) ([]Outcome, bool) {
		r := in.mapRef(ctx.St, ctx.Args[0])
		if r == nil {
			return nil, false
		}
		mc, ok := ctx.St.get(r.Cell).(*MapC)
		if !ok {
			return nil, false
		}
		n := &MapC{Base: mc.Base, Keys: append([]Val{}, mc.Keys...), M: map[string]Val{}, T: mc.T}
		for a, b := range mc.M {
			n.M[a] = b
		}
		k := ctx.Args[1]
		if _, ok := n.M[k.Key()]; !ok {
			n.Keys = append(n.Keys, k)
		}
		n.M[k.Key()] = in.newSlice(ctx.St, &Seq{T: types.Typ[types.String], Segs: []Seg{{Kind: SegElem, V: ctx.Args[2]}}}, types.NewSlice(types.Typ[types.String]))
		ctx.St.heap[r.Cell] = n
		return ret(ctx.St), true
	}
	hk["(net/http.Header).Set"] = set
	hk["(net/textproto.MIMEHeader).Set"] = set
	hk["(net/http.Header).Add"] = set
	hk["(net/http.Header).Write"] = func(ctx *CallCtx) ([]Outcome, bool) {
		if !isW(ctx.Args[1]) {
			return nil, false
		}
		r := in.mapRef(ctx.St, ctx.Args[0])
		if r == nil {
			return nil, false
		}
		mc := ctx.St.get(r.Cell).(*MapC)
		for _, k := range mc.Keys {
			if q, ok := in.seqOf(ctx.St, mc.M[k.Key()]); ok {
				for _, g := range q.Segs {
					out(ctx, strCat(k, mkStr(": "), g.V, mkStr("\r\n")))
				}
			}
		}
		return ret(ctx.St, nilErr()), true
	}
	conv := func(ctx *CallCtx) ([]Outcome, bool) {
		if t, ok := constStr(ctx.Args[0]); ok && t == "" {
			return ret(ctx.St, zeroOf(ctx.Res.At(0).Type()), errVal("atoi", errT)), true
		}
		y, ok := ctx.Args[0].(*Sym)
		if t, isT := ctx.Args[0].(*Term); isT && len(t.Args) == 1 { // e.g. trimmed
			y, ok = t.Args[0].(*Sym)
		}
		if !ok || !strings.HasPrefix(y.Name, "clen_") {
			return nil, false
		}
		var k int
		fmt.Sscanf(y.Name, "clen_%d", &k)
		rt := ctx.Res.At(0).Type()
		n := &Sym{Name: fmt.Sprintf("n_%d", k), T: rt}
		switch s.msgs[k].Len {
		case "bad":
			return ret(ctx.St, zeroOf(rt), errVal("atoi", errT)), true
		case "neg":
			ctx.St.facts.assume(cond{op: "lt", a: n, b: mkInt(0, rt)})
		case "short":
			ctx.St.facts.assume(cond{op: "lt", a: mkInt(0, rt), b: n})
		default:
			// the body is not empty, unless it is no JSON
			var outs []Outcome
			if j := s.msgs[k].Body; j == nil || j.K == "bad" {
				outs = ret(ctx.St.clone(), mkInt(0, rt), nilErr())
			}
			ctx.St.facts.assume(cond{op: "lt", a: mkInt(0, rt), b: n})
			return append(ret(ctx.St, n, nilErr()), outs...), true
		}
		return ret(ctx.St, n, nilErr()), true
	}
	hk["strconv.Atoi"], hk["strconv.ParseInt"], hk["strconv.ParseUint"] = conv, conv, conv
	full := func(ctx *CallCtx) ([]Outcome, bool) {
		k := s.nrecv(ctx.St) - 1
		if k < 0 {
			return nil, false
		}
		if s.msgs[k].Len == "short" {
			return ret(ctx.St, in.fresh("n", intT), errVal("short", errT)), true
		}
		sl, ok := ctx.Args[1].(*SliceV)
		if !ok {
			in.incomplete("%s reads into bytes that are not known", shortFn(ctx.Caller))
			return ret(ctx.St, in.fresh("n", intT), nilErr()), true
		}
		n := in.lenOf(ctx.St, sl)
		want := &Sym{Name: fmt.Sprintf("n_%d", k), T: intT}
		j := s.msgs[k].Body
		if z, ok := constInt(n); ok && z == 0 && (j == nil || j.K == "bad") {
			// an empty body
		} else if stripConv(n).Key() != want.Key() {
			j = jbad() // not the whole message, or more than it
			ctx.St.emit(Event{Kind: "misread", Args: []Val{n}, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		}
		if z, ok := constInt(sl.Lo); !ok || z != 0 {
			in.incomplete("%s reads into a part of a buffer", shortFn(ctx.Caller))
		}
		ctx.St.heap[sl.Cell] = s.markSeq(j, n)
		ctx.St.emit(Event{Kind: "body", Name: fmt.Sprint(k), Fn: ctx.Caller})
		return ret(ctx.St, n, nilErr()), true
	}
	hk["io.ReadFull"] = full
	// a single Read may deliver a part of the message only; the next one the rest
	part := func(ctx *CallCtx) ([]Outcome, bool) {
		k := s.nrecv(ctx.St) - 1
		sl, ok := ctx.Args[1].(*SliceV)
		if k < 0 || !ok {
			return nil, false
		}
		want := &Sym{Name: fmt.Sprintf("n_%d", k), T: intT}
		got := &Sym{Name: fmt.Sprintf("part_%d", k), T: intT}
		parts, whole := 0, false
		for _, e := range ctx.St.Events() {
			if e.Name == fmt.Sprint(k) {
				parts += b2i(e.Kind == "part")
				whole = whole || e.Kind == "body"
			}
		}
		if s.msgs[k].Len == "short" || whole {
			return ret(ctx.St, mkInt(0, nil), s.eof()), true
		}
		if parts > 0 {
			rest := linAdd(want, got, -1, intT)
			if stripConv(in.lenOf(ctx.St, sl)).Key() != rest.Key() || stripConv(sl.Lo).Key() != got.Key() {
				in.incomplete("%s reads the rest of a message elsewhere", shortFn(ctx.Caller))
			}
			ctx.St.heap[sl.Cell] = s.markSeq(s.msgs[k].Body, want)
			ctx.St.emit(Event{Kind: "body", Name: fmt.Sprint(k), Fn: ctx.Caller})
			return ret(ctx.St, rest, nilErr()), true
		}
		st2 := ctx.St.clone()
		outs, ok := full(ctx)
		n := in.lenOf(st2, sl)
		if ok && stripConv(n).Key() == want.Key() {
			st2.facts.assume(cond{op: "lt", a: mkInt(0, intT), b: got})
			st2.facts.assume(cond{op: "lt", a: got, b: want})
			st2.emit(Event{Kind: "part", Name: fmt.Sprint(k), Fn: ctx.Caller})
			st2.heap[sl.Cell] = s.markSeq(jbad(), n)
			outs = append(outs, Outcome{St: st2, Kind: OutReturn, Vals: []Val{got, nilErr()}})
		}
		return outs, ok
	}
	hk["(*bufio.Reader).Read"], hk["(io.Reader).Read"] = part, part
	hk["io.ReadAtLeast"] = func(ctx *CallCtx) ([]Outcome, bool) {
		if stripConv(in.lenOf(ctx.St, ctx.Args[1])).Key() != stripConv(ctx.Args[2]).Key() {
			return nil, false
		}
		return full(ctx)
	}
	hk["io.LimitReader"] = func(ctx *CallCtx) ([]Outcome, bool) {
		return ret(ctx.St, &Term{Op: "limitreader", Args: ctx.Args[1:], T: ctx.Res.At(0).Type()}), true
	}
	hk["io.ReadAll"] = func(ctx *CallCtx) ([]Outcome, bool) {
		k := s.nrecv(ctx.St) - 1
		t, ok := ctx.Args[0].(*Term)
		if iv, isi := ctx.Args[0].(*IfaceV); isi {
			t, ok = iv.V.(*Term)
		}
		if !ok || t.Op != "limitreader" || k < 0 {
			in.incomplete("%s reads everything", shortFn(ctx.Caller))
			return nil, false
		}
		n := stripConv(t.Args[0])
		sl := in.newSlice(ctx.St, &Seq{T: types.Typ[types.Uint8], Segs: []Seg{{Kind: SegChunk, Src: in.fresh("body", types.Typ[types.String]), Lo: mkInt(0, nil), Hi: n}}}, ctx.Res.At(0).Type())
		if s.msgs[k].Len == "short" {
			ctx.St.heap[sl.Cell] = s.markSeq(jbad(), n)
			ctx.St.emit(Event{Kind: "body", Name: fmt.Sprint(k), Fn: ctx.Caller})
			return ret(ctx.St, sl, nilErr()), true
		}
		c2 := *ctx
		c2.Args = []Val{ctx.Args[0], sl}
		outs, ok := full(&c2)
		for i := range outs {
			outs[i].Vals = []Val{sl, nilErr()}
		}
		return outs, ok
	}
	hk["encoding/json.Unmarshal"] = func(ctx *CallCtx) ([]Outcome, bool) {
		j := s.unmark(ctx.St, ctx.Args[0])
		if z, ok := constInt(in.lenOf(ctx.St, ctx.Args[0])); ok && z == 0 {
			j = jbad()
		}
		if j == nil {
			in.incomplete("%s decodes bytes that are not known", shortFn(ctx.Caller))
			return nil, false
		}
		v := ctx.Args[1]
		iv, ok := v.(*IfaceV)
		if !ok {
			in.incomplete("%s decodes into a value that is not known", shortFn(ctx.Caller))
			return nil, false
		}
		p, ok := iv.V.(*Ptr)
		if !ok {
			return ret(ctx.St, errVal("json", errT)), true
		}
		st := ctx.St
		t := typeOf(p).Underlying().(*types.Pointer).Elem()
		nv, err := s.decode(st, j, t, in.load(st, p))
		if err != nil {
			return ret(st, errVal("json", errT)), true
		}
		in.store(st, p, nv)
		return ret(st, nilErr()), true
	}
	marshal := func(ctx *CallCtx) ([]Outcome, bool) {
		iv, ok := ctx.Args[0].(*IfaceV)
		var j *jv
		if !ok {
			if isNilConst(ctx.Args[0]) {
				j = jnull()
			} else {
				in.incomplete("%s encodes a value that is not known", shortFn(ctx.Caller))
				return nil, false
			}
		} else {
			j = s.encode(ctx.St, iv, iv.Dyn, 0)
		}
		return ret(ctx.St, s.mark(ctx.St, j, ctx.Res.At(0).Type()), nilErr()), true
	}
	hk["encoding/json.Marshal"] = marshal
	hk["encoding/json.MarshalIndent"] = marshal
	is := func(ctx *CallCtx) ([]Outcome, bool) {
		e := ctx.Args[0]
		for {
			t, ok := e.(*Term)
			if !ok || len(t.Args) == 0 || t.Op != "mkerr" && t.Op != "wrap" || t.Op == "mkerr" && t.Extra != "wrap" {
				break
			}
			e = t.Args[0]
		}
		return ret(ctx.St, mkBool(e.Key() == ctx.Args[1].Key())), true
	}
	hk["github.com/pkg/errors.Is"], hk["errors.Is"] = is, is
	hk["github.com/pkg/errors.Cause"] = func(ctx *CallCtx) ([]Outcome, bool) {
		e := ctx.Args[0]
		for {
			t, ok := e.(*Term)
			if !ok || len(t.Args) == 0 || t.Op != "wrap" && (t.Op != "mkerr" || t.Extra != "wrap") {
				return ret(ctx.St, e), true
			}
			e = t.Args[0]
		}
	}
	nw := func(ctx *CallCtx) ([]Outcome, bool) {
		a := ctx.Args[0]
		if iv, ok := a.(*IfaceV); ok {
			a = iv.V
		}
		y := &Sym{Name: "bufio(" + a.Key() + ")", T: ctx.Res.At(0).Type()}
		ctx.St.facts.assume(cond{op: "eq", a: y, b: &Const{T: y.T}, neg: true})
		return ret(ctx.St, y), true
	}
	hk["bufio.NewWriter"], hk["bufio.NewWriterSize"] = nw, nw
	made := func(ctx *CallCtx) ([]Outcome, bool) {
		if ctx.Res.Len() != 1 {
			return nil, false
		}
		t := ctx.Res.At(0).Type()
		v := in.fresh("new", t)
		ctx.St.facts.assume(cond{op: "eq", a: v, b: &Const{T: t}, neg: true})
		return ret(ctx.St, v), true
	}
	hk["bufio.NewReader"], hk["bufio.NewReaderSize"], hk["net/textproto.NewReader"] = made, made, made
	wr := func(ctx *CallCtx) ([]Outcome, bool) {
		if !isW(ctx.Args[0]) {
			vs := []Val{in.fresh("n", intT), nilErr()}
			return ret(ctx.St, vs[:ctx.Res.Len()]...), true
		}
		out(ctx, s.text(ctx.St, ctx.Args[1]))
		if ctx.Res.Len() == 1 {
			return ret(ctx.St, nilErr()), true
		}
		return ret(ctx.St, in.lenOf(ctx.St, ctx.Args[1]), nilErr()), true
	}
	hk["(*bufio.Writer).Write"], hk["(*bufio.Writer).WriteString"], hk["(io.Writer).Write"], hk["io.WriteString"] = wr, wr, wr, wr
	// bytes gathered before they are written
	hk["(*bytes.Buffer).Write"] = func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := in.symPtr(ctx.St, ctx.Args[0])
		t := s.text(ctx.St, ctx.Args[1])
		if !ok || t == nil {
			return nil, false
		}
		in.store(ctx.St, p, strCat(in.builderStr(ctx.St, p), s.unbytes(ctx.St, t)))
		return ret(ctx.St, in.lenOf(ctx.St, ctx.Args[1]), nilErr()), true
	}
	hk["(*bytes.Buffer).Bytes"] = func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := in.symPtr(ctx.St, ctx.Args[0])
		if !ok {
			return nil, false
		}
		rt := ctx.Res.At(0).Type()
		return ret(ctx.St, &Term{Op: "conv", Args: []Val{in.builderStr(ctx.St, p)}, T: rt, Extra: typeName(rt)}), true
	}
	drain := func(ctx *CallCtx, buf, w Val) ([]Outcome, bool) {
		if iv, ok := buf.(*IfaceV); ok {
			if typeFull(iv.Dyn) != "*bytes.Buffer" {
				return nil, false
			}
			buf = iv.V
		}
		p, ok := in.symPtr(ctx.St, buf)
		if !ok || !isW(w) {
			return nil, false
		}
		out(ctx, s.unbytes(ctx.St, in.builderStr(ctx.St, p)))
		in.store(ctx.St, p, mkStr(""))
		return ret(ctx.St, in.fresh("n", ctx.Res.At(0).Type()), nilErr()), true
	}
	hk["(*bytes.Buffer).WriteTo"] = func(ctx *CallCtx) ([]Outcome, bool) { return drain(ctx, ctx.Args[0], ctx.Args[1]) }
	hk["io.Copy"] = func(ctx *CallCtx) ([]Outcome, bool) { return drain(ctx, ctx.Args[1], ctx.Args[0]) }
	hk["(*bufio.Writer).Flush"] = func(ctx *CallCtx) ([]Outcome, bool) {
		if isW(ctx.Args[0]) {
			ctx.St.emit(Event{Kind: "flush", Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		}
		return ret(ctx.St, nilErr()), true
	}
	fp := func(ctx *CallCtx) ([]Outcome, bool) {
		if !isW(ctx.Args[0]) {
			return nil, false
		}
		if f, ok := constStr(ctx.Args[1]); ok && ctx.Name == "fmt.Fprintf" {
			if vs, ok := in.variadic(ctx.St, ctx.Args[2]); ok {
				out(ctx, s.unbytes(ctx.St, in.sprintf(ctx.St, f, vs)))
				return ret(ctx.St, in.fresh("n", intT), nilErr()), true
			}
		}
		out(ctx, nil)
		return ret(ctx.St, in.fresh("n", intT), nilErr()), true
	}
	hk["fmt.Fprintf"], hk["fmt.Fprint"], hk["fmt.Fprintln"] = fp, fp, fp
	// the output is standard output: nothing else may go there
	pr := func(ctx *CallCtx) ([]Outcome, bool) {
		ctx.St.emit(Event{Kind: "stdout", Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		return ret(ctx.St, in.fresh("n", intT), nilErr()), true
	}
	hk["fmt.Printf"], hk["fmt.Print"], hk["fmt.Println"] = pr, pr, pr
	hk["os.ReadFile"] = func(ctx *CallCtx) ([]Outcome, bool) {
		rt := ctx.Res.At(0).Type()
		ctx.St.emit(Event{Kind: "readfile", Args: ctx.Args, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		n, ok := constStr(ctx.Args[0])
		t, known := s.files[n]
		if !ok || !known {
			return ret(ctx.St, zeroOf(rt), errVal("readfile", errT)), true
		}
		y := &Sym{Name: t, T: types.Typ[types.String]}
		return ret(ctx.St, &Term{Op: "conv", Args: []Val{y}, T: rt, Extra: typeName(rt)}, nilErr()), true
	}
	// documents: the tokeniser is replaced by its result
	tz := map[*ssa.Function]bool{}
	for _, t := range s.c.tokenizers() {
		tz[t] = true
	}
	tt := s.c.P.Type("", "Token")
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		if !tz[ctx.Fn] {
			return nil, false
		}
		src := s.text(ctx.St, ctx.Args[0])
		var lines [][]tok
		known := false
		if src != nil {
			lines, known = s.progs[src.Key()]
		}
		if !known {
			in.incomplete("a text that is not known is processed: %s", ctx.Args[0].Key())
		}
		q, err := s.c.tokenSeqAt(in, ctx.St, lines, s.concrete, s.indent, s.flat)
		if err != nil {
			in.incomplete("%v", err)
		}
		sig := ctx.Fn.Signature
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			if sl, ok := rt.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tt) {
				vs = append(vs, in.newSlice(ctx.St, q, rt))
			} else {
				vs = append(vs, zeroOf(rt))
			}
		}
		return ret(ctx.St, vs...), true
	}
}

// unbytes removes formatting marks around texts.
func (s *srv) unbytes(st *State, v Val) Val {
	var ps []Val
	for _, p := range catParts(v) {
		if t, ok := p.(*Term); ok && t.Op == "fmt" && t.Extra == "s" && len(t.Args) == 1 {
			if x := s.text(st, t.Args[0]); x != nil {
				p = x
			}
		}
		ps = append(ps, p)
	}
	return strCat(ps...)
}

func (c *Ctx) tokenSeq(in *Interp, st *State, lines [][]tok) (*Seq, error) {
	return c.tokenSeqAt(in, st, lines, false, false, false)
}

// tokenSeqAt builds the tokens of a program. Their positions are arbitrary
// but in order within a line, or concrete.
func (c *Ctx) tokenSeqAt(in *Interp, st *State, lines [][]tok, concrete, indent, flat bool) (*Seq, error) {
	tt := c.P.Type("", "Token")
	bi, ei := -1, -1
	if tt != nil && (concrete || indent) {
		bi, ei = c.accessorField(tt, "Begin"), c.accessorField(tt, "End")
		if bi < 0 || ei < 0 {
			return nil, fmt.Errorf("the position of a token is not stored in it")
		}
	}
	q := &Seq{T: c.P.Type("", "Token")}
	for li, l := range lines {
		col := int64(0)
		for k, t := range l {
			v, err := c.tokenVal(in, st, t, li, k)
			if err != nil {
				return q, err
			}
			if concrete {
				sv := v.(*StructV)
				w := int64(len(t.Text))
				if t.Sym != "" {
					w = 5
				}
				sv.F[bi] = mkInt(col, typeOf(sv.F[bi]))
				sv.F[ei] = mkInt(col+w, typeOf(sv.F[ei]))
				col += w + 1
			} else if indent {
				sv := v.(*StructV)
				var y Val = indentOf(li)
				if flat {
					y = mkInt(0, intT)
				}
				if k == 0 {
					st.facts.assume(cond{op: "le", a: mkInt(0, intT), b: y})
				}
				b, e := tokCols(l, k)
				sv.F[bi] = linAdd(y, mkInt(b, intT), 1, intT)
				sv.F[ei] = linAdd(y, mkInt(e, intT), 1, intT)
			}
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: v})
		}
		if li < len(lines)-1 {
			v, err := c.tokenVal(in, st, tok{Kind: "eol", Text: "\n"}, li, len(l))
			if err != nil {
				return q, err
			}
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: v})
		}
	}
	return q, nil
}

// indentOf is the arbitrary indentation of a line.
func indentOf(line int) Val { return &Sym{Name: fmt.Sprintf("ind%d", line), T: intT} }

// tokCols are the columns of a token relative to the indentation.
func tokCols(l []tok, k int) (int64, int64) {
	col := int64(0)
	for i := 0; ; i++ {
		w := int64(len(l[i].Text))
		if l[i].Sym != "" {
			w = 5
		}
		if l[i].Kind == "comment" {
			w += 2
		}
		if i == k {
			return col, col + w
		}
		col += w + 2
	}
}

// serve analyses a whole session: New, then Run on the given messages up to
// the end of the input.
func (c *Ctx) serve(pkg string, msgs []msg, progs map[string][][]tok, files map[string]string, setup func(s *srv)) ([]srvOut, *Interp, error) {
	nf := c.P.Func(pkg, "New")
	if nf == nil {
		return nil, nil, fmt.Errorf("%s.New not found", pkg)
	}
	in := c.NewAnalysis(allGlobals)
	in.ForkPanics = true
	in.Unroll = true
	s := &srv{c: c, in: in, pkg: pkg, marks: map[string]*jv{}, lens: map[string]Val{}, msgs: msgs, progs: progs, files: files}
	s.install()
	if setup != nil {
		setup(s)
	}
	st := in.NewState()
	args := []Val{}
	for i := 0; i < nf.Signature.Params().Len(); i++ {
		t := nf.Signature.Params().At(i).Type()
		switch i {
		case 0:
			args = append(args, &Sym{Name: "r", T: t})
		case 1:
			args = append(args, &Sym{Name: "w", T: t})
		default:
			args = append(args, zeroOf(t))
		}
	}
	st.facts.assume(cond{op: "eq", a: args[0], b: &Const{T: typeOf(args[0])}, neg: true})
	st.facts.assume(cond{op: "eq", a: args[1], b: &Const{T: typeOf(args[1])}, neg: true})
	st.facts.assume(cond{op: "eq", a: s.eof(), b: &Const{T: typeOf(s.eof())}, neg: true})
	var res []srvOut
	if wd := c.P.Func(pkg, "WithDebug"); s.traced && wd != nil && len(args) == 3 {
		t := wd.Signature.Params().At(0).Type()
		f := &Sym{Name: "tracefile", T: t}
		st.facts.assume(cond{op: "eq", a: f, b: &Const{T: t}, neg: true})
		os := in.Call(st, wd, []Val{f}, nil, 0)
		if len(os) != 1 || os[0].Kind != OutReturn {
			return nil, in, fmt.Errorf("WithDebug does not give an option")
		}
		st = os[0].St
		args[2] = in.newSlice(st, &Seq{T: elemType(typeOf(args[2])), Segs: []Seg{{Kind: SegElem, V: os[0].Vals[0]}}}, typeOf(args[2]))
	}
	for _, o := range in.Call(st, nf, args, nil, 0) {
		if o.Kind != OutReturn {
			if o.Kind == OutPanic {
				return nil, in, fmt.Errorf("New can panic")
			}
			continue
		}
		if len(o.Vals) == 2 && !isNilConst(o.Vals[1]) {
			continue
		}
		p, ok := o.Vals[0].(*Ptr)
		if !ok {
			return nil, in, fmt.Errorf("New does not return a server")
		}
		run := c.P.Method(typeOf(p).Underlying().(*types.Pointer).Elem(), "Run")
		if run == nil {
			return nil, in, fmt.Errorf("the server has no method Run")
		}
		for _, ro := range in.Call(o.St, run, []Val{p}, nil, 0) {
			if ro.Kind == OutLoop {
				continue
			}
			so := srvOut{Out: ro, In: in, S: s}
			s.frames(&so)
			res = append(res, so)
		}
	}
	if len(res) == 0 {
		return nil, in, fmt.Errorf("the session has no outcome")
	}
	return res, in, nil
}

// frames splits the output into framed messages.
func (s *srv) frames(o *srvOut) {
	recv := 0
	var cur Val = mkStr("")
	for _, e := range o.Out.St.Events() {
		switch e.Kind {
		case "recv":
			recv++
		case "misread":
			o.Frame = fmt.Sprintf("a body of %s bytes is read instead of the announced number", e.Args[0].Key())
		case "stdout":
			o.Frame = fmt.Sprintf("%s writes to standard output, which carries the messages", shortFn(e.Fn))
			return
		case "out":
			cur = strCat(cur, e.Args[0])
		case "flush":
			for {
				ps := catParts(cur)
				if len(ps) == 1 {
					if c, ok := constStr(ps[0]); ok && c == "" {
						break
					}
				}
				if len(ps) < 4 {
					o.Frame = "an incomplete frame is written: " + cur.Key()
					return
				}
				a, _ := constStr(ps[0])
				b, _ := constStr(ps[2])
				y, ok := ps[3].(*Sym)
				if a != "Content-Length: " || b != "\r\n\r\n" || !ok || s.marks[y.Name] == nil {
					o.Frame = "a malformed frame is written: " + cur.Key()
					return
				}
				want := fmtPart("d", &IfaceV{Dyn: intT, V: &Term{Op: "len", Args: []Val{y}, T: intT}})
				if ps[1].Key() != want.Key() {
					o.Frame = "the announced length is " + ps[1].Key() + " instead of " + want.Key()
					return
				}
				o.Sent = append(o.Sent, sentMsg{J: s.marks[y.Name], After: recv})
				cur = strCat(ps[4:]...)
				if len(ps) == 4 {
					cur = mkStr("")
					break
				}
			}
		}
	}
	if c, ok := constStr(cur); !ok || c != "" {
		o.Frame = "written bytes are never flushed"
	}
}

// serverFn finds a method of the server for reports.
func (c *Ctx) serverFn(pkg, name string) *ssa.Function {
	nf := c.P.Func(pkg, "New")
	if nf == nil || nf.Signature.Results().Len() == 0 {
		return nf
	}
	t := nf.Signature.Results().At(0).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if m := c.P.Method(t, name); m != nil {
		return m
	}
	return c.P.Method(t, "Run")
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
