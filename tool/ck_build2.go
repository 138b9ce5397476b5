package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- P35

// builder calls the exported constructors of the expression API.
type builder struct {
	c   *Ctx
	in  *Interp
	st  *State
	err error
}

func (c *Ctx) newBuilder() *builder {
	in := c.NewAnalysis(allGlobals)
	in.Unroll, in.Exact, in.NoSummary, in.MaxVisits = true, true, true, 4000
	return &builder{c: c, in: in, st: in.NewState()}
}

// boxed wraps a value for an interface parameter.
func boxed(v Val, t types.Type) Val {
	if _, isI := t.Underlying().(*types.Interface); !isI {
		return v
	}
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	return &IfaceV{Dyn: typeOf(v), V: v}
}

func (b *builder) call(name string, args ...Val) Val {
	if b.err != nil {
		return nil
	}
	fn := b.c.P.Func("", name)
	if fn == nil {
		b.err = fmt.Errorf("%s not found", name)
		return nil
	}
	return b.run(fn, name, args...)
}

func (b *builder) run(fn *ssa.Function, name string, args ...Val) Val {
	if b.err != nil {
		return nil
	}
	ps := fn.Params
	var as []Val
	for i, p := range ps {
		if fn.Signature.Variadic() && i == len(ps)-1 {
			sl := p.Type().Underlying().(*types.Slice)
			q := &Seq{T: sl.Elem()}
			for _, a := range args[i:] {
				q.Segs = append(q.Segs, Seg{Kind: SegElem, V: boxed(a, sl.Elem())})
			}
			as = append(as, b.in.newSlice(b.st, q, p.Type()))
			break
		}
		as = append(as, boxed(args[i], p.Type()))
	}
	var res Val
	n := 0
	for _, o := range b.in.Call(b.st, fn, as, nil, 0) {
		if o.Kind == OutLoop {
			continue
		}
		n++
		if o.Kind == OutPanic {
			b.err = fmt.Errorf("%s can crash: %s", name, o.Pan.Key())
			return nil
		}
		if o.Kind != OutReturn || len(o.Vals) != 1 {
			b.err = fmt.Errorf("%s has no regular end", name)
			return nil
		}
		res, b.st = o.Vals[0], o.St
	}
	if n != 1 {
		b.err = fmt.Errorf("%s has %d outcomes", name, n)
		return nil
	}
	return res
}

func (b *builder) global(name string) Val {
	g := b.c.Global("", name)
	if g == nil {
		b.err = fmt.Errorf("%s not found", name)
		return nil
	}
	return g
}

func (b *builder) text(v Val) Val {
	if b.err != nil {
		return nil
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		iv = &IfaceV{Dyn: typeOf(v), V: v}
	}
	t, _, err := b.c.callMethod(b.in, b.st, iv, "String")
	if err != nil {
		b.err = err
	}
	return t
}

// builderOps are the predefined instructions of the expression API.
var builderOps = map[string]string{
	"Addw": "addw", "And": "&&", "AppGlobalDel": "app_global_del", "AppGlobalGet": "app_global_get", "AppGlobalGetEx": "app_global_get_ex",
	"AppGlobalPut": "app_global_put", "AppLocalDel": "app_local_del", "AppLocalGet": "app_local_get", "AppLocalGetEx": "app_local_get_ex",
	"AppLocalPut": "app_local_put", "AppOptedIn": "app_opted_in", "Arg0": "arg_0", "Arg1": "arg_1", "Arg2": "arg_2", "Arg3": "arg_3",
	"Args": "args", "Assert": "assert", "Balance": "balance", "Band": "b&", "Bgteq": "b>=", "BitAnd": "&", "BitLen": "bitlen", "BitNot": "~",
	"BitOr": "|", "BitXor": "^", "BoxCreate": "box_create", "BoxDel": "box_del", "BoxExtract": "box_extract", "BoxGet": "box_get", "BoxLen": "box_len",
	"BoxPut": "box_put", "BoxReplace": "box_replace", "Bsqrt": "bsqrt", "Btoi": "btoi", "Bytec0": "bytec_0", "Bytec1": "bytec_1", "Bytec2": "bytec_2",
	"Bytec3": "bytec_3", "BytesBitAnd": "b&", "BytesBitNot": "b~", "BytesBitOr": "b|", "BytesBitXor": "b^", "BytesDiv": "b/", "BytesEq": "b==",
	"BytesGe": "b>=", "BytesGt": "b>", "BytesLe": "b<=", "BytesLt": "b<", "BytesMinus": "b-", "BytesModulo": "b%", "BytesMul": "b*", "BytesNeq": "b!=",
	"BytesPlus": "b+", "BytesZero": "bzero", "Bzero": "bzero", "Concat": "concat", "Div": "/", "DivModw": "divmodw", "Divw": "divw", "Dup": "dup",
	"Dup2": "dup2", "ED25519Verify": "ed25519verify", "Ed25519VerifyBare": "ed25519verify_bare", "Empty": "", "Eq": "==", "Err": "err",
	"Exp": "exp", "Expw": "expw", "Extract16Bits": "extract_uint16", "Extract3": "extract3", "Extract32Bits": "extract_uint32", "Extract64Bits": "extract_uint64",
	"ExtractUint64": "extract_uint64", "Gaids": "gaids", "Ge": ">=", "GetBit": "getbit", "GetByte": "getbyte", "Gloadss": "gloadss", "Gt": ">",
	"Intc0": "intc_0", "Intc1": "intc_1", "Intc2": "intc_2", "Intc3": "intc_3", "Itob": "itob", "ItxnBegin": "itxn_begin", "ItxnNext": "itxn_next",
	"ItxnSubmit": "itxn_submit", "Keccak256": "keccak256", "Le": "<=", "Len": "len", "Loads": "loads", "Log": "log", "Lt": "<", "MinBalanceOp": "min_balance",
	"MinusOp": "-", "Modulo": "%", "Mul": "*", "Mulw": "mulw", "Neq": "!=", "Not": "!", "Or": "||", "PlusOp": "+", "Pop": "pop", "Replace3": "replace3",
	"RetSub": "retsub", "Return": "return", "Select": "select", "SetBit": "setbit", "SetByte": "setbyte", "Sha256": "sha256", "Sha3256": "sha3_256",
	"Sha512256": "sha512_256", "ShiftLeft": "shl", "ShiftRight": "shr", "Sqrt": "sqrt", "Stores": "stores", "Substring3": "substring3",
	"Swap": "swap",
}

// list makes a list of expressions.
func (b *builder) list(vs ...Val) Val {
	fn := b.c.P.Func("", "Compile")
	if fn == nil {
		b.err = fmt.Errorf("Compile not found")
		return nil
	}
	t := fn.Params[0].Type()
	q := &Seq{T: t.Underlying().(*types.Slice).Elem()}
	for _, v := range vs {
		if v == nil {
			return nil
		}
		q.Segs = append(q.Segs, Seg{Kind: SegElem, V: boxed(v, q.T)})
	}
	return b.in.newSlice(b.st, q, t)
}

// compiled are the printed lines of the listing compiled from expressions.
func (b *builder) compiled(vs ...Val) []Val {
	l := b.list(vs...)
	if b.err != nil {
		return nil
	}
	res := b.call("Compile", l)
	if b.err != nil || isNilConst(res) {
		return nil
	}
	q, ok := b.in.seqOf(b.st, res)
	if !ok {
		b.err = fmt.Errorf("the listing could not be determined: %s", res.Key())
		return nil
	}
	var out []Val
	for _, g := range q.Segs {
		if g.Kind != SegElem {
			b.err = fmt.Errorf("the listing could not be determined")
			return nil
		}
		out = append(out, b.text(g.V))
	}
	return out
}

func (b *builder) funcExpr(label, proto, block Val) Val {
	t := b.c.P.Type("", "FuncExpr")
	if t == nil {
		b.err = fmt.Errorf("FuncExpr not found")
		return nil
	}
	sv := &StructV{T: t}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		v := Val(zeroOf(u.Field(i).Type()))
		switch u.Field(i).Name() {
		case "Label":
			v = label
		case "Proto":
			if proto != nil {
				v = proto
			}
		case "Block":
			v = block
		}
		sv.F = append(sv.F, v)
	}
	cell := b.in.alloc(b.st, sv)
	return &Ptr{Cell: cell, T: types.NewPointer(t)}
}

// method calls a method of a built value.
func (b *builder) method(v Val, name string, args ...Val) Val {
	if b.err != nil {
		return nil
	}
	fn := b.c.P.Prog.LookupMethod(typeOf(v), nil, name)
	if fn == nil {
		b.err = fmt.Errorf("%s has no method %s", typeName(typeOf(v)), name)
		return nil
	}
	return b.run(fn, name, append([]Val{v}, args...)...)
}

func checkP35(c *Ctx, r *Report) {
	r.Rule = "The exported constructors are interpreted abstractly with arbitrary arguments and their results compiled and printed: every predefined instruction prints its own mnemonic, every constructor the instruction it is named after with its own arguments in order, every composite helper the documented sequence around its operands, and every tree of lists, blocks and functions (up to three levels, each position distinct) the left-to-right sequence of its leaves; the printed program is one line per instruction. A string literal of arbitrary characters is printed so that reading it gives the same characters."
	r.floor("instruction", 100)
	r.floor("constructor", 20)
	r.floor("tree", 700)
	r.floor("literal", 100)
	pos := "expr.go"
	if fn := c.P.Func("", "Compile"); fn != nil {
		pos = r.fnPos(fn)
	}
	at := func(name string) string {
		if fn := c.P.Func("", name); fn != nil {
			return r.fnPos(fn)
		}
		return pos
	}
	var names []string
	for n := range builderOps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b := c.newBuilder()
		r.count("instruction")
		v := b.global(n)
		var t Val
		if b.err == nil {
			t = b.text(v)
		}
		if b.err != nil {
			r.bad(n, pos, "%s: %v", n, b.err)
			continue
		}
		p := pos
		if fn := c.method(&IfaceV{Dyn: typeOf(v), V: v}, "String"); fn != nil {
			p = r.fnPos(fn)
		}
		r.check(t.Key() == mkStr(builderOps[n]).Key(), n, p, "%s is printed as %s instead of %q", n, t.Key(), builderOps[n])
	}
	// expect compares the compiled form of an expression with the lines wanted;
	// a line is a list of words and arbitrary values.
	type line []any
	cat := func(l line) Val {
		var vs []Val
		for _, x := range l {
			switch x := x.(type) {
			case string:
				vs = append(vs, mkStr(x))
			case Val:
				vs = append(vs, x)
			}
		}
		return strCat(vs...)
	}
	expect := func(kind, key, p string, b *builder, v Val, want ...line) {
		r.count(kind)
		var got []Val
		if b.err == nil {
			got = b.compiled(v)
		}
		r.incompl(b.in, key, p)
		if b.err != nil {
			r.bad(key, p, "%s: %v", key, b.err)
			return
		}
		var ws []Val
		for _, l := range want {
			ws = append(ws, cat(l))
		}
		r.check(keys(got) == keys(ws), key, p, "%s compiles to %s instead of %s", key, keys(got), keys(ws))
	}
	sym := func(name, n string, i int) Val {
		if fn := c.P.Func("", n); fn != nil && i < len(fn.Params) {
			t := fn.Params[i].Type()
			if fn.Signature.Variadic() && i == len(fn.Params)-1 {
				t = t.Underlying().(*types.Slice).Elem()
			}
			return &Sym{Name: name, T: t}
		}
		return &Sym{Name: name, T: intT}
	}
	dec := func(v Val) Val { return &Term{Op: "fmt:d", Args: []Val{v}} }
	fld := func(v Val) Val { return &Term{Op: "str:" + typeName(typeOf(v)), Args: []Val{v}} }
	// single instructions with arbitrary arguments
	for _, k := range []struct{ fn, op, kinds string }{
		{"Load", "load", "d"}, {"Store", "store", "d"}, {"Gtxns", "gtxns", "f"}, {"Proto", "proto", "dd"},
		{"Txn", "txn", "f"}, {"Txna", "txna", "fd"}, {"Int", "int", "d"}, {"FrameDig", "frame_dig", "d"},
		{"Arg", "txna ApplicationArgs", "d"}, {"ItxnField", "itxn_field", "f"}, {"Cover", "cover", "d"},
		{"Uncover", "uncover", "d"}, {"Global", "global", "f"},
	} {
		b := c.newBuilder()
		var args []Val
		l := line{k.op}
		for i, x := range k.kinds {
			a := sym(fmt.Sprintf("x%d", i), k.fn, i)
			args = append(args, a)
			l = append(l, " ")
			if x == 'd' {
				l = append(l, dec(a))
			} else {
				l = append(l, fld(a))
			}
		}
		expect("constructor", k.fn, at(k.fn), b, b.call(k.fn, args...), l)
	}
	name := func(n string) Val { return &Sym{Name: n, T: types.Typ[types.String]} }
	for _, k := range []struct{ fn, op string }{{"B", "b"}, {"Bz", "bz"}, {"Bnz", "bnz"}, {"CallSub", "callsub"}} {
		b := c.newBuilder()
		expect("constructor", k.fn, at(k.fn), b, b.call(k.fn, b.call("Label", name("l"))), line{k.op, " ", name("l")})
	}
	for _, k := range []struct{ fn, op string }{{"Match", "match"}, {"Switch", "switch"}} {
		for n := 0; n <= 4; n++ {
			b := c.newBuilder()
			var ls []Val
			l := line{k.op}
			for i := 0; i < n; i++ {
				x := fmt.Sprintf("l%d", i)
				ls = append(ls, b.call("Label", name(x)))
				l = append(l, " ", name(x))
			}
			if n == 0 {
				continue // an empty table has no written form of its own
			}
			expect("constructor", fmt.Sprintf("%s/%d", k.fn, n), at(k.fn), b, b.call(k.fn, ls...), l)
		}
	}
	{
		b := c.newBuilder()
		expect("constructor", "Label", at("Label"), b, b.call("Label", name("l")), line{name("l"), ":"})
		b = c.newBuilder()
		expect("constructor", "Comment", at("Comment"), b, b.call("Comment", name("t")), line{"//", name("t")})
	}
	// composite helpers around operands of one or more instructions
	num := func(b *builder, k int) Val { return b.call("Int", mkInt(int64(k), types.Typ[types.Uint64])) }
	il := func(k int) line { return line{fmt.Sprintf("int %d", k)} }
	for _, deep := range []int{1, 2, 3} {
		operand := func(b *builder, base int) (Val, []line) {
			var vs []Val
			var ls []line
			for i := 0; i < deep; i++ {
				vs = append(vs, num(b, base+i))
				ls = append(ls, il(base+i))
			}
			if deep == 1 {
				return vs[0], ls
			}
			return b.call("Block", vs...), ls
		}
		seq := func(ls ...[]line) (out []line) {
			for _, l := range ls {
				out = append(out, l...)
			}
			return
		}
		ops := func(ws ...string) (out []line) {
			for _, w := range ws {
				out = append(out, line{w})
			}
			return
		}
		for _, k := range []struct {
			fn  string
			ops []string
		}{{"Minus", []string{"-"}}, {"Plus", []string{"+"}}, {"AssertEq", []string{"==", "assert"}}, {"AssertLtEq", []string{"<=", "assert"}}} {
			b := c.newBuilder()
			x, xl := operand(b, 10)
			y, yl := operand(b, 20)
			expect("constructor", fmt.Sprintf("%s/%d", k.fn, deep), at(k.fn), b, b.call(k.fn, x, y), seq(xl, yl, ops(k.ops...))...)
		}
		b := c.newBuilder()
		x, xl := operand(b, 10)
		n := sym("n", "AssertLen", 1)
		expect("constructor", fmt.Sprintf("AssertLen/%d", deep), at("AssertLen"), b, b.call("AssertLen", x, n), seq(xl, ops("len"), []line{{"int ", dec(n)}}, ops("==", "assert"))...)
		b = c.newBuilder()
		x, xl = operand(b, 10)
		lo, hi := sym("lo", "AssertInRange", 1), sym("hi", "AssertInRange", 2)
		expect("constructor", fmt.Sprintf("AssertInRange/%d", deep), at("AssertInRange"), b, b.call("AssertInRange", x, lo, hi),
			seq(xl, []line{{"int ", dec(lo)}}, ops(">="), xl, []line{{"int ", dec(hi)}}, ops("<", "&&", "assert"))...)
		b = c.newBuilder()
		x, xl = operand(b, 10)
		y, yl := operand(b, 20)
		expect("constructor", fmt.Sprintf("Itxn/%d", deep), at("Itxn"), b, b.call("Itxn", x, y), seq(ops("itxn_begin"), xl, yl, ops("itxn_submit"))...)
		b = c.newBuilder()
		x, xl = operand(b, 10)
		expect("constructor", fmt.Sprintf("MatchLabels/%d", deep), at("MatchLabels"), b, b.call("MatchLabels", x, b.call("Label", mkStr("one")), b.call("Label", mkStr("two"))),
			seq(ops("byte \"one\"", "byte \"two\""), xl, ops("match one two"))...)
		b = c.newBuilder()
		x, xl = operand(b, 10)
		y, yl = operand(b, 20)
		f := b.funcExpr(b.call("Label", name("f")), nil, b.call("Block"))
		expect("constructor", fmt.Sprintf("FuncExpr.Call/%d", deep), pos, b, b.method(f, "Call", x, y), seq(xl, yl, []line{{"callsub ", name("f")}})...)
		b = c.newBuilder()
		f = b.funcExpr(b.call("Label", name("f")), nil, b.call("Block"))
		expect("constructor", fmt.Sprintf("CallSub/func/%d", deep), at("CallSub"), b, b.call("CallSub", f), line{"callsub ", name("f")})
	}
	// trees
	for _, sh := range treeShapes(3) {
		b := c.newBuilder()
		next := 0
		var want []line
		var build func(s *tree) Val
		build = func(s *tree) Val {
			switch s.kind {
			case 'x':
				next++
				want = append(want, il(next))
				return num(b, next)
			case 'f', 'F':
				next++
				n := fmt.Sprintf("f%d", next)
				want = append(want, line{n + ":"})
				var p Val
				if s.kind == 'F' {
					p = b.call("Proto", mkInt(1, types.Typ[types.Uint8]), mkInt(2, types.Typ[types.Uint8]))
					want = append(want, line{"proto 1 2"})
				}
				var vs []Val
				for _, k := range s.kids {
					vs = append(vs, build(k))
				}
				return b.funcExpr(b.call("Label", mkStr(n)), p, b.call("Block", vs...))
			}
			var vs []Val
			for _, k := range s.kids {
				vs = append(vs, build(k))
			}
			if s.kind == 'l' {
				return b.list(vs...)
			}
			return b.call("Block", vs...)
		}
		v := build(sh)
		expect("tree", sh.String(), pos, b, v, want...)
	}
	// several expressions at the top, and the printed program
	for n := 0; n <= 4; n++ {
		b := c.newBuilder()
		key := fmt.Sprintf("program/%d", n)
		r.count("program")
		var vs []Val
		want := ""
		for i := 0; i < n; i++ {
			vs = append(vs, b.call("Block", num(b, 2*i), num(b, 2*i+1)))
			want += fmt.Sprintf("int %d\nint %d\n", 2*i, 2*i+1)
		}
		l := b.call("Compile", b.list(vs...))
		var t Val
		if b.err == nil {
			t = b.text(retypeListing(c, l))
		}
		r.incompl(b.in, key, pos)
		if b.err != nil {
			r.bad(key, pos, "%s: %v", key, b.err)
			continue
		}
		r.check(t.Key() == mkStr(want).Key(), key, pos, "the program is printed as %s instead of %q", t.Key(), want)
	}
	c.builtPrograms(r, pos)
	c.builtLiterals(r, at("StringBytes"))
}

// builtPrograms: a program of any kinds of lines is compiled and printed line
// by line, on its own and inside of another list.
func (c *Ctx) builtPrograms(r *Report, pos string) {
	all := []string{"#pragma version 8", "int 1", "a:", "b a", "bz a", "retsub", "", "err"}
	s, err := c.stock(all)
	pt := c.P.Type("", "Program")
	if err != nil || pt == nil {
		r.bad("program", pos, "the sample program could not be built: %v", err)
		return
	}
	r.floor("printed program", 500)
	prog := func(b *builder, lines []string) Val {
		et := elemType(pt)
		q := &Seq{T: et}
		for _, l := range lines {
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: importVal(b.in, b.st, s.st, s.ops[l], map[int]int{})})
		}
		return b.in.newSlice(b.st, q, pt)
	}
	one := func(lines []string) {
		key := "program " + strings.Join(lines, ";")
		r.count("printed program")
		want := ""
		for _, l := range lines {
			want += l + "\n"
		}
		b := c.newBuilder()
		why := ""
		see := func(what string, t Val, want string) {
			if b.err == nil && t.Key() != mkStr(want).Key() && why == "" {
				why = fmt.Sprintf("%s gives %s instead of %q", what, t.Key(), want)
			}
		}
		see("printing the program", b.method(prog(b, lines), "String"), want)
		l := b.call("Compile", prog(b, lines))
		if b.err == nil {
			see("compiling and printing it", b.text(retypeListing(c, l)), want)
		}
		if len(lines) <= 2 {
			l = b.call("Compile", b.list(prog(b, lines), prog(b, lines)))
			if b.err == nil {
				see("compiling it twice in a list", b.text(retypeListing(c, l)), want+want)
			}
		}
		r.incompl(b.in, key, pos)
		if b.err != nil {
			why = b.err.Error()
		}
		r.check(why == "", key, pos, "%q: %s", key, why)
	}
	var rec func(p []string, n int)
	rec = func(p []string, n int) {
		one(p)
		if n == 0 {
			return
		}
		for _, l := range all {
			rec(append(p[:len(p):len(p)], l), n-1)
		}
	}
	rec(nil, 3)
}

func retypeListing(c *Ctx, v Val) Val {
	if sv, ok := v.(*SliceV); ok {
		n := *sv
		n.T = c.listingType()
		return &n
	}
	return &Const{T: c.listingType()}
}

// tree is a shape of nested expressions: x a leaf, l a list, b a block, f a
// function, F a function with a declared frame.
type tree struct {
	kind byte
	kids []*tree
}

func (t *tree) String() string {
	if t.kind == 'x' {
		return "x"
	}
	var ks []string
	for _, k := range t.kids {
		ks = append(ks, k.String())
	}
	return string(t.kind) + "(" + strings.Join(ks, " ") + ")"
}

// treeShapes are all shapes of the given depth with up to two children each.
func treeShapes(depth int) []*tree {
	level := []*tree{{kind: 'x'}}
	for d := 1; d < depth; d++ {
		next := []*tree{{kind: 'x'}}
		small := level
		for _, k := range "lbfF" {
			next = append(next, &tree{kind: byte(k)})
			for _, x := range small {
				next = append(next, &tree{kind: byte(k), kids: []*tree{x}})
			}
			for _, x := range small {
				for _, y := range small {
					next = append(next, &tree{kind: byte(k), kids: []*tree{x, y}})
				}
			}
		}
		level = next
	}
	return level
}

// builtLiterals: a literal of arbitrary characters is printed so that it reads
// back.
func (c *Ctx) builtLiterals(r *Report, pos string) {
	one := func(key string, cs []Val, printable bool) {
		r.count("literal")
		b := c.newBuilder()
		b.in.ForkFmt = true
		for _, x := range cs {
			if isChr(x) {
				lo, hi := int64(0), int64(127)
				if printable {
					lo, hi = 32, 126
				}
				b.st.facts.assume(cond{op: "le", a: mkInt(lo, intT), b: x})
				b.st.facts.assume(cond{op: "le", a: x, b: mkInt(hi, intT)})
			}
		}
		src, _ := strOf(cs)
		fn := c.P.Func("", "StringBytes")
		if fn == nil {
			r.bad(key, pos, "StringBytes not found")
			return
		}
		why, n := "", 0
		for _, o := range b.in.Call(b.st, fn, []Val{src}, nil, 0) {
			if o.Kind == OutLoop {
				continue
			}
			if o.Kind != OutReturn {
				why = "no regular end"
				break
			}
			v := o.Vals[0]
			outs, err := c.printed(b.in, o.St, &IfaceV{Dyn: typeOf(v), V: v})
			if err != nil {
				why = err.Error()
				break
			}
			for _, q := range outs {
				if q.Kind == OutLoop {
					continue
				}
				n++
				if q.Kind != OutReturn {
					why = "printing can crash"
					break
				}
				t, ok := q.St.facts.chars(q.Vals[0])
				if !ok {
					why = "the printed text could not be determined: " + q.Vals[0].Key()
					break
				}
				q.St.facts.split(func(fs *Facts, ask func(cond) bool) {
					if why != "" {
						return
					}
					pre := "byte \""
					txt := fs.byteText(t)
					if len(t) < len(pre)+1 {
						why = fmt.Sprintf("%q is no string literal", txt)
						return
					}
					is := func(v Val, c byte) bool {
						return ask(cond{op: "eq", a: chrAs(v, intT), b: mkInt(int64(c), intT)})
					}
					for i := range pre {
						if !is(t[i], pre[i]) {
							why = fmt.Sprintf("%q is no string literal", txt)
							return
						}
					}
					if !is(t[len(t)-1], '"') {
						why = fmt.Sprintf("%q is not closed", txt)
						return
					}
					body := t[len(pre) : len(t)-1]
					// the literal must not end or break off early
					esc := false
					for _, x := range body {
						switch {
						case esc:
							esc = false
						case is(x, '\\'):
							esc = true
						case is(x, '"'), is(x, '\n'), is(x, '\r'):
							why = fmt.Sprintf("%q ends early", txt)
							return
						}
					}
					if esc {
						why = fmt.Sprintf("the closing quote of %q is escaped", txt)
						return
					}
					back, ok := stringRef(body, ask)
					if !ok {
						why = fmt.Sprintf("%q is no valid literal", txt)
						return
					}
					if len(back) != len(cs) {
						why = fmt.Sprintf("%q reads back as %d characters instead of %d", txt, len(back), len(cs))
						return
					}
					for i := range cs {
						if !ask(cond{op: "eq", a: chrAs(back[i], intT), b: chrAs(cs[i], intT)}) {
							why = fmt.Sprintf("%q reads back differently at character %d", txt, i+1)
							return
						}
					}
				})
			}
			if why != "" {
				break
			}
		}
		r.incompl(b.in, key, pos)
		if why == "" && n == 0 {
			why = "no outcome"
		}
		r.check(why == "", key, pos, "a string literal of %s is not printed so that it reads back: %s", key, why)
	}
	for n := 0; n <= 4; n++ {
		one(fmt.Sprintf("%d printable characters", n), lexSource(strings.Repeat("?", n)), true)
	}
	for k := 0; k < 128; k++ {
		x := string(rune(k))
		one(fmt.Sprintf("%q between others", x), []Val{chrSym("0"), mkInt(int64(k), types.Typ[types.Byte]), chrSym("1")}, true)
	}
}
