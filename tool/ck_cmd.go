package main

import (
	"fmt"
	"go/types"
	"strings"
)

type cmdCase struct {
	cmd  string
	args []string // "$x" is an arbitrary non-empty text
	fail string   // dial, create, new, run
	code int64
}

// runCmd interprets the main function of a command with the command line
// given; the network, the file system and the servers are given.
func (c *Ctx) runCmd(r *Report, cc cmdCase) ([]Outcome, *Interp, error) {
	fn := c.P.Func("cmd/"+cc.cmd, "main")
	if fn == nil {
		return nil, nil, fmt.Errorf("main function of %s not found", cc.cmd)
	}
	in := c.NewAnalysis(allGlobals)
	in.Unroll, in.Exact, in.ForkPanics = true, true, false
	s := &srv{c: c, in: in, marks: map[string]*jv{}, lens: map[string]Val{}}
	s.install()
	errT := types.Universe.Lookup("error").Type()
	nilErr := &Const{T: errT}
	str := types.Typ[types.String]
	st := in.NewState()
	word := func(w string) Val {
		if !strings.HasPrefix(w, "$") {
			return mkStr(w)
		}
		y := &Sym{Name: "text " + w, T: str}
		st.facts.assume(cond{op: "lt", a: mkInt(0, intT), b: &Term{Op: "len", Args: []Val{y}, T: intT}})
		return y
	}
	q := &Seq{T: str}
	for _, w := range append([]string{cc.cmd}, cc.args...) {
		q.Segs = append(q.Segs, Seg{Kind: SegElem, V: word(w)})
	}
	st.syms["g:os.Args"] = in.alloc(st, in.newSlice(st, q, types.NewSlice(str)))
	fi := func(name string, T types.Type) Val {
		return &Sym{Name: name, T: T}
	}
	hk := in.Hooks
	def := func(ctx *CallCtx, p *Ptr, name, dv Val) bool {
		n, ok := constStr(name)
		if !ok {
			return false
		}
		in.store(ctx.St, p, dv)
		ctx.St.emit(Event{Kind: "flag", Name: n, Args: []Val{p}, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		return true
	}
	sv := func(off int) Hook {
		return func(ctx *CallCtx) ([]Outcome, bool) {
			p, ok := in.symPtr(ctx.St, ctx.Args[off])
			if !ok || !def(ctx, p, ctx.Args[off+1], ctx.Args[off+2]) {
				return nil, false
			}
			return ret(ctx.St), true
		}
	}
	sn := func(off int) Hook {
		return func(ctx *CallCtx) ([]Outcome, bool) {
			p := &Ptr{Cell: in.alloc(ctx.St, mkStr("")), T: ctx.Res.At(0).Type()}
			if !def(ctx, p, ctx.Args[off], ctx.Args[off+1]) {
				return nil, false
			}
			return ret(ctx.St, p), true
		}
	}
	hk["flag.StringVar"], hk["(*flag.FlagSet).StringVar"] = sv(0), sv(1)
	hk["flag.String"], hk["(*flag.FlagSet).String"] = sn(0), sn(1)
	exit := func(st *State, ctx *CallCtx, v Val) []Outcome {
		st.emit(Event{Kind: "exit", Args: []Val{v}, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		return []Outcome{{St: st, Kind: OutPanic, Pan: mkStr("exit")}}
	}
	parse := func(ctx *CallCtx, argv Val) ([]Outcome, bool) {
		q, ok := in.seqOf(ctx.St, argv)
		if !ok {
			return nil, false
		}
		var ws []Val
		for _, sg := range q.Segs {
			if sg.Kind != SegElem {
				return nil, false
			}
			ws = append(ws, sg.V)
		}
		own := map[string]*Ptr{}
		for _, e := range ctx.St.Events() {
			if e.Kind == "flag" {
				own[e.Name] = e.Args[0].(*Ptr)
			}
		}
		for i := 0; i < len(ws); i++ {
			w, ok := constStr(ws[i])
			if !ok || len(w) < 2 || w[0] != '-' || w == "--" {
				break
			}
			w = strings.TrimPrefix(w[1:], "-")
			name, val, eq := strings.Cut(w, "=")
			p := own[name]
			if p == nil || !eq && i+1 >= len(ws) {
				return exit(ctx.St, ctx, mkInt(2, intT)), true
			}
			v := Val(mkStr(val))
			if !eq {
				i++
				v = ws[i]
			} else if strings.HasPrefix(val, "$") {
				v = word(val)
				ctx.St.facts.assume(cond{op: "lt", a: mkInt(0, intT), b: &Term{Op: "len", Args: []Val{v}, T: intT}})
			}
			in.store(ctx.St, p, v)
		}
		return nil, true
	}
	hk["flag.Parse"] = func(ctx *CallCtx) ([]Outcome, bool) {
		a, ok := in.sliceOf(ctx.St, in.load(ctx.St, &Ptr{Cell: ctx.St.syms["g:os.Args"], T: types.NewPointer(types.NewSlice(str))}))
		if !ok {
			return nil, false
		}
		b := *a
		b.Lo = linAdd(a.Lo, mkInt(1, intT), 1, intT)
		b.k = ""
		o, ok := parse(ctx, &b)
		if o == nil && ok {
			o = ret(ctx.St)
		}
		return o, ok
	}
	hk["(*flag.FlagSet).Parse"] = func(ctx *CallCtx) ([]Outcome, bool) {
		o, ok := parse(ctx, ctx.Args[1])
		if o == nil && ok {
			o = ret(ctx.St, nilErr)
		}
		return o, ok
	}
	hk["flag.NewFlagSet"] = func(ctx *CallCtx) ([]Outcome, bool) {
		return ret(ctx.St, &Sym{Name: "flagset", T: ctx.Res.At(0).Type()}), true
	}
	give := func(ctx *CallCtx, name, kind, fail string) ([]Outcome, bool) {
		ctx.St.emit(Event{Kind: kind, Args: ctx.Args, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		t := ctx.Res.At(0).Type()
		if cc.fail == fail {
			return ret(ctx.St, zeroOf(t), errVal(fail, errT)), true
		}
		y := fi(name, t)
		ctx.St.facts.assume(cond{op: "eq", a: y, b: &Const{T: t}, neg: true})
		return ret(ctx.St, y, nilErr), true
	}
	hk["net.Dial"] = func(ctx *CallCtx) ([]Outcome, bool) { return give(ctx, "the connection", "dial", "dial") }
	hk["os.Create"] = func(ctx *CallCtx) ([]Outcome, bool) { return give(ctx, "the debug file", "create", "create") }
	hk["os.OpenFile"] = hk["os.Create"]
	hk["os.Exit"] = func(ctx *CallCtx) ([]Outcome, bool) { return exit(ctx.St, ctx, ctx.Args[0]), true }
	fatal := func(ctx *CallCtx) ([]Outcome, bool) { return exit(ctx.St, ctx, mkInt(1, intT)), true }
	hk["log.Fatal"], hk["log.Fatalf"], hk["log.Fatalln"] = fatal, fatal, fatal
	srvs := map[string]string{"lsp": "language server", "dbg": "debug adapter"}
	hook := in.HookAny
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		for p := range srvs {
			switch ctx.Fn {
			case nil:
			case c.P.Func(p, "New"):
				vs, ok := in.variadic(ctx.St, ctx.Args[2])
				if !ok {
					return nil, false
				}
				ctx.St.emit(Event{Kind: "new", Name: p, Args: append([]Val{ctx.Args[0], ctx.Args[1]}, vs...), Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
				return give(ctx, "server "+p, "made", "new")
			case c.P.Func(p, "WithDebug"):
				return ret(ctx.St, fi("option "+p+" "+ctx.Args[0].Key(), ctx.Res.At(0).Type())), true
			case c.serverFn(p, "Run"):
				ctx.St.emit(Event{Kind: "run", Name: p, Args: ctx.Args, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
				if cc.fail == "run" {
					return ret(ctx.St, mkInt(cc.code, intT), errVal("run", errT)), true
				}
				return ret(ctx.St, mkInt(cc.code, intT), nilErr), true
			}
		}
		return hook(ctx)
	}
	return in.Call(st, fn, nil, nil, 0), in, nil
}

// checkP16: the commands serve as their command line says.
func checkP16(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of the main functions of tealsp and tealdbg with the command line given (every combination of the options, in both spellings, values arbitrary, with and without the dbg word) and the network, file system and servers given (each succeeding or failing): exactly one server of the right kind is created, on standard input and output or, if an address is given, on a connection to it, with a trace file created exactly if one is named, and run once; the process ends with the server's exit code, or not with 0 if something failed, and then no server is run"
	type optset struct {
		args []string
		addr bool
		net  string
		dbg  bool
		noNt bool
	}
	var sets []optset
	spell := func(n, v string, eq bool) []string {
		if eq {
			return []string{"--" + n + "=" + v}
		}
		return []string{"-" + n, v}
	}
	for m := 0; m < 8; m++ {
		for _, eq := range []bool{false, true} {
			if m == 0 && eq {
				continue
			}
			var o optset
			if m&1 != 0 {
				o.args, o.addr = append(o.args, spell("addr", "$addr", eq)...), true
			}
			if m&2 != 0 {
				o.args, o.net = append(o.args, spell("net", "$net", eq)...), "$net"
			}
			if m&4 != 0 {
				o.args, o.dbg = append(o.args, spell("debug", "$file", eq)...), true
			}
			sets = append(sets, o)
		}
	}
	sets = append(sets, optset{args: []string{"-net=", "-addr", "$addr"}, addr: true, noNt: true})
	sets = append(sets, optset{args: []string{"-addr=", "-debug="}})
	type full struct {
		cmdCase
		o      optset
		server string
		bad    bool // the command line is refused
	}
	var all []full
	add := func(cmd string, pre []string, o optset, server string, bad bool) {
		for _, f := range []string{"", "dial", "create", "new", "run"} {
			if f == "dial" && !(o.addr && !o.noNt) || f == "create" && !o.dbg || f != "" && bad {
				continue
			}
			for _, code := range []int64{0, 1, 7} {
				if f != "" && code == 7 {
					continue
				}
				all = append(all, full{cmdCase{cmd: cmd, args: append(append([]string{}, pre...), o.args...), fail: f, code: code}, o, server, bad})
			}
		}
	}
	for _, o := range sets {
		add("tealsp", nil, o, "lsp", false)
		add("tealdbg", nil, o, "dbg", false)
		if len(o.args) == 0 || o.dbg && !o.addr && o.net == "" {
			add("tealsp", []string{"dbg"}, o, "dbg", false)
		}
	}
	for _, cmd := range []string{"tealsp", "tealdbg"} {
		add(cmd, nil, optset{args: []string{"-zzz", "1"}}, "", true)
		add(cmd, nil, optset{args: []string{"-debug"}}, "", true)
	}
	add("tealsp", []string{"dbg"}, optset{args: []string{"-zzz"}}, "", true)
	for _, cc := range all {
		name := strings.TrimSpace(cc.cmd + " " + strings.Join(cc.args, " "))
		key := name
		if cc.fail != "" {
			key += "/" + cc.fail + " fails"
		}
		pos := "cmd/" + cc.cmd + "/main.go"
		outs, in, err := c.runCmd(r, cc.cmdCase)
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		pos = r.fnPos(c.P.Func("cmd/"+cc.cmd, "main"))
		r.incompl(in, key, pos)
		n := 0
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			n++
			r.count("runs")
			evs := map[string][]Event{}
			var order []string
			for _, e := range o.St.Events() {
				evs[e.Kind] = append(evs[e.Kind], e)
				order = append(order, e.Kind)
			}
			code := int64(0)
			switch {
			case len(evs["exit"]) > 0:
				k, ok := constInt(evs["exit"][0].Args[0])
				if !ok {
					k = -99
				}
				code = k
			case o.Kind == OutPanic:
				code = -1
			}
			if cc.bad {
				r.check(len(evs["run"]) == 0 && code != 0, key+"/refused", pos, "'%s': the command line is malformed, but the command serves or ends with code %d", name, code)
				continue
			}
			// the trace file
			want := 0
			if cc.o.dbg {
				want = 1
			}
			if cc.fail != "dial" {
				ok := len(evs["create"]) == want
				if want == 1 && ok {
					ok = evs["create"][0].Args[0].Key() == (&Sym{Name: "text $file", T: types.Typ[types.String]}).Key()
				}
				if !r.check(ok, key+"/trace file", pos, "'%s': %d files are created (%s) instead of the %d named for tracing", name, len(evs["create"]), argKeys(evs["create"]), want) {
					continue
				}
			}
			// the connection
			want = 0
			if cc.o.addr && !cc.o.noNt {
				want = 1
			}
			if cc.fail != "create" {
				ok := len(evs["dial"]) == want
				if want == 1 && ok {
					nt := mkStr("tcp").Key()
					if cc.o.net != "" {
						nt = (&Sym{Name: "text " + cc.o.net, T: types.Typ[types.String]}).Key()
					}
					ok = evs["dial"][0].Args[0].Key() == nt && evs["dial"][0].Args[1].Key() == (&Sym{Name: "text $addr", T: types.Typ[types.String]}).Key()
				}
				if !r.check(ok, key+"/connection", pos, "'%s': %d connections are made (%s) instead of %d to the address given", name, len(evs["dial"]), argKeys(evs["dial"]), want) {
					continue
				}
			}
			if cc.fail != "" && cc.fail != "run" {
				r.check(code != 0, key+"/fails", pos, "'%s': %s fails, but the command ends with code 0", name, cc.fail)
				r.check(len(evs["run"]) == 0, key+"/not run", pos, "'%s': %s fails, but a server is run", name, cc.fail)
				continue
			}
			if !r.check(len(evs["new"]) == 1 && len(evs["run"]) == 1 && evs["new"][0].Name == cc.server && evs["run"][0].Name == cc.server, key+"/server", pos, "'%s': %d servers are created and %d run instead of one %s", name, len(evs["new"]), len(evs["run"]), cc.server) {
				continue
			}
			rd, wr := "global:os.Stdin", "global:os.Stdout"
			if want == 1 {
				rd, wr = "the connection", "the connection"
			}
			a := evs["new"][0].Args
			r.check(strings.Contains(a[0].Key(), rd), key+"/reads", pos, "'%s': the server reads from %s instead of %s", name, a[0].Key(), rd)
			r.check(strings.Contains(a[1].Key(), wr), key+"/writes", pos, "'%s': the server writes to %s instead of %s", name, a[1].Key(), wr)
			if cc.o.dbg {
				r.check(len(a) == 3 && strings.Contains(a[2].Key(), "option "+cc.server) && strings.Contains(a[2].Key(), "the debug file"), key+"/traces", pos, "'%s': the server does not trace to the file named", name)
			} else {
				r.check(len(a) == 2, key+"/no trace", pos, "'%s': the server gets options although none is asked for", name)
			}
			if cc.fail == "run" {
				r.check(code != 0, key+"/fails", pos, "'%s': the server fails, but the command ends with code 0", name)
			} else {
				r.check(code == cc.code && (o.Kind == OutReturn || len(evs["exit"]) == 1), key+"/code", pos, "'%s': the command ends with code %d instead of the server's %d", name, code, cc.code)
			}
		}
		r.check(n > 0, key+"/runs", pos, "'%s': no outcome", name)
	}
	r.floor("runs", 60)
}

func argKeys(es []Event) string {
	var p []string
	for _, e := range es {
		for _, a := range e.Args {
			p = append(p, a.Key())
		}
	}
	return strings.Join(p, ", ")
}
