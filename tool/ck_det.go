package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- P15

// deep renders a value with everything it refers to; maps by sorted keys.
func (c *Ctx) deep(in *Interp, st *State, v Val, d int) string {
	if d == 0 {
		return "..."
	}
	switch x := v.(type) {
	case *Ptr:
		if st.heap[x.Cell] != nil || c.Snap.heap[x.Cell] != nil {
			return "&" + c.deep(in, st, in.load(st, x), d-1)
		}
		return "&?"
	case *IfaceV:
		return typeName(x.Dyn) + ":" + c.deep(in, st, x.V, d)
	case *StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, c.deep(in, st, f, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *SliceV:
		q, ok := in.seqOf(st, x)
		if !ok {
			return "[?]"
		}
		return c.deep(in, st, q, d)
	case *Seq:
		var p []string
		for _, g := range x.Segs {
			if g.Kind != SegElem {
				p = append(p, "?")
				continue
			}
			p = append(p, c.deep(in, st, g.V, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *MapRef:
		mc, ok := st.get(x.Cell).(*MapC)
		if !ok {
			return "map?"
		}
		var p []string
		for _, k := range mc.Keys {
			if e := mc.M[k.Key()]; e != nil {
				p = append(p, c.deep(in, st, k, d-1)+":"+c.deep(in, st, e, d-1))
			}
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case *FuncV:
		if x.Fn != nil {
			return "func " + x.Fn.String()
		}
		return "func"
	}
	return v.Key()
}

// both interprets something twice, with maps iterated in opposite orders, the
// package-level tables included.
type both struct {
	c, rev *Ctx
}

func (c *Ctx) both() (*both, error) {
	mapRev = true
	defer func() { mapRev = false }()
	in, st, err := InitSnapshot(c.P, "")
	if err != nil {
		return nil, err
	}
	r := *c
	r.SnapIn, r.Snap = in, st
	return &both{c: c, rev: &r}, nil
}

func (b *both) run(f func(c *Ctx) (string, error)) (x, y string, err error) {
	x, err = f(b.c)
	if err != nil {
		return
	}
	mapRev = true
	defer func() { mapRev = false }()
	y, err = f(b.rev)
	return
}

// differ shows where two texts begin to differ.
func differ(x, y string) string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+100
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q or %q", cut(x), cut(y))
}

func (j *jv) canon() string {
	if j == nil {
		return "absent"
	}
	switch j.K {
	case "obj":
		ns := append([]string{}, j.N...)
		sort.Strings(ns)
		var p []string
		for _, n := range ns {
			p = append(p, n+":"+j.F[n].canon())
		}
		return "{" + strings.Join(p, ",") + "}"
	case "arr":
		var p []string
		for _, a := range j.A {
			p = append(p, a.canon())
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return j.String()
}

// detPrograms have several findings of every kind that is collected by name.
func detPrograms() map[string][][]tok {
	src := map[string]string{
		"unused":    "#pragma version 8\nb1:\nint 1\na2:\nint 1\nc3:\nint 1\nd4:\nreturn",
		"missing":   "#pragma version 8\nint 1\nbz q\nint 1\nbz p\nint 1\nbz r\ncallsub q\nswitch z y x\nint 1\nreturn",
		"duplicate": "#pragma version 8\nb a\nb:\na:\nb:\na:\nint 1\nb b\nc:\nc:\nb c",
		"mixed":     "#pragma version 8\nu2:\nu1:\nd:\nd:\nbz m2\nbz m1\nb d\nx:\nbz m2\ny:\nint 1\nreturn",
		"subs":      "#pragma version 8\ncallsub f\ncallsub g\nint 1\nreturn\nf:\nproto 0 0\nretsub\ng:\nproto 1 1\nframe_dig -1\nretsub\nh:\nretsub",
		"fields":    "#pragma version 10\ntxn 0\ntxn 1\nglobal 2\nbyte 0x4142\nbyte 0x43\nacct_params_get 0\nint 1\nint pay\nint OptIn",
		"old":       "#pragma version 2\nbox_get\nsha3_256\nbyte 0x01\nkeccak256\ngloadss\nitxn_begin\nfrob\nglib 1\ntxn Foo",
		"empty":     "",
	}
	out := map[string][][]tok{}
	for k, s := range src {
		for _, l := range strings.Split(s, "\n") {
			out[k] = append(out[k], tokLine(strings.Fields(l)...))
		}
	}
	return out
}

func checkP15(c *Ctx, r *Report) {
	r.Rule = "Relational abstract interpretation: what the language leaves open (the order in which a map is iterated) is fixed in two opposite ways, the package-level tables included, and the results are compared: the package-level tables, the result of processing programs with several findings and labels of every kind, every reply of the language server and the debugger on such programs, and the scanner's report. Apart from map iteration, no function of the libraries, the servers and their commands starts goroutines, selects between channels, or calls the clock, random numbers or environment (call sites enumerated)."
	r.floor("result", 300)
	b, err := c.both()
	if err != nil {
		r.bad("initialisers", "process.go", "%v", err)
		return
	}
	pos := "process.go"
	cmp := func(key, p, what string, f func(c *Ctx) (string, error)) {
		r.count("result")
		x, y, err := b.run(f)
		if err != nil {
			r.bad(key, p, "%s: %v", key, err)
			return
		}
		r.check(x == y, key, p, "%s depends on the order in which a map happens to be iterated: %s", what, differ(x, y))
	}
	// package-level tables
	for _, sub := range []string{"", "lsp", "dbg"} {
		pk := c.P.pkg(sub)
		if pk == nil {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			if o, ok := pk.Pkg.Scope().Lookup(n).(*types.Var); !ok || !o.Exported() {
				continue
			}
			cmp("table "+sub+"."+n, pos, "the table "+n, func(c *Ctx) (string, error) {
				v := c.Global(sub, n)
				if v == nil {
					return "", nil
				}
				return c.deep(c.SnapIn, c.Snap, v, 12), nil
			})
		}
	}
	progs := detPrograms()
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("Process", pos, "Process not found")
		return
	}
	ppos := r.fnPos(fn)
	for _, k := range sortedKeys(progs) {
		cmp("process "+k, ppos, "the result of processing the program "+k, func(c *Ctx) (string, error) {
			ps, in, err := c.process(progs[k], nil)
			if err != nil {
				return "", err
			}
			r.analysed(in)
			if len(in.Incompl) > 0 {
				return "", fmt.Errorf("%s", in.Incompl[0])
			}
			var out []string
			for _, p := range ps {
				if p.Out.Kind != OutReturn {
					return "", fmt.Errorf("processing can crash")
				}
				var names []string
				u := p.Res.T.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					names = append(names, u.Field(i).Name())
				}
				t := ""
				for _, n := range names {
					t += n + "=" + c.deep(p.In, p.Out.St, p.field(n), 9) + "; "
				}
				out = append(out, t)
			}
			sort.Strings(out)
			return strings.Join(out, "\n"), nil
		})
	}
	// the language server
	spos := "lsp/lsp.go"
	lsp := func(key, prog, method string, params *jv) {
		cmp("lsp "+key, spos, "the reply to "+method, func(c *Ctx) (string, error) {
			outs, in, err := c.serve("lsp", []msg{lspOpen("u1", prog), lspReq(jint(7), method, params)}, progs, nil, func(s *srv) { s.concrete = true })
			if err != nil {
				return "", err
			}
			if in != nil {
				r.analysed(in)
			}
			if in != nil && len(in.Incompl) > 0 {
				return "", fmt.Errorf("%s", in.Incompl[0])
			}
			var res []string
			for _, o := range outs {
				var ms []string
				for _, m := range o.Sent {
					ms = append(ms, m.J.canon())
				}
				res = append(res, strings.Join(ms, " "))
			}
			sort.Strings(res)
			return strings.Join(res, "\n"), nil
		})
	}
	for _, k := range sortedKeys(progs) {
		n := int64(len(progs[k]))
		td := jdoc("u1")
		for _, m := range []string{"documentSymbol", "codeLens", "diagnostic", "semanticTokens/full"} {
			lsp(k+"/"+m, k, "textDocument/"+m, jo("textDocument", td))
		}
		rg := jo("start", jpos(jint(0), jint(0)), "end", jpos(jint(n), jint(0)))
		for _, m := range []string{"inlineValue", "inlayHint", "codeAction"} {
			p := jo("textDocument", td, "range", rg)
			if m == "codeAction" {
				p.set("context", jo("diagnostics", ja()))
			}
			lsp(k+"/"+m, k, "textDocument/"+m, p)
		}
		for l := int64(0); l < n; l++ {
			for _, m := range []string{"definition", "documentHighlight", "rename"} {
				if k == "fields" || k == "old" {
					continue
				}
				at := int64(0)
				if len(progs[k][l]) > 1 {
					at = 100000
				}
				p := jo("textDocument", td, "position", jpos(jint(l), jint(at)))
				if m == "rename" {
					p.set("newName", js("other"))
				}
				lsp(fmt.Sprintf("%s/%s/%d", k, m, l), k, "textDocument/"+m, p)
			}
		}
	}
	for _, on := range oracleNames() {
		op := oracleOps[on]
		n, _ := op.params()
		f, _ := op.form(op.maxArity())
		w := helpWords(f)
		for i := 0; i < n; i++ {
			if _, any := argNames(op, i, 1); !any && on != "b" {
				continue
			}
			name := fmt.Sprintf("%s %d", on, i)
			progs[name] = [][]tok{tokLine("#pragma", "version", "10"), tokLine("l2:"), tokLine("l1:"), tokLine(append([]string{on}, w[:i]...)...)}
			lsp("completion/"+name, name, "textDocument/completion", jo("textDocument", jdoc("u1"), "position", jpos(jint(3), jint(100000))))
		}
	}
	for _, pre := range []string{"", "b", "txn", "box_"} {
		name := "prefix " + pre
		progs[name] = [][]tok{tokLine("#pragma", "version", "10"), tokLine(strings.Fields(pre)...)}
		lsp("completion/"+name, name, "textDocument/completion", jo("textDocument", jdoc("u1"), "position", jpos(jint(1), jint(0))))
	}
	// the debugger
	dp := dapPrograms()
	for _, k := range sortedKeys(dp) {
		ms := []msg{dapInit(nil, nil), dapLaunch("p.teal"), dapReq(jint(1), "setBreakpoints", jo("source", jo("path", js("p.teal")), "breakpoints", ja(jo("line", jint(3)), jo("line", jint(5)))))}
		q := int64(2)
		ask := func(cmd string, a *jv) {
			ms = append(ms, dapReq(jint(q), cmd, a))
			q++
		}
		for i := 0; i < 12; i++ {
			ask("threads", nil)
			ask("stackTrace", jo("threadId", jint(0)))
			ask("scopes", jo("frameId", jint(0)))
			for v := int64(1); v <= 4; v++ {
				ask("variables", jo("variablesReference", jint(v), "start", jint(0), "count", jint(8)))
			}
			ask([]string{"next", "stepIn", "next", "continue"}[i%4], jo("threadId", jint(0)))
		}
		// breakpoints everywhere, continued for a thread that does not exist
		var all []*jv
		for l := range dp[k] {
			all = append(all, jo("line", jint(int64(l+1))))
		}
		ask("setBreakpoints", jo("source", jo("path", js("p.teal")), "breakpoints", ja(all...)))
		ask("launch", jo("program", js("p.teal")))
		ask("setBreakpoints", jo("source", jo("path", js("p.teal")), "breakpoints", ja(all...)))
		for i := 0; i < 8; i++ {
			ask("continue", jo("threadId", jint(77)))
		}
		cmp("dap "+k, "dbg/dbg.go", "what the debugger answers on the program "+k, func(c *Ctx) (string, error) {
			outs, in, err := c.serve("dbg", ms, map[string][][]tok{"P": dp[k]}, map[string]string{"p.teal": "P"}, nil)
			if err != nil {
				return "", err
			}
			if in != nil {
				r.analysed(in)
			}
			if in != nil && len(in.Incompl) > 0 {
				return "", fmt.Errorf("%s", in.Incompl[0])
			}
			var res []string
			for _, o := range outs {
				var ms []string
				for _, m := range o.Sent {
					ms = append(ms, m.J.canon())
				}
				res = append(res, strings.Join(ms, " "))
			}
			sort.Strings(res)
			return strings.Join(res, "\n"), nil
		})
	}
	// the scanner
	cmp("scan", "cmd/tealsarif/main.go", "the scanner's report", func(c *Ctx) (string, error) {
		outs, s, err := c.scan(scanCase{name: "det", path: "dir", stat: "dir", walk: []scanEntry{{path: "dir", dir: true}, {path: "dir/b.teal"}, {path: "dir/a.teal"}, {path: "dir/c.teal"}}, diags: map[string][]int{"dir/a.teal": {1, 2}, "dir/b.teal": {3}, "dir/c.teal": {1}}})
		if err != nil {
			return "", err
		}
		var res []string
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			t := fmt.Sprint(o.Kind)
			for _, e := range o.St.Events() {
				if e.Kind != "print" {
					continue
				}
				for _, a := range e.Args {
					if j := s.unmark(o.St, a); j != nil {
						t += " " + j.canon()
					} else {
						t += " " + a.Key()
					}
				}
			}
			res = append(res, t)
		}
		return strings.Join(res, "\n"), nil
	})
	c.openEffects(r)
}

// openEffects enumerates what else a result could depend on.
func (c *Ctx) openEffects(r *Report) {
	for _, fn := range c.P.funcs {
		pk := fn.Pkg
		if pk == nil {
			continue
		}
		path := pk.Pkg.Path()
		if strings.Contains(path, "/debug/") {
			continue // the maintainers' own tools
		}
		r.count("functions")
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				what := ""
				switch i := i.(type) {
				case *ssa.Go:
					what = "starts a goroutine"
				case *ssa.Select:
					what = "selects between channels"
				case ssa.CallInstruction:
					if f := i.Common().StaticCallee(); f != nil && f.Pkg != nil {
						switch p := f.Pkg.Pkg.Path(); {
						case p == "time" && (f.Name() == "Now" || f.Name() == "Since" || f.Name() == "After" || f.Name() == "Tick"), p == "math/rand", p == "math/rand/v2", p == "crypto/rand":
							what = "calls " + f.String()
						}
					}
				}
				if what != "" {
					r.bad("effect/"+shortFn(fn), r.fnPos(fn), "%s %s", shortFn(fn), what)
				}
			}
		}
	}
}
