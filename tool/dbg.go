package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (f *Facts) Dump() []string {
	var out []string
	for k, v := range f.truth {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	for k, v := range f.eq {
		out = append(out, k+"=="+v.Key())
	}
	for k, m := range f.neq {
		for x := range m {
			out = append(out, k+"!="+x)
		}
	}
	for _, l := range f.ineq {
		out = append(out, l.Key()+"<=0")
	}
	sort.Strings(out)
	return out
}

func dumpFacts(name string, n int) {
	c, err := newCtx(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	regs, _ := c.opsByName()
	runs, _, _ := c.runParse(regs[name], n, nil, nil)
	for _, r := range runs {
		fmt.Println("--", r.Out.Kind, r.Consumed)
		for _, o := range r.Ops {
			fmt.Println("   op", o.Key())
		}
		for _, l := range r.Out.St.facts.Dump() {
			fmt.Println("     ", l)
		}
	}
}

func dumpTables() {
	c, err := newCtx(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, g := range []string{"txnFieldSpecByName", "globalFieldSpecByName", "ecdsaCurveSpecByName", "ecGroupSpecByName", "base64EncodingSpecByName", "jsonRefSpecByName", "vrfStandardSpecByName", "blockFieldSpecByName", "assetHoldingFieldSpecByName", "assetParamsFieldSpecByName", "appParamsFieldSpecByName", "acctParamsFieldSpecByName", "txnTypeMap", "onCompletionMap"} {
		ks, vs, ok := c.mapEntries(c.Global("", g))
		fmt.Println("##", g, ok)
		for i, k := range ks {
			fmt.Println(k.Key(), vs[i].Key())
		}
	}
}

func dumpProc(args []string) {
	c, err := newCtx(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var lines [][]tok
	for _, a := range args {
		var l []tok
		for _, w := range strings.Fields(a) {
			if strings.HasPrefix(w, "?") {
				l = append(l, tok{Sym: w[1:]})
			} else {
				l = append(l, tok{Text: w})
			}
		}
		lines = append(lines, l)
	}
	outs, in, err := c.process(lines, nil)
	if in == nil {
		fmt.Println(err)
		return
	}
	fmt.Println("err", err, "outs", len(outs), "incompl", in.Incompl)
	for i, o := range outs {
		if i > 20 {
			break
		}
		if o.Res == nil {
			fmt.Println("panic", o.Out.Pan)
			continue
		}
		fmt.Println("== out", i)
		u := o.Res.T.Underlying().(*types.Struct)
		for j, f := range o.Res.F {
			s := f.Key()
			if q, ok := in.seqOf(o.Out.St, f); ok {
				s = q.Key()
			}
			if len(s) > 300 {
				s = s[:300]
			}
			fmt.Println("  ", u.Field(j).Name(), s)
		}
	}
}

func dumpServe() {
	c, err := newCtx("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	doc := func() *jv { return jo("uri", js("u1")) }
	pos := func() *jv { return jo("line", jnum("L"), "character", jnum("C")) }
	open := msg{Body: jo("method", js("textDocument/didOpen"), "params", jo("textDocument", jo("uri", js("u1"), "text", jsym("T1"))))}
	req := func(m string, p *jv) msg {
		return msg{Body: jo("method", js(m), "id", jsym("ID"), "params", p)}
	}
	progs := map[string][][]tok{"T1": {tokLine("a:"), tokLine("b", "a")}}
	for _, ms := range [][]msg{
		{{Body: jo("method", js("shutdown"), "id", jsym("ID"))}},
		{open, req("textDocument/documentSymbol", jo("textDocument", doc()))},
		{open, req("textDocument/rename", jo("textDocument", doc(), "position", pos(), "newName", jsym("NN")))},
		{open, req("textDocument/hover", jo("textDocument", doc(), "position", pos()))},
		{{Body: jo("method", js("initialize"), "id", jsym("ID"))}},
	} {
		t0 := time.Now()
		outs, in, err := c.serve("lsp", ms, progs, nil, nil)
		fmt.Println("==", ms[len(ms)-1].Body, err, in.Incompl, time.Since(t0))
		for _, o := range outs {
			fmt.Println("  ", o.Out.Kind, o.Frame)
			if o.Out.Kind == OutPanic {
				fmt.Println("    ", o.Out.Pan.Key())
			}
			for _, m := range o.Sent {
				fmt.Println("    ", m.After, m.J)
			}
		}
	}
}

// ask METHOD LINE "program line"...
func dumpAsk(args []string) {
	c, err := newCtx(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	n := int64(0)
	fmt.Sscan(args[1], &n)
	var lines [][]tok
	for _, a := range args[2:] {
		var l []tok
		for _, w := range strings.Fields(a) {
			if strings.HasPrefix(w, "?") {
				l = append(l, tok{Sym: w[1:]})
			} else {
				l = append(l, tok{Text: w})
			}
		}
		lines = append(lines, l)
	}
	pos := jpos(jint(n), jnum("C"))
	p := jo("textDocument", jdoc("u1"), "position", pos, "range", jo("start", jpos(jint(n), jnum("C1")), "end", jpos(jint(n), jnum("C2"))))
	outs, in, err := c.serve("lsp", []msg{lspOpen("u1", "T"), lspReq(jsym("ID"), args[0], p)}, map[string][][]tok{"T": lines}, nil, func(s *srv) { s.concrete = os.Getenv("CONCRETE") != "" })
	fmt.Println(err, in.Incompl, len(outs))
	seen := map[string]int{}
	var ks []string
	for _, o := range outs {
		s := sentStr(o)
		if seen[s] == 0 {
			ks = append(ks, s)
		}
		seen[s]++
	}
	for _, k := range ks {
		fmt.Println(seen[k], k)
	}
}

func dumpMapRanges(p *Prog) {
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); ok {
						fmt.Println("range", p.Prog.Fset.Position(i.Pos()), fn.String())
					}
				case *ssa.Go, *ssa.Select:
					fmt.Println("conc", p.Prog.Fset.Position(i.Pos()), fn.String())
				}
			}
		}
	}
}
