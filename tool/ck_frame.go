package main

import (
	"fmt"
	"strings"
)

// checkP24: framing of both servers.
func checkP24(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of both servers on every sequence of up to three (thorough: four) messages out of: requests, notifications, a body that is no JSON, a header without length, with a malformed or negative length, a malformed header, and (last) a body cut off by the end of input. On every path: exactly the announced number of bytes is read per message, every reply is written as 'Content-Length: <byte length of the body>', an empty line and the body, and flushed; nothing else is written to the output or to standard output, whether or not the server traces to a file; every request is answered whatever precedes it; the server returns when the input ends"
	type kind struct {
		n    string
		m    func(k int) msg
		ans  bool
		last bool
	}
	lens := []string{"neg", "bad", "none", "mime"}
	servers := map[string][]kind{}
	for _, p := range []string{"lsp", "dbg"} {
		p := p
		req := func(k int, meth string) msg {
			if p == "lsp" {
				return lspReq(js(fmt.Sprintf("r%d", k)), meth, jo("textDocument", jdoc("u1")))
			}
			return dapReq(jint(int64(1000+k)), meth, nil)
		}
		note := func() msg {
			if p == "lsp" {
				return lspNote("initialized", jo())
			}
			return msg{Body: jo("seq", jint(5), "type", js("event"), "event", js("x"))}
		}
		ks := []kind{
			{n: "request", m: func(k int) msg {
				if p == "lsp" {
					return req(k, "textDocument/documentSymbol")
				}
				return req(k, "threads")
			}, ans: true},
			{n: "unknown request", m: func(k int) msg { return req(k, "zzz") }, ans: true},
			{n: "notification", m: func(k int) msg { return note() }},
			{n: "no json", m: func(k int) msg { return msg{Body: jbad()} }},
			{n: "short", m: func(k int) msg { m := req(k, "zzz"); m.Len = "short"; return m }, last: true},
		}
		for _, l := range lens {
			l := l
			ks = append(ks, kind{n: l, m: func(k int) msg { m := note(); m.Len = l; return m }})
		}
		servers[p] = ks
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	for _, p := range []string{"lsp", "dbg"} {
		pos := r.fnPos(c.serverFn(p, "Run"))
		ks := servers[p]
		var run func(seq []kind)
		run = func(seq []kind) {
			var ms []msg
			var names []string
			for i, k := range seq {
				ms = append(ms, k.m(i))
				names = append(names, k.n)
			}
			key := p + "/" + strings.Join(names, ",")
			var outs []srvOut
			for _, traced := range []bool{false, true} {
				traced := traced
				if traced && len(seq) > 2 {
					continue
				}
				k := key
				if traced {
					k += "/traced"
				}
				outs = append(outs, c.session(r, k, p, ms, lspProgs(), nil, func(s *srv) { s.traced = traced })...)
				r.count("sessions")
			}
			for _, o := range outs {
				if !r.check(o.Out.Kind == OutReturn, key, pos, "the server does not return at the end of its input") {
					break
				}
				n := 0
				for i, k := range seq {
					if !k.ans {
						continue
					}
					n++
					got := 0
					if p == "lsp" {
						got = len(o.replies(fmt.Sprintf(`"r%d"`, i)))
					} else {
						got = len(o.responses(fmt.Sprint(1000 + i)))
					}
					r.check(got == 1, key+"/answered", pos, "message %d is answered %d times (%s)", i, got, sentStr(o))
				}
				r.check(len(o.Sent) == n, key+"/only", pos, "%d messages are sent for %d requests (%s)", len(o.Sent), n, sentStr(o))
			}
			r.count("message sequences")
			if len(seq) == max || len(seq) > 0 && seq[len(seq)-1].last {
				return
			}
			for _, k := range ks {
				run(append(append([]kind{}, seq...), k))
			}
		}
		run(nil)
	}
	r.floor("message sequences", 1000)
}

// checkP17: feature requests on open documents are answered with results.
func checkP17(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the language server: for every kind of source line (with arbitrary texts) and every opcode with every number of immediates, and every feature request with an arbitrary position or range (inside and outside of the document, negative), every path answers with a result and never with an error"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	one := func(key string, prog [][]tok, q lspCase) {
		progs := map[string][][]tok{"P": prog}
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "P"), lspReq(jsym("ID"), q.Method, q.Params)}, progs, nil, nil) {
			rs := o.replies("ID")
			ok := len(rs) == 1 && respShape(rs[0]) == "" && !isErr(rs[0])
			if !r.check(ok, key, pos, "the request is not answered with a result (%s)", sentStr(o)) {
				return
			}
		}
		r.count("requests")
	}
	feature := func(q lspCase) bool {
		switch q.Method {
		case "initialize", "shutdown", "workspace/executeCommand", "textDocument/unknownThing", "$/unknownThing":
			return false
		}
		return true
	}
	reqs := lspRequests("u1")
	for _, k := range lineKinds() {
		if len(k.Toks) > 8 {
			continue // too many orders of tokens at arbitrary positions
		}
		for _, q := range reqs {
			if feature(q) {
				ts := append([]tok{}, k.Toks...)
				if q.Method == "textDocument/completion" && len(ts) > 0 && ts[0].Sym != "" {
					ts[0].Sym, ts[0].Text = "", "zq" // the word is compared with all mnemonics (P33)
				}
				one("line kind "+k.Name+"/"+q.Name, [][]tok{ts}, q)
			}
		}
		r.count("line kinds")
	}
	for _, q := range reqs {
		if feature(q) {
			one("no line/"+q.Name, [][]tok{}, q)
			for _, n := range []string{"T1", "T2", "T3"} {
				one(n+"/"+q.Name, lspProgs()[n], q)
			}
		}
	}
	at := func(m string) lspCase {
		p := jo("textDocument", jdoc("u1"))
		switch m {
		case "completion", "hover", "signatureHelp":
			p.set("position", jpos(jint(0), jnum("C")))
		case "inlayHint", "codeAction", "inlineValue":
			p.set("range", jo("start", jpos(jint(0), jnum("C1")), "end", jpos(jint(0), jnum("C2"))))
			if m == "codeAction" {
				p.set("context", jo("diagnostics", ja()))
			}
		}
		return lspCase{m, "textDocument/" + m, p}
	}
	for _, n := range oracleNames() {
		op := oracleOps[n]
		max := op.maxArity() + 1
		if max > 4 {
			max = 4
		}
		for k := 0; k <= max; k++ {
			for _, w := range []string{"0", "zz"} {
				if k == 0 && w == "zz" {
					continue
				}
				ws := []string{n}
				for i := 0; i < k; i++ {
					ws = append(ws, w)
				}
				for _, m := range []string{"completion", "hover", "signatureHelp", "inlayHint", "codeAction", "semanticTokens/full", "diagnostic"} {
					one(strings.Join(ws, " ")+"/"+m, [][]tok{tokLine(ws...)}, at(m))
				}
			}
		}
		r.count("opcodes")
	}
	r.floor("line kinds", 15)
	r.floor("opcodes", 180)
	r.floor("requests", 4000)
}
