package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// ---------------------------------------------------------------- messages

func lspReq(id *jv, method string, params *jv) msg {
	b := jo("jsonrpc", js("2.0"), "method", js(method))
	if id != nil {
		b.set("id", id)
	}
	if params != nil {
		b.set("params", params)
	}
	return msg{Body: b}
}

func lspNote(method string, params *jv) msg { return lspReq(nil, method, params) }

func jdoc(uri string) *jv { return jo("uri", js(uri)) }

func lspOpen(uri, text string) msg {
	return lspNote("textDocument/didOpen", jo("textDocument", jo("uri", js(uri), "version", jint(1), "text", jsym(text))))
}

func lspChange(uri string, texts ...string) msg {
	a := ja()
	for _, t := range texts {
		a.A = append(a.A, jo("text", jsym(t)))
	}
	return lspNote("textDocument/didChange", jo("textDocument", jo("uri", js(uri), "version", jint(2)), "contentChanges", a))
}

func lspClose(uri string) msg {
	return lspNote("textDocument/didClose", jo("textDocument", jdoc(uri)))
}

func lspProbe(id, uri string) msg {
	return lspReq(js(id), "textDocument/documentSymbol", jo("textDocument", jdoc(uri)))
}

func jpos(line *jv, ch *jv) *jv { return jo("line", line, "character", ch) }

// replies to a request.
func (o srvOut) replies(id string) []*jv {
	var out []*jv
	for _, m := range o.Sent {
		if m.J.at("method") == nil && m.J.at("id").String() == id {
			out = append(out, m.J)
		}
	}
	return out
}

func isErr(j *jv) bool { return j.at("error") != nil && j.at("error").K != "null" }

// shape says what is wrong with a JSON-RPC response.
func respShape(j *jv) string {
	if v := j.at("jsonrpc"); v == nil || v.String() != `"2.0"` {
		return "the protocol version is " + v.String()
	}
	res, er := j.at("result") != nil, isErr(j)
	switch {
	case res && er:
		return "it has both a result and an error"
	case !res && !er:
		return "it has neither a result nor an error"
	}
	if er {
		e := j.at("error")
		if e.K != "obj" || e.at("code") == nil || e.at("code").K != "num" || e.at("message") == nil || e.at("message").K != "str" {
			return "its error has no code and message: " + e.String()
		}
	}
	return ""
}

// session analyses a session; every outcome must be a regular end.
func (c *Ctx) session(r *Report, key, pkg string, msgs []msg, progs map[string][][]tok, files map[string]string, setup func(s *srv)) (res []srvOut) {
	if os.Getenv("VERIF_SLOW") != "" {
		t := time.Now()
		defer func() {
			if d := time.Since(t); d > 300*time.Millisecond {
				fmt.Fprintln(os.Stderr, "slow:", key, d, len(res))
			}
		}()
	}
	pos := r.fnPos(c.serverFn(pkg, "Run"))
	outs, in, err := c.serve(pkg, msgs, progs, files, setup)
	if err != nil {
		r.bad(key, pos, "%v", err)
		return nil
	}
	r.incompl(in, key, pos)
	for _, o := range outs {
		if o.Out.Kind == OutPanic {
			r.bad(key+"/survives", pos, "the server crashes: %s", o.Out.Pan.Key())
			return nil
		}
		if o.Frame != "" {
			r.bad(key+"/framing", pos, "%s", o.Frame)
			return nil
		}
	}
	r.count("sessions")
	return outs
}

const docT1 = "T1"

func lspProgs() map[string][][]tok {
	return map[string][][]tok{
		"T0": {},
		"T1": {tokLine("a:"), tokLine("b", "a")},
		"T2": {tokLine("#pragma", "version", "8"), tokLine("bb:"), {}, tokLine("int", "1")},
		"T3": {tokLine("cc:"), tokLine("callsub", "zz"), tokLine("txn", "0")},
	}
}

// lspParams lists, for a request, the parameters to try: all well-formed ones
// and the ways they can be missing or malformed.
func lspVariants(full *jv) map[string]*jv {
	out := map[string]*jv{"absent": nil, "null": jnull(), "text": jsym("P"), "list": ja(), "empty": jo()}
	if full == nil {
		return out
	}
	out["full"] = full
	for _, k := range full.N {
		m := full.clone()
		m.set(k, jnull())
		out[k+" null"] = m
		m = full.clone()
		delete(m.F, k)
		var ns []string
		for _, n := range m.N {
			if n != k {
				ns = append(ns, n)
			}
		}
		m.N = ns
		out[k+" absent"] = m
		m = full.clone()
		if full.F[k].K == "num" {
			m.set(k, jsym("P"))
		} else {
			m.set(k, jnum("P"))
		}
		out[k+" malformed"] = m
		if full.F[k].K == "obj" {
			m = full.clone()
			m.set(k, jo())
			out[k+" empty"] = m
		}
	}
	return out
}

type lspCase struct {
	Name   string
	Method string
	Params *jv
}

func lspRequests(uri string) []lspCase {
	td := func() *jv { return jdoc(uri) }
	rg := func(a, b int64) *jv {
		return jo("start", jpos(jint(a), jnum("C1")), "end", jpos(jint(b), jnum("C2")))
	}
	var out []lspCase
	add := func(name, m string, p *jv) { out = append(out, lspCase{name, m, p}) }
	for _, m := range []string{"documentSymbol", "codeLens", "formatting", "diagnostic", "semanticTokens/full"} {
		add(m, "textDocument/"+m, jo("textDocument", td()))
	}
	for _, m := range []string{"prepareRename", "definition", "documentHighlight"} {
		add(m, "textDocument/"+m, jo("textDocument", td(), "position", jpos(jnum("L"), jnum("C"))))
	}
	add("rename", "textDocument/rename", jo("textDocument", td(), "position", jpos(jnum("L"), jnum("C")), "newName", jsym("NN")))
	for _, l := range []int64{-1, 0, 1, 2, 3, 4} {
		for _, m := range []string{"completion", "hover", "signatureHelp"} {
			add(fmt.Sprintf("%s line %d", m, l), "textDocument/"+m, jo("textDocument", td(), "position", jpos(jint(l), jnum("C"))))
		}
	}
	for _, l := range [][2]int64{{0, 0}, {0, 9}, {-3, 1}, {2, 1}, {1, 1}} {
		for _, m := range []string{"inlineValue", "inlayHint", "codeAction"} {
			p := jo("textDocument", td(), "range", rg(l[0], l[1]))
			if m == "codeAction" {
				p.set("context", jo("diagnostics", ja()))
			}
			add(fmt.Sprintf("%s lines %d-%d", m, l[0], l[1]), "textDocument/"+m, p)
		}
	}
	ex := func(name, cmd string, args *jv) {
		p := jo("command", js(cmd))
		if args != nil {
			p.set("arguments", args)
		}
		add("execute "+cmd+" "+name, "workspace/executeCommand", p)
	}
	cmds := map[string]*jv{
		"teal.version.update": jo("uri", js(uri), "version", jnum("V")),
		"teal.value.replace":  jo("uri", js(uri), "range", rg(0, 0), "name", jsym("NV")),
		"teal.line.remove":    jo("uri", js(uri), "line", jnum("L")),
		"teal.label.remove":   jo("uri", js(uri), "name", js("a")),
		"teal.label.create":   jo("uri", js(uri), "name", jsym("NL")),
		"teal.unknown":        jo("uri", js(uri)),
	}
	for _, k := range sortedKeys(cmds) {
		ex("one", k, ja(cmds[k]))
		ex("none", k, ja())
		ex("two", k, ja(cmds[k], cmds[k]))
		ex("absent", k, nil)
		ex("null", k, jnull())
		ex("malformed", k, jsym("P"))
		ex("null argument", k, ja(jnull()))
		ex("number argument", k, ja(jnum("P")))
		ex("empty argument", k, ja(jo()))
	}
	add("initialize", "initialize", jo("processId", jnum("PID"), "initializationOptions", jo("semanticTokens", jbsym("B1"), "inlayNamed", jbsym("B2"), "inlayDecoded", jbsym("B3"), "lensRefs", jbsym("B4"))))
	add("shutdown", "shutdown", nil)
	add("unknown", "textDocument/unknownThing", jo("textDocument", td()))
	add("unknown $", "$/unknownThing", nil)
	return out
}

// checkP20: exactly one reply per request, none per notification, and the
// server goes on.
func checkP20(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of lsp.New/Run: for every request (each method and command, well-formed, missing, null and malformed parameters, known and unknown documents, before and after shutdown, string and number ids) every path through the server sends exactly one response with the request's id and exactly one of result and error; every notification sends none; the next request is answered too"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	one := func(key string, pre []msg, q msg, id string, probe bool) {
		ms := append(append([]msg{}, pre...), q)
		if probe {
			ms = append(ms, lspProbe("probe", "u1"))
		}
		for _, o := range c.session(r, key, "lsp", ms, lspProgs(), nil, nil) {
			rs := o.replies(id)
			if !r.check(len(rs) == 1, key, pos, "%d replies are sent (%s)", len(rs), sentStr(o)) {
				return
			}
			if w := respShape(rs[0]); w != "" {
				r.bad(key, pos, "the reply is malformed: %s (%s)", w, rs[0])
				return
			}
			if probe {
				ps := o.replies(`"probe"`)
				r.check(len(ps) == 1 && respShape(ps[0]) == "", key+"/next", pos, "the next request is answered %d times (%s)", len(ps), sentStr(o))
			}
			for _, m := range o.Sent {
				if m.J.at("method") == nil && m.J.at("id").String() != id && m.J.at("id").String() != `"probe"` && m.J.at("id").String() != `"sd"` {
					r.bad(key, pos, "a response nobody asked for is sent: %s", m.J)
				}
			}
		}
		r.count("requests")
	}
	open := []msg{lspOpen("u1", "T3")}
	ids := map[string]*jv{"ID": jsym("ID"), "num:ID": jnum("ID")}
	for _, q := range lspRequests("u1") {
		probe := q.Method != "shutdown"
		for _, idk := range sortedKeys(ids) {
			one(fmt.Sprintf("%s/open/%s", q.Name, idk), open, lspReq(ids[idk], q.Method, q.Params), idk, probe)
		}
		one(q.Name+"/empty document", []msg{lspOpen("u1", "T0")}, lspReq(jsym("ID"), q.Method, q.Params), "ID", probe)
		one(q.Name+"/no document", nil, lspReq(jsym("ID"), q.Method, q.Params), "ID", probe)
		one(q.Name+"/shut down", append(append([]msg{}, open...), lspReq(js("sd"), "shutdown", nil)), lspReq(jsym("ID"), q.Method, q.Params), "ID", true)
		vs := lspVariants(q.Params)
		for _, v := range sortedKeys(vs) {
			one(fmt.Sprintf("%s/%s", q.Name, v), open, lspReq(jsym("ID"), q.Method, vs[v]), "ID", probe)
		}
	}
	// whatever was asked before (one representative per method and command)
	var reps []lspCase
	rep := map[string]bool{}
	for _, q := range lspRequests("u1") {
		k := q.Method + " " + q.Params.at("command").String()
		if rep[k] || q.Method == "shutdown" {
			continue
		}
		rep[k] = true
		reps = append(reps, q)
	}
	seq := func(key string, qs []lspCase, ids []*jv) {
		ms := append([]msg{}, open...)
		for i, q := range qs {
			ms = append(ms, lspReq(ids[i], q.Method, q.Params))
		}
		for _, o := range c.session(r, key, "lsp", ms, lspProgs(), nil, nil) {
			want := map[string]int{}
			for _, id := range ids {
				want[idKey(id)]++
			}
			for _, id := range ids {
				rs := o.replies(idKey(id))
				if !r.check(len(rs) == want[idKey(id)], key, pos, "%d replies to %s are sent (%s)", len(rs), id, sentStr(o)) {
					break
				}
			}
		}
		r.count("sequences")
	}
	for _, a := range reps {
		for _, b := range reps {
			seq("first "+a.Name+", then "+b.Name, []lspCase{a, b}, []*jv{jsym("I1"), jnum("I2")})
		}
		// identifiers are the client's choice
		ex := lspCase{"", "workspace/executeCommand", jo("command", js("teal.line.remove"), "arguments", ja(jo("uri", js("u1"), "line", jint(0))))}
		for _, id := range []*jv{js("1"), jint(1), js("0"), jint(0), js("2"), jint(2), js(""), jint(-1), jint(1 << 40)} {
			seq("identifier "+id.String()+" "+a.Name, []lspCase{ex, ex, a}, []*jv{js("e1"), js("e2"), id})
			seq("first identifier "+id.String()+" "+a.Name, []lspCase{a, ex}, []*jv{id, js("e1")})
		}
		seq("same identifier "+a.Name, []lspCase{a, a, a}, []*jv{js("s"), js("s"), js("s")})
	}
	r.floor("sequences", 1000)
	// notifications
	notes := []lspCase{
		{"initialized", "initialized", jo()},
		{"didOpen", "textDocument/didOpen", lspOpen("u1", "T1").Body.at("params")},
		{"didChange", "textDocument/didChange", lspChange("u1", "T1").Body.at("params")},
		{"didSave", "textDocument/didSave", jo("textDocument", jdoc("u1"))},
		{"didClose", "textDocument/didClose", jo("textDocument", jdoc("u1"))},
		{"cancel", "$/cancelRequest", jo("id", jnum("X"))},
		{"unknown", "$/somethingElse", jo()},
		{"unknown without $", "somethingElse", jo()},
	}
	for _, n := range notes {
		vs := lspVariants(n.Params)
		for _, pre := range [][]msg{nil, open} {
			for _, v := range sortedKeys(vs) {
				key := fmt.Sprintf("notification %s/%s/%d", n.Name, v, len(pre))
				ms := append(append([]msg{}, pre...), lspNote(n.Method, vs[v]), lspProbe("probe", "u1"))
				for _, o := range c.session(r, key, "lsp", ms, lspProgs(), nil, nil) {
					ps := o.replies(`"probe"`)
					k := 0
					for _, m := range o.Sent {
						if m.J.at("method") == nil {
							k++
						}
					}
					r.check(k == 1, key, pos, "a notification is answered (%s)", sentStr(o))
					r.check(len(ps) == 1 && respShape(ps[0]) == "", key+"/next", pos, "the next request is answered %d times (%s)", len(ps), sentStr(o))
				}
				r.count("notifications")
			}
		}
	}
	// responses to the server's own requests are consumed silently
	for k, b := range map[string]*jv{"result": jo("jsonrpc", js("2.0"), "id", jsym("ID"), "result", jo("applied", jbsym("B"))), "null result": jo("jsonrpc", js("2.0"), "id", jsym("ID"), "result", jnull()), "error": jo("jsonrpc", js("2.0"), "id", jsym("ID"), "error", jo("code", jnum("X")))} {
		key := "response/" + k
		for _, o := range c.session(r, key, "lsp", []msg{{Body: b}, lspProbe("probe", "u1")}, lspProgs(), nil, nil) {
			r.check(len(o.Sent) == 1 && len(o.replies(`"probe"`)) == 1, key, pos, "a response of the client is answered (%s)", sentStr(o))
		}
	}
	r.floor("requests", 800)
	r.floor("notifications", 60)
}

func sentStr(o srvOut) string {
	var p []string
	for _, m := range o.Sent {
		p = append(p, m.J.String())
	}
	s := "sent: " + strings.Join(p, " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// idKey renders an identifier the way replies shows it.
func idKey(id *jv) string {
	if id.K == "num" {
		return "num:" + id.String()
	}
	return id.String()
}
