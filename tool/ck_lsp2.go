package main

import (
	"fmt"
	"sort"
	"strings"
)

// checkP21: when the server stops, and with which code.
func checkP21(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of lsp.New/Run: the analysis follows every path until Run returns; Run returns exactly at an exit notification (code 0 after a shutdown request, 1 without) or at the end of the input, also inside a message; no message before that ends it, nothing after exit is handled"
	pos := r.fnPos(c.serverFn("lsp", "Run"))
	open := lspOpen("u1", "T1")
	sd := lspReq(js("sd"), "shutdown", nil)
	exit := lspNote("exit", nil)
	probe := lspProbe("probe", "u1")
	bad := msg{Body: jbad()}
	type tc struct {
		name   string
		ms     []msg
		code   int64 // -1: any
		probes int   // answers to probe
	}
	var cs []tc
	add := func(name string, code int64, probes int, ms ...msg) {
		cs = append(cs, tc{name, ms, code, probes})
	}
	add("end of input", -1, 0)
	add("exit", 1, 0, exit)
	add("shutdown exit", 0, 0, sd, exit)
	add("shutdown then end of input", -1, 0, sd)
	add("exit then more", 1, 0, exit, probe)
	add("shutdown exit more", 0, 0, sd, exit, probe)
	add("shutdown twice exit", 0, 0, sd, sd, exit)
	add("exit with parameters", 1, 0, lspNote("exit", jo()))
	add("shutdown with parameters", 0, 0, lspReq(js("sd"), "shutdown", jnull()), exit)
	add("exit twice", 1, 0, exit, exit)
	add("open exit", 1, 0, open, exit)
	add("open shutdown exit", 0, 0, open, sd, exit)
	add("shutdown open exit", 0, 0, sd, open, exit)
	add("requests between", 0, 2, open, probe, sd, probe, exit)
	for _, m := range []struct {
		n string
		m msg
	}{
		{"not JSON", bad}, {"array", msg{Body: ja()}}, {"text", msg{Body: jsym("X")}}, {"number", msg{Body: jnum("X")}}, {"null", msg{Body: jnull()}}, {"empty object", msg{Body: jo()}},
		{"method not a text", msg{Body: jo("method", jnum("X"), "id", jsym("I"))}}, {"no method", msg{Body: jo("id", jsym("I"))}},
		{"empty method", msg{Body: jo("id", jsym("I"), "method", js(""))}},
		{"object id", msg{Body: jo("id", jo("a", jnum("X")), "method", js("foo"))}},
		{"null params", lspNote("textDocument/didOpen", jnull())},
		{"change of an unknown document", lspChange("u9", "T1")},
		{"close of an unknown document", lspClose("u9")},
		{"response", msg{Body: jo("id", jsym("I"), "result", jnull())}},
	} {
		add(m.n+" then exit", 1, 0, m.m, exit)
		add(m.n+" then probe", -1, 1, m.m, probe)
		add(m.n+" then shutdown exit", 0, 0, m.m, sd, exit)
	}
	for _, l := range []string{"bad", "short", "neg"} {
		add(l+" length then end", -1, 0, msg{Body: jo(), Len: l})
		add(l+" length then exit", 1, 0, msg{Body: jo(), Len: l}, exit)
	}
	for _, t := range cs {
		outs := c.session(r, t.name, "lsp", t.ms, lspProgs(), nil, nil)
		for _, o := range outs {
			if !r.check(o.Out.Kind == OutReturn && len(o.Out.Vals) == 2, t.name, pos, "the server does not return") {
				break
			}
			r.check(isNilConst(o.Out.Vals[1]), t.name+"/no error", pos, "the server returns an error: %s", o.Out.Vals[1].Key())
			if t.code >= 0 {
				n, ok := constInt(o.Out.St.facts.constOf(o.Out.Vals[0]))
				r.check(ok && n == t.code, t.name+"/code", pos, "the exit code is %s instead of %d", o.Out.Vals[0].Key(), t.code)
			}
			n := len(o.replies(`"probe"`))
			r.check(n == t.probes, t.name+"/handled", pos, "%d instead of %d requests are answered (%s)", n, t.probes, sentStr(o))
			// everything up to exit is read, nothing after it
			k, want := 0, len(t.ms)
			for i, m := range t.ms {
				if mm := m.Body.at("method"); mm != nil && mm.String() == `"exit"` && m.Len == "" {
					want = i + 1
					break
				}
			}
			for _, e := range o.Out.St.Events() {
				if e.Kind == "recv" {
					k++
				}
			}
			r.check(k == want, t.name+"/read", pos, "%d of the messages are read instead of %d", k, want)
		}
		r.count("endings")
	}
	r.floor("endings", 50)
}

// lifecycle events of documents.
type docEv struct {
	name string
	m    msg
	uri  string
	text []string // resulting texts, the last one counts; "" closes
	kind string   // open change close other
}

// checkP22: the latest text decides.
func checkP22(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of lsp.New/Run over every sequence of open, change, close, save and query events (up to the stated length) on two documents: the labels reported afterwards are those of the latest text of that very document, and a document that is not open is an error"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	labels := map[string]string{"T0": "", "T1": "a", "T2": "bb", "T3": "cc"}
	q := func(uri string) msg { return lspProbe("q", uri) }
	evs := []docEv{
		{"open1:T1", lspOpen("u1", "T1"), "u1", []string{"T1"}, "open"},
		{"open1:T2", lspOpen("u1", "T2"), "u1", []string{"T2"}, "open"},
		{"open2:T3", lspOpen("u2", "T3"), "u2", []string{"T3"}, "open"},
		{"change1:T3", lspChange("u1", "T3"), "u1", []string{"T3"}, "change"},
		{"change1:T1,T2", lspChange("u1", "T1", "T2"), "u1", []string{"T1", "T2"}, "change"},
		{"change1:", lspChange("u1"), "u1", nil, "change"},
		{"change1:T0", lspChange("u1", "T0"), "u1", []string{"T0"}, "change"},
		{"change2:T1", lspChange("u2", "T1"), "u2", []string{"T1"}, "change"},
		{"close1", lspClose("u1"), "u1", nil, "close"},
		{"close2", lspClose("u2"), "u2", nil, "close"},
		{"save1", lspNote("textDocument/didSave", jo("textDocument", jdoc("u1"))), "u1", nil, "other"},
		{"query1", q("u1"), "u1", nil, "other"},
		{"query2", q("u2"), "u2", nil, "other"},
		{"rename1", lspReq(js("q"), "textDocument/rename", jo("textDocument", jdoc("u1"), "position", jpos(jint(0), jint(0)), "newName", jsym("NN"))), "u1", nil, "other"},
		{"remove1", lspReq(js("q"), "workspace/executeCommand", jo("command", js("teal.line.remove"), "arguments", ja(jo("uri", js("u1"), "line", jint(0))))), "u1", nil, "other"},
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	var run func(seq []docEv)
	run = func(seq []docEv) {
		if len(seq) > 0 {
			var ms []msg
			st := map[string]string{}
			var names []string
			for _, e := range seq {
				ms = append(ms, e.m)
				names = append(names, e.name)
				switch e.kind {
				case "open":
					st[e.uri] = e.text[0]
				case "change":
					if _, ok := st[e.uri]; ok {
						for _, t := range e.text {
							st[e.uri] = t
						}
					}
				case "close":
					delete(st, e.uri)
				}
			}
			ms = append(ms, lspProbe("p1", "u1"), lspProbe("p2", "u2"))
			key := strings.Join(names, " ")
			for _, o := range c.session(r, key, "lsp", ms, lspProgs(), nil, nil) {
				for i, u := range []string{"u1", "u2"} {
					rs := o.replies(fmt.Sprintf(`"p%d"`, i+1))
					if !r.check(len(rs) == 1, key+"/"+u, pos, "%d replies", len(rs)) {
						continue
					}
					t, open := st[u]
					if !open {
						r.check(isErr(rs[0]), key+"/"+u, pos, "a document that is not open is answered with %s", rs[0])
						continue
					}
					var got []string
					if a := rs[0].at("result"); a != nil && a.K == "arr" && !a.Open {
						for _, s := range a.A {
							got = append(got, strings.Trim(s.at("name").String(), `"`))
						}
					} else {
						got = []string{"?" + rs[0].String()}
					}
					r.check(strings.Join(got, ",") == labels[t], key+"/"+u, pos, "the labels of %s are %v instead of those of %s", u, got, t)
				}
			}
			r.count("histories")
		}
		if len(seq) < max {
			for _, e := range evs {
				run(append(append([]docEv{}, seq...), e))
			}
		}
	}
	run(nil)
	r.floor("histories", 2000)
}

// checkP23: what is announced is implemented.
func checkP23(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation: the capabilities in the reply to initialize (for arbitrary options) are compared with the requests and commands that are answered with a result; every command a code action names is announced and accepted"
	pos := r.fnPos(c.serverFn("lsp", "handle"))
	methods := map[string][]string{
		"documentHighlightProvider":  {"textDocument/documentHighlight"},
		"diagnosticProvider":         {"textDocument/diagnostic"},
		"documentSymbolProvider":     {"textDocument/documentSymbol"},
		"codeActionProvider":         {"textDocument/codeAction"},
		"executeCommandProvider":     {"workspace/executeCommand"},
		"renameProvider":             {"textDocument/rename", "textDocument/prepareRename"},
		"semanticTokensProvider":     {"textDocument/semanticTokens/full"},
		"completionProvider":         {"textDocument/completion"},
		"documentFormattingProvider": {"textDocument/formatting"},
		"definitionProvider":         {"textDocument/definition"},
		"hoverProvider":              {"textDocument/hover"},
		"signatureHelpProvider":      {"textDocument/signatureHelp"},
		"inlayHintProvider":          {"textDocument/inlayHint"},
		"inlineValueProvider":        {"textDocument/inlineValue"},
		"codeLensProvider":           {"textDocument/codeLens"},
	}
	answered := map[string]bool{}
	for _, q := range lspRequests("u1") {
		if q.Method == "workspace/executeCommand" && (!strings.HasSuffix(q.Name, " one") || strings.Contains(q.Name, "unknown")) || strings.Contains(q.Name, "line -1") || strings.Contains(q.Name, "lines -3") {
			continue
		}
		key := "answered/" + q.Name
		all := true
		outs := c.session(r, key, "lsp", []msg{lspOpen("u1", "T3"), lspReq(jsym("ID"), q.Method, q.Params)}, lspProgs(), nil, nil)
		for _, o := range outs {
			rs := o.replies("ID")
			if len(rs) != 1 || isErr(rs[0]) {
				all = false
			}
		}
		if _, seen := answered[q.Method]; !seen {
			answered[q.Method] = true
		}
		if !all || len(outs) == 0 {
			answered[q.Method] = false
		}
	}
	opts := []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"}
	announced := map[string]bool{}
	for mask := 0; mask < 81; mask++ {
		io := jo()
		val := map[string]bool{"semanticTokens": true, "inlayNamed": true, "inlayDecoded": true, "lensRefs": true}
		m := mask
		for _, o := range opts {
			switch m % 3 {
			case 1:
				io.set(o, jbool(true))
			case 2:
				io.set(o, jbool(false))
				val[o] = false
			}
			m /= 3
		}
		key := "initialize " + io.String()
		ms := []msg{lspReq(jsym("ID"), "initialize", jo("initializationOptions", io)), lspOpen("u1", "T1"), lspReq(js("cl"), "textDocument/codeLens", jo("textDocument", jdoc("u1"))),
			lspOpen("u2", "TH"), lspReq(js("ih"), "textDocument/inlayHint", jo("textDocument", jdoc("u2"), "range", jo("start", jpos(jint(0), jint(0)), "end", jpos(jint(9), jint(0)))))}
		ps := lspProgs()
		ps["TH"] = [][]tok{tokLine("txn", "0"), tokLine("byte", "0x61")}
		for _, o := range c.session(r, key, "lsp", ms, ps, nil, func(s *srv) { s.concrete = true }) {
			rs := o.replies("ID")
			if !r.check(len(rs) == 1 && rs[0].at("result", "capabilities") != nil, key, pos, "no capabilities are sent (%s)", sentStr(o)) {
				continue
			}
			caps := rs[0].at("result", "capabilities")
			on := func(n string) bool {
				v := caps.at(n)
				return v != nil && v.K != "null" && v.String() != "false"
			}
			for _, n := range caps.N {
				if n == "textDocumentSync" {
					continue
				}
				ms, known := methods[n]
				if !r.check(known, key+"/"+n, pos, "an unknown capability %s is announced", n) {
					continue
				}
				if !on(n) {
					continue
				}
				for _, m := range ms {
					announced[m] = true
					r.check(answered[m], key+"/"+n, pos, "%s is announced, but %s is not answered with a result", n, m)
				}
			}
			// the options switch exactly their feature
			for _, n := range sortedKeys(methods) {
				want := true
				switch n {
				case "semanticTokensProvider":
					want = val["semanticTokens"]
				case "inlayHintProvider":
					want = val["inlayNamed"] || val["inlayDecoded"]
				}
				r.check(on(n) == want, key+"/option/"+n, pos, "%s is announced: %v, but the options say %v", n, on(n), want)
			}
			sync := caps.at("textDocumentSync")
			r.check(sync != nil && sync.String() == "1", key+"/sync", pos, "the announced synchronisation is %s, but changes are applied as whole texts (1)", sync)
			pp := caps.at("renameProvider", "prepareProvider")
			r.check(pp != nil && pp.String() == "true", key+"/prepareRename", pos, "prepareRename is not announced")
			if st := caps.at("semanticTokensProvider"); val["semanticTokens"] && st != nil {
				r.check(st.at("full") != nil && st.at("full").String() == "true", key+"/tokens/full", pos, "full semantic tokens are not announced: %s", st)
			}
			var cmds []string
			for _, a := range caps.at("executeCommandProvider", "commands").list() {
				cmds = append(cmds, strings.Trim(a.String(), `"`))
			}
			sort.Strings(cmds)
			want := []string{"teal.label.create", "teal.label.remove", "teal.line.remove", "teal.value.replace", "teal.version.update"}
			r.check(strings.Join(cmds, " ") == strings.Join(want, " "), key+"/commands", pos, "the announced commands are %v, the accepted ones %v", cmds, want)
			// lenses are shown exactly when they are asked for
			cl := o.replies(`"cl"`)
			if r.check(len(cl) == 1 && !isErr(cl[0]), key+"/lens", pos, "code lenses are not answered") {
				n := len(cl[0].at("result").list())
				r.check((n > 0) == val["lensRefs"], key+"/lens", pos, "%d code lenses are shown with lensRefs %v", n, val["lensRefs"])
			}
			// and so are the two kinds of inlay hints
			ih := o.replies(`"ih"`)
			if r.check(len(ih) == 1 && !isErr(ih[0]), key+"/hints", pos, "inlay hints are not answered") {
				n := map[string]int{}
				for _, x := range ih[0].at("result").list() {
					n[x.at("position", "line").String()]++
				}
				r.check((n["0"] > 0) == val["inlayNamed"] && (n["1"] > 0) == val["inlayDecoded"] && n["0"]+n["1"] == len(ih[0].at("result").list()), key+"/hints", pos, "%d names and %d decoded values are shown with inlayNamed %v and inlayDecoded %v", n["0"], n["1"], val["inlayNamed"], val["inlayDecoded"])
			}
		}
		r.count("option sets")
	}
	// everything that is answered is announced
	for _, m := range sortedKeys(answered) {
		if !answered[m] || m == "initialize" || m == "shutdown" {
			continue
		}
		r.check(announced[m], "announced/"+m, pos, "%s is answered but never announced", m)
	}
	// the options are optional
	for n, p := range map[string]*jv{"absent": nil, "null": jnull(), "empty": jo(), "null options": jo("initializationOptions", jnull())} {
		key := "initialize parameters " + n
		for _, o := range c.session(r, key, "lsp", []msg{lspReq(jsym("ID"), "initialize", p)}, lspProgs(), nil, nil) {
			rs := o.replies("ID")
			r.check(len(rs) == 1 && rs[0].at("result", "capabilities", "inlayHintProvider") != nil, key, pos, "no capabilities are sent (%s)", sentStr(o))
		}
	}
	// commands named by code actions
	progs := lspProgs()
	progs["TA"] = [][]tok{tokLine("txn", "0"), tokLine("byte", "0x61"), tokLine("b", "zz"), tokLine("x:"), tokLine("callsub", "x"), tokLine("b", "y"), tokLine("y:"), tokLine("gaid", "0")}
	named := map[string]bool{}
	for l := int64(0); l < 8; l++ {
		key := fmt.Sprintf("code actions line %d", l)
		p := jo("textDocument", jdoc("u1"), "range", jo("start", jpos(jint(l), jint(0)), "end", jpos(jint(l), jint(1000))), "context", jo("diagnostics", ja()))
		setup := func(s *srv) { s.concrete = true }
		for _, o := range c.session(r, key, "lsp", []msg{lspOpen("u1", "TA"), lspReq(jsym("ID"), "textDocument/codeAction", p)}, progs, nil, setup) {
			for _, rs := range o.replies("ID") {
				for i, a := range rs.at("result").list() {
					cmd := a.at("command")
					n := strings.Trim(cmd.at("command").String(), `"`)
					named[n] = true
					// the very command with its very arguments is accepted
					k2 := fmt.Sprintf("%s/%d/%s", key, i, n)
					ms := []msg{lspOpen("u1", "TA"), lspReq(jsym("ID"), "workspace/executeCommand", jo("command", cmd.at("command"), "arguments", cmd.at("arguments")))}
					for _, o2 := range c.session(r, k2, "lsp", ms, progs, nil, setup) {
						r2 := o2.replies("ID")
						edits := 0
						for _, m := range o2.Sent {
							if m.J.at("method").String() == `"workspace/applyEdit"` {
								edits++
							}
						}
						r.check(len(r2) == 1 && !isErr(r2[0]) && edits == 1, k2, pos, "the command of a code action is not carried out (%s)", sentStr(o2))
					}
					r.count("code action commands")
				}
			}
		}
	}
	for _, n := range []string{"teal.label.create", "teal.line.remove", "teal.value.replace", "teal.version.update"} {
		r.check(named[n], "code action/"+n, pos, "no code action leads to %s any more", n)
	}
	r.floor("option sets", 81)
	r.floor("code action commands", 6)
}

func (o *jv) list() []*jv {
	if o == nil {
		return nil
	}
	return o.A
}
