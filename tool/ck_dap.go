package main

import (
	"fmt"
	"strings"
)

func dapReq(seq *jv, cmd string, args *jv) msg {
	b := jo("seq", seq, "type", js("request"), "command", js(cmd))
	if args != nil {
		b.set("arguments", args)
	}
	return msg{Body: b}
}

func dapInit(l, cz *jv) msg {
	a := jo("adapterID", js("teal"))
	if l != nil {
		a.set("linesStartAt1", l)
	}
	if cz != nil {
		a.set("columnsStartAt1", cz)
	}
	return dapReq(jint(900), "initialize", a)
}

func dapLaunch(path string) msg { return dapReq(jint(901), "launch", jo("program", js(path))) }

// responses to a request and the events.
func (o srvOut) responses(seq string) []*jv {
	var out []*jv
	for _, m := range o.Sent {
		if m.J.at("type").String() == `"response"` && m.J.at("request_seq").String() == seq {
			out = append(out, m.J)
		}
	}
	return out
}

// events after the k-th message, as names.
func (o srvOut) events(after int) []*jv {
	var out []*jv
	for _, m := range o.Sent {
		if m.After == after && m.J.at("type").String() == `"event"` {
			out = append(out, m.J)
		}
	}
	return out
}

func unq(j *jv) string {
	if j != nil && j.K == "str" {
		if s, ok := constStr(j.V); ok {
			return s
		}
	}
	return strings.Trim(j.String(), `"`)
}

// dapShape says what is wrong with a sequence of sent messages.
func dapShape(o srvOut) string {
	last := int64(0)
	for _, m := range o.Sent {
		t := m.J.at("type").String()
		if t != `"response"` && t != `"event"` {
			return "a message of type " + t + " is sent"
		}
		sq := m.J.at("seq")
		if sq == nil || sq.V == nil {
			return "a message without a sequence number is sent"
		}
		n, ok := constInt(sq.V)
		if !ok || n <= last {
			return fmt.Sprintf("the sequence number %s follows %d", sq, last)
		}
		last = n
		if t == `"event"` {
			if e := m.J.at("event"); e == nil || e.K != "str" {
				return "an event without a name is sent"
			}
			continue
		}
		s := m.J.at("success")
		if s == nil || s.K != "bool" || s.V == nil || !isConstV(s.V) {
			return "the success of a response is not determined"
		}
		if s.String() == "false" {
			if e := m.J.at("message"); e == nil || e.K != "str" || e.String() == `""` {
				return "a failure is reported without a message"
			}
		}
	}
	return ""
}

type dapCase struct {
	Name string
	Cmd  string
	Args *jv
	// launched/not launched: whether it succeeds, the events it causes
	Ev, EvNo []string
}

func dapCases() []dapCase {
	thr := func() *jv { return jo("threadId", jint(0)) }
	src := func() *jv { return jo("name", js("p.teal"), "path", js("p.teal")) }
	return []dapCase{
		{"initialize", "initialize", jo("clientID", jsym("CI"), "adapterID", js("teal"), "linesStartAt1", jbsym("B1"), "columnsStartAt1", jbsym("B2")), []string{"initialized"}, []string{"initialized"}},
		{"initialize lines", "initialize", jo("linesStartAt1", jbsym("B1")), []string{"initialized"}, []string{"initialized"}},
		{"initialize columns", "initialize", jo("columnsStartAt1", jbsym("B2")), []string{"initialized"}, []string{"initialized"}},
		{"initialize bare", "initialize", jo(), []string{"initialized"}, []string{"initialized"}},
		{"launch", "launch", jo("program", js("p.teal")), []string{"process", "stopped entry"}, []string{"process", "stopped entry"}},
		{"disconnect", "disconnect", jo("restart", jbsym("B1")), nil, nil},
		{"evaluate", "evaluate", jo("expression", jsym("E")), nil, nil},
		{"setFunctionBreakpoints", "setFunctionBreakpoints", jo("breakpoints", ja()), nil, nil},
		{"setBreakpoints", "setBreakpoints", jo("source", src(), "breakpoints", ja(jo("line", jint(2)), jo("line", jint(4)))), nil, nil},
		{"setBreakpoints any", "setBreakpoints", jo("source", src(), "breakpoints", ja(jo("line", jnum("L")))), nil, nil},
		{"setBreakpoints none", "setBreakpoints", jo("source", src(), "breakpoints", ja()), nil, nil},
		{"setInstructionBreakpoints", "setInstructionBreakpoints", jo("breakpoints", ja()), nil, nil},
		{"setExceptionBreakpoints", "setExceptionBreakpoints", jo("filters", ja()), nil, nil},
		{"threads", "threads", nil, nil, nil},
		{"pause", "pause", thr(), []string{"stopped pause"}, []string{"stopped pause"}},
		{"continue", "continue", thr(), []string{"stopped breakpoint"}, nil},
		{"configurationDone", "configurationDone", nil, nil, nil},
		{"next", "next", thr(), []string{"stopped step"}, []string{"stopped step"}},
		{"variables", "variables", jo("variablesReference", jnum("VR")), nil, nil},
		{"variables scratch", "variables", jo("variablesReference", jint(3), "start", jint(2), "count", jint(3)), nil, nil},
		{"variables scratch any", "variables", jo("variablesReference", jint(3), "start", jint(-2), "count", jint(999)), nil, nil},
		{"variables trace any", "variables", jo("variablesReference", jint(4), "start", jint(-5), "count", jint(1<<40)), nil, nil},
		{"scopes", "scopes", jo("frameId", jnum("FI")), nil, nil},
		{"stackTrace", "stackTrace", jo("threadId", jnum("TI"), "startFrame", jnum("SF"), "levels", jnum("LV")), nil, nil},
		{"stackTrace plain", "stackTrace", thr(), nil, nil},
	}
}

func evName(e *jv) string {
	n := unq(e.at("event"))
	if b := e.at("body"); b != nil && b.at("reason") != nil {
		n += " " + unq(b.at("reason"))
	}
	return n
}

// checkP27: the debug adapter's protocol.
func checkP27(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of dbg.New/Run: for every request (each command, well-formed, missing, null and malformed arguments, before and after initialize and launch) every path through the adapter sends exactly one response with the request's sequence number and command, a failure carries a message, a well-formed known command succeeds and causes exactly its events, after its response; sequence numbers grow; messages that are not requests are not answered; the adapter goes on with the next request and ends with code 0 exactly at the end of its input"
	pos := r.fnPos(c.serverFn("dbg", "handle"))
	progs := map[string][][]tok{
		"P": {tokLine("#pragma", "version", "8"), tokLine("int", "1"), tokLine("lbl:"), tokLine("int", "2"), {}, tokLine("+")},
		"E": {},
		"F": {tokLine("int", "1"), tokLine("pop"), tokLine("pop")},
	}
	files := map[string]string{"p.teal": "P", "e.teal": "E", "f.teal": "F"}
	ended := func(key string, o srvOut) bool {
		if !r.check(o.Out.Kind == OutReturn && len(o.Out.Vals) > 0, key, pos, "the adapter does not return") {
			return false
		}
		n, ok := constInt(o.Out.St.facts.constOf(o.Out.Vals[0]))
		return r.check(ok && n == 0, key, pos, "the exit code is %s", o.Out.Vals[0].Key())
	}
	// q is sent after pre; want: "ok" (well-formed), "fail", "any"
	one := func(key string, pre []msg, q msg, cmd, want string, evs []string) {
		ms := append(append([]msg{}, pre...), q, dapReq(jint(77), "threads", nil))
		for _, o := range c.session(r, key, "dbg", ms, progs, files, nil) {
			if !ended(key, o) {
				return
			}
			rs := o.responses("SEQ")
			if !r.check(len(rs) == 1, key, pos, "%d responses are sent (%s)", len(rs), sentStr(o)) {
				return
			}
			if w := dapShape(o); w != "" {
				r.bad(key, pos, "%s (%s)", w, sentStr(o))
				return
			}
			r.check(unq(rs[0].at("command")) == cmd, key, pos, "the response is to the command %s", rs[0].at("command"))
			suc := rs[0].at("success").String() == "true"
			switch want {
			case "ok":
				if !r.check(suc, key, pos, "it fails: %s", rs[0]) {
					return
				}
			case "fail":
				if !r.check(!suc, key, pos, "it succeeds: %s", rs[0]) {
					return
				}
			}
			var got []string
			seen := false
			for _, m := range o.Sent {
				if m.After != len(pre)+1 {
					continue
				}
				if m.J.at("type").String() == `"event"` {
					if !seen {
						r.bad(key, pos, "an event precedes the response (%s)", sentStr(o))
					}
					got = append(got, evName(m.J))
				} else {
					seen = true
				}
			}
			we := evs
			if !suc {
				we = nil
			}
			r.check(strings.Join(got, ",") == strings.Join(we, ","), key, pos, "the events are %v instead of %v", got, we)
			ps := o.responses("77")
			r.check(len(ps) == 1 && ps[0].at("success").String() == "true", key+"/next", pos, "the next request is answered %d times (%s)", len(ps), sentStr(o))
			n := 0
			for _, m := range o.Sent {
				if m.J.at("type").String() == `"response"` {
					n++
				}
			}
			r.check(n == len(pre)+2, key, pos, "%d responses are sent to %d requests", n, len(pre)+2)
		}
		r.count("requests")
	}
	init := dapInit(nil, nil)
	// the commands that cannot be carried out without their arguments
	needsArgs := map[string]bool{"initialize": true, "launch": true, "setBreakpoints": true, "stackTrace": true, "scopes": true, "variables": true, "continue": true, "next": true}
	states := map[string][]msg{
		"start":     nil,
		"init":      {init},
		"launched":  {init, dapLaunch("p.teal")},
		"uninit":    {dapLaunch("p.teal")},
		"empty":     {init, dapLaunch("e.teal")},
		"stepped":   {init, dapLaunch("p.teal"), dapReq(jint(902), "next", jo("threadId", jint(0)))},
		"ended":     {init, dapLaunch("p.teal"), dapReq(jint(902), "continue", jo("threadId", jint(0)))},
		"failed":    {init, dapLaunch("f.teal"), dapReq(jint(902), "continue", jo("threadId", jint(0)))},
		"no file":   {init, dapLaunch("none.teal")},
		"relaunch":  {init, dapLaunch("f.teal"), dapLaunch("p.teal")},
		"with bps":  {init, dapLaunch("p.teal"), dapReq(jint(902), "setBreakpoints", jo("source", jo("path", js("p.teal")), "breakpoints", ja(jo("line", jint(4)))))},
		"done conf": {init, dapLaunch("p.teal"), dapReq(jint(902), "configurationDone", nil)},
	}
	for _, sn := range sortedKeys(states) {
		pre := states[sn]
		for _, q := range dapCases() {
			evs := q.Ev
			switch sn {
			case "start", "init", "no file":
				evs = q.EvNo
			case "failed":
				// a failed program stays failed when continued; a step fails again
				if q.Cmd == "continue" || q.Cmd == "next" {
					evs = []string{"stopped exception"}
				}
			}
			one(q.Name+"/"+sn, pre, dapReq(jnum("SEQ"), q.Cmd, q.Args), q.Cmd, "ok", evs)
		}
		one("unknown/"+sn, pre, dapReq(jnum("SEQ"), "someThing", jo()), "someThing", "fail", nil)
	}
	one("launch missing file", []msg{init}, dapReq(jnum("SEQ"), "launch", jo("program", js("none.teal"))), "launch", "fail", nil)
	for _, q := range dapCases() {
		vs := lspVariants(q.Args)
		for _, v := range sortedKeys(vs) {
			for _, sn := range []string{"start", "launched", "with bps"} {
				evs := q.Ev
				if sn == "start" {
					evs = q.EvNo
				}
				if v == "full" {
					continue
				}
				want := "any"
				if needsArgs[q.Cmd] {
					switch v {
					case "absent", "null", "text", "list", "program malformed", "threadId malformed", "frameId malformed", "variablesReference malformed", "breakpoints malformed", "linesStartAt1 malformed":
						want = "fail"
					}
					if sn == "start" && (v == "absent" || v == "null") {
						want = "any" // without a program there is nothing to look up
					}
				}
				one(fmt.Sprintf("%s/%s/%s", q.Name, v, sn), states[sn], dapReq(jnum("SEQ"), q.Cmd, vs[v]), q.Cmd, want, evs)
			}
		}
	}
	// messages that are not requests, malformed messages
	odd := map[string]msg{
		"event":           {Body: jo("seq", jnum("SEQ"), "type", js("event"), "event", js("x"))},
		"response":        {Body: jo("seq", jnum("SEQ"), "type", js("response"), "request_seq", jint(1), "success", jbool(true), "command", js("threads"))},
		"no type":         {Body: jo("seq", jnum("SEQ"), "command", js("threads"))},
		"number type":     {Body: jo("seq", jnum("SEQ"), "type", jnum("T"), "command", js("threads"))},
		"list":            {Body: ja()},
		"text":            {Body: jsym("X")},
		"null":            {Body: jnull()},
		"not JSON":        {Body: jbad()},
		"bad length":      {Body: jo(), Len: "bad"},
		"negative length": {Body: jo(), Len: "neg"},
		"truncated":       {Body: jo(), Len: "short"},
	}
	for _, k := range sortedKeys(odd) {
		for _, sn := range []string{"start", "launched"} {
			key := "message " + k + "/" + sn
			pre := states[sn]
			ms := append(append([]msg{}, pre...), odd[k], dapReq(jint(77), "threads", nil))
			for _, o := range c.session(r, key, "dbg", ms, progs, files, nil) {
				if !ended(key, o) {
					break
				}
				if w := dapShape(o); w != "" {
					r.bad(key, pos, "%s (%s)", w, sentStr(o))
				}
				n := 0
				for _, m := range o.Sent {
					if m.J.at("type").String() == `"response"` {
						n++
					}
					if m.After == len(pre)+1 {
						r.bad(key, pos, "a message that is no request is answered: %s", m.J)
					}
				}
				r.check(n == len(pre)+1 && len(o.responses("77")) == 1, key, pos, "%d responses are sent to %d requests", n, len(pre)+1)
			}
			r.count("other messages")
		}
	}
	// a request without a readable command
	for k, b := range map[string]*jv{"no command": jo("seq", jnum("SEQ"), "type", js("request")), "number command": jo("seq", jnum("SEQ"), "type", js("request"), "command", jnum("X")), "null command": jo("seq", jnum("SEQ"), "type", js("request"), "command", jnull())} {
		one("request/"+k, nil, msg{Body: b}, "", "fail", nil)
	}
	r.floor("requests", 500)
	r.floor("other messages", 20)
}
