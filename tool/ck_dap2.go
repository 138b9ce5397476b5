package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ------------------------------------------------- a small reference simulator

type ofr struct {
	ret        int
	name       string
	p          int
	args, rets int
	proto      bool
}

type obr struct {
	id, line, budget int
	name             string
	stack            []string
	scratch          map[int]string
	frames           []ofr
	trace            []string
	ended            bool
}

type ovm struct {
	prog   [][]string
	brs    []*obr
	cur    int // index of the current branch, -1 when all ended
	bps    map[int]bool
	hit    map[int]bool // branches that reached a breakpoint in the last step
	failed bool
}

func (v *ovm) nop(l int) bool {
	w := v.prog[l]
	return len(w) == 0 || strings.HasSuffix(w[0], ":") || strings.HasPrefix(w[0], "#") || strings.HasPrefix(w[0], "//")
}

func (v *ovm) label(n string) int {
	for i, w := range v.prog {
		if len(w) == 1 && w[0] == n+":" {
			return i
		}
	}
	return -1
}

func (v *ovm) settle(b *obr) {
	for !b.ended && b.line < len(v.prog) && v.nop(b.line) {
		if w := v.prog[b.line]; len(w) == 1 && strings.HasSuffix(w[0], ":") {
			b.name = strings.TrimSuffix(w[0], ":")
		}
		b.line++
	}
	if b.line >= len(v.prog) {
		b.ended = true
	}
}

func newOvm(prog [][]string) *ovm {
	v := &ovm{prog: prog, bps: map[int]bool{}, hit: map[int]bool{}}
	b := &obr{budget: 700, name: "(main)", scratch: map[int]string{}}
	v.brs = []*obr{b}
	v.settle(b)
	if b.ended {
		v.cur = -1
	}
	return v
}

func (v *ovm) fork(b *obr, target string) {
	n := &obr{id: len(v.brs), line: v.label(target), budget: b.budget, name: target, scratch: map[int]string{}}
	n.stack = append(n.stack, b.stack...)
	n.frames = append(n.frames, b.frames...)
	n.trace = append(n.trace, b.trace...)
	for k, s := range b.scratch {
		n.scratch[k] = s
	}
	v.settle(n)
	v.brs = append(v.brs, n)
	if !n.ended && v.bps[n.line] {
		v.hit[n.id] = true
	}
}

// step executes one instruction of the current branch; false if it fails.
func (v *ovm) step() {
	v.failed = false
	v.hit = map[int]bool{}
	v.pick()
	if v.cur < 0 {
		return
	}
	b := v.brs[v.cur]
	w := v.prog[b.line]
	if b.budget < 1 {
		b.ended = true
		v.pick()
		return
	}
	b.budget--
	b.trace = append(b.trace, strings.Join(w, " "))
	pop := func() string {
		if len(b.stack) == 0 {
			v.failed = true
			return ""
		}
		x := b.stack[len(b.stack)-1]
		b.stack = append([]string{}, b.stack[:len(b.stack)-1]...)
		return x
	}
	push := func(s string) { b.stack = append(append([]string{}, b.stack...), s) }
	next := b.line + 1
	switch w[0] {
	case "int":
		push("uint64: " + w[1])
	case "txn":
		push("bytes")
	case "len":
		pop()
		push("uint64")
	case "pop", "assert":
		pop()
	case "dup":
		x := pop()
		if !v.failed {
			push(x)
			push(x)
		}
	case "swap":
		x, y := pop(), pop()
		if !v.failed {
			push(x)
			push(y)
		}
	case "+":
		pop()
		pop()
		if !v.failed {
			push("uint64")
		}
	case "store":
		n, _ := strconv.Atoi(w[1])
		x := pop()
		if !v.failed {
			b.scratch[n] = x
		}
	case "load":
		n, _ := strconv.Atoi(w[1])
		x, ok := b.scratch[n]
		if !ok {
			x = "(none)"
		}
		push("any: " + x)
	case "b":
		next = v.label(w[1])
	case "bz", "bnz":
		pop()
		if !v.failed {
			v.fork(b, w[1])
		}
	case "switch":
		pop()
		if !v.failed {
			for _, t := range w[1:] {
				v.fork(b, t)
			}
		}
	case "callsub":
		b.frames = append(append([]ofr{}, b.frames...), ofr{ret: b.line, name: b.name, p: len(b.stack)})
		next = v.label(w[1])
	case "proto":
		a, _ := strconv.Atoi(w[1])
		k, _ := strconv.Atoi(w[2])
		fs := append([]ofr{}, b.frames...)
		f := &fs[len(fs)-1]
		f.args, f.rets, f.proto = a, k, true
		b.frames = fs
	case "retsub":
		f := b.frames[len(b.frames)-1]
		b.frames = b.frames[:len(b.frames)-1]
		if f.proto {
			rs := append([]string{}, b.stack[len(b.stack)-f.rets:]...)
			b.stack = append(append([]string{}, b.stack[:f.p-f.args]...), rs...)
		}
		next, b.name = f.ret+1, f.name
	case "return":
		pop()
		b.ended = true
	case "err":
		b.ended = true
	default:
		panic("no reference semantics of " + w[0])
	}
	if v.failed {
		return
	}
	if !b.ended {
		b.line = next
		v.settle(b)
		if !b.ended && v.bps[b.line] {
			v.hit[b.id] = true
		}
	}
	v.pick()
}

func (v *ovm) pick() {
	if v.cur < 0 {
		return
	}
	for k := 0; k < len(v.brs); k++ {
		i := (v.cur + k) % len(v.brs)
		if !v.brs[i].ended {
			v.cur = i
			return
		}
	}
	v.cur = -1
}

func (v *ovm) run() {
	for v.cur >= 0 && !v.failed {
		v.step()
		if len(v.hit) > 0 {
			return
		}
	}
}

// ------------------------------------------------------------------- sessions

func progWords(prog [][]tok) [][]string {
	var out [][]string
	for _, l := range prog {
		var ws []string
		for _, t := range l {
			if t.Kind == "comment" {
				if len(ws) == 0 {
					ws = append(ws, "//")
				}
				continue
			}
			ws = append(ws, t.Text)
		}
		out = append(out, ws)
	}
	return out
}

func dapPrograms() map[string][][]tok {
	src := map[string]string{
		"straight": "#pragma version 8\nint 1\nint 2\n\n+\nstore 3\nload 3\nload 4\npop",
		"call":     "#pragma version 8\nint 5\ncallsub f\npop\nb end\nf:\nproto 1 1\nint 7\ncallsub g\nretsub\ng:\nint 9\npop\nretsub\nend:\nint 1\nreturn",
		"nested":   "int 1\ncallsub a\ncallsub b\nerr\na:\ncallsub b\nretsub\nb:\n//x\ndup\npop\nretsub",
		"fork":     "int 1\nbnz x\nint 2\nstore 0\nb y\nx:\nint 3\nstore 1\ny:\nint 4\nreturn",
		"switch":   "int 9\nstore 200\nint 1\nswitch p q\nint 5\nreturn\np:\nload 200\nreturn\nq:\nint 7\npop",
		"subfork":  "callsub s\nint 1\nreturn\ns:\nint 1\nbz t\nint 2\npop\nretsub\nt:\nretsub",
		"values":   "txn Sender\nlen\ndup\nswap\nstore 255\nstore 0\nint 18446744073709551615",
		"labels":   "l1:\nint 1\nl2:\n\nl3:\nint 2\nb l4\nl4:\npop\npop\nl5:",
		"errs":     "int 1\npop\npop\nint 2",
		"end":      "int 1\nbnz end\nint 2\npop\nend:",
		"nothing":  "#pragma version 8\n\nlbl:",
	}
	return progLines(src)
}

// bigPrograms reach larger states: many branches, a deep stack, deep calls, a
// long trace, the end of the budget.
func bigPrograms() (map[string][][]tok, map[string]int) {
	src := map[string]string{}
	steps := map[string]int{}
	sw, rest := "int 1\nswitch", ""
	for i := 0; i < 30; i++ {
		sw += fmt.Sprintf(" a%d", i)
		rest += fmt.Sprintf("\na%d:\nint %d\nstore %d", i, i, i*8)
	}
	src["many"], steps["many"] = sw+rest+"\nint 5\nreturn", 4
	deep := "int 0"
	for i := 1; i < 48; i++ {
		deep += fmt.Sprintf("\nint %d", i)
	}
	src["deep"], steps["deep"] = deep, 47
	src["recursion"], steps["recursion"] = "int 1\ncallsub f\nerr\nf:\nint 2\ncallsub f", 50
	src["scratch"], steps["scratch"] = "load 9\nstore 1\ntxn Sender\nstore 127\nint 3\nstore 128\nint 4\nstore 254\nint 5\nstore 255\nload 1\nint 7\nint 8", 11
	src["loop"], steps["loop"] = "l:\nint 1\npop\nb l", 70
	src["budget"], steps["budget"] = "int 1\nbnz m\nl:\nint 1\npop\nb l\nm:\nint 2\npop\nint 3", -1
	return progLines(src), steps
}

func progLines(src map[string]string) map[string][][]tok {
	out := map[string][][]tok{}
	for k, s := range src {
		var p [][]tok
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "//") {
				p = append(p, []tok{{Text: l[2:], Kind: "comment"}})
				continue
			}
			p = append(p, tokLine(strings.Fields(l)...))
		}
		out[k] = p
	}
	return out
}

type dapAsk struct {
	seq  int64
	what string
	want string // rendered body, or the single event
	kind string // resp, event, pass
	alt  []string
}

// dapRun builds a session against the reference simulator.
type dapRun struct {
	v      *ovm
	lz, cz int
	path   string
	ms     []msg
	asks   []dapAsk
	prev   map[string][][]tok // programs launched earlier, by path
	ids    map[string]string  // identifiers of the breakpoints in force -> lines
}

func (d *dapRun) send(cmd string, args *jv) int64 {
	n := int64(len(d.ms) + 1)
	d.ms = append(d.ms, dapReq(jint(n), cmd, args))
	return n
}

func (d *dapRun) query(cmd string, args *jv, what string, want string, alt ...string) {
	n := d.send(cmd, args)
	d.asks = append(d.asks, dapAsk{seq: n, what: what, want: want, kind: "resp", alt: alt})
}

func (d *dapRun) cause(cmd string, args *jv, what string, want string, alt ...string) {
	n := d.send(cmd, args)
	d.asks = append(d.asks, dapAsk{seq: n, what: what, want: want, kind: "event", alt: alt})
}

// stopped renders a stopped event.
func stoppedWant(reason string, thread int, hits []int) string {
	s := "stopped " + reason
	if thread >= 0 {
		s += fmt.Sprintf(" thread %d", thread)
	}
	if len(hits) > 0 {
		s += fmt.Sprintf(" hit %v", hits)
	}
	return s
}

func (d *dapRun) stoppedGot(e *jv) string {
	s := evName(e)
	b := e.at("body")
	if t := b.at("threadId"); t != nil {
		s += " thread " + t.String()
	}
	if h := b.at("hitBreakpointIds"); h != nil {
		set := map[string]bool{}
		for _, x := range h.list() {
			ln, ok := d.ids[x.String()]
			if !ok {
				ln = "unknown " + x.String()
			}
			set[ln] = true
		}
		if h.Open {
			set["..."] = true
		}
		s += " hit [" + strings.Join(sortedKeys(set), " ") + "]"
	}
	if a := b.at("allThreadsStopped"); a == nil || a.String() != "true" {
		s += " (not all threads stopped)"
	}
	return s
}

func (d *dapRun) curId() int {
	if d.v.cur < 0 {
		return -1
	}
	return d.v.brs[d.v.cur].id
}

func (d *dapRun) next(thread int) {
	for i, b := range d.v.brs {
		if b.id == thread {
			d.v.cur = i
		}
	}
	d.v.step()
	if d.v.failed {
		d.cause("next", jo("threadId", jint(int64(thread))), "next", "stopped exception")
		return
	}
	d.cause("next", jo("threadId", jint(int64(thread))), "next", stoppedWant("step", d.curId(), nil))
}

func (d *dapRun) cont(thread int) {
	d.v.run()
	args := jo("threadId", jint(int64(thread)))
	if d.v.failed {
		d.cause("continue", args, "continue", "stopped exception")
		return
	}
	if len(d.v.hit) == 0 {
		d.cause("continue", args, "continue", stoppedWant("breakpoint", -1, nil))
		return
	}
	var ws []string
	add := func(id int) { ws = append(ws, stoppedWant("breakpoint", id, []int{d.v.brs[id].line})) }
	if d.v.hit[thread] {
		add(thread)
	} else {
		var ids []int
		for id := range d.v.hit {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			add(id)
		}
	}
	d.cause("continue", args, "continue", ws[0], ws[1:]...)
}

func (d *dapRun) breakpoints(lines []int) {
	a := ja()
	var ws []string
	d.v.bps = map[int]bool{}
	for _, l := range lines {
		a.A = append(a.A, jo("line", jint(int64(l+d.lz))))
		ok := l >= 0 && l < len(d.v.prog) && !d.v.nop(l)
		if ok {
			d.v.bps[l] = true
		}
		ws = append(ws, fmt.Sprintf("%d %v", l+d.lz, ok))
	}
	d.query("setBreakpoints", jo("source", jo("name", js(d.path), "path", js(d.path)), "breakpoints", a), fmt.Sprintf("setBreakpoints %v", lines), "breakpoints "+strings.Join(ws, ", "))
}

var scratchRanges = [][2]*int{{nil, nil}, {ip(0), ip(2)}, {ip(2), ip(3)}, {ip(-1), ip(4)}, {ip(250), ip(100)}, {nil, ip(3)}, {ip(3), nil}, {ip(255), ip(1)}, {ip(300), ip(2)}, {ip(1), ip(1)}}

func ip(n int) *int { return &n }

// look asks for everything that can be seen.
func (d *dapRun) look(full bool) {
	var ts []string
	for _, b := range d.v.brs {
		ts = append(ts, fmt.Sprintf("%d Branch %d", b.id, b.id))
	}
	d.query("threads", nil, "threads", "threads "+strings.Join(ts, ", "))
	for _, b := range d.v.brs {
		if !b.ended {
			var fs []string
			line, name := b.line, b.name
			for i := len(b.frames) - 1; i >= 0; i-- {
				fs = append(fs, fmt.Sprintf("%d:%d %s", line+d.lz, d.cz, name))
				line, name = b.frames[i].ret, b.frames[i].name
			}
			fs = append(fs, fmt.Sprintf("%d:%d %s", line+d.lz, d.cz, name))
			d.query("stackTrace", jo("threadId", jint(int64(b.id))), fmt.Sprintf("stackTrace %d", b.id), fmt.Sprintf("frames %d: %s", len(fs), strings.Join(fs, ", ")))
		}
		ref := func(k int) *jv { return jint(int64(k + 10*b.id)) }
		d.query("scopes", jo("frameId", jint(int64(b.id))), fmt.Sprintf("scopes %d", b.id), fmt.Sprintf("scopes State %d, Stack %d #%d, Scratch %d #256, Trace %d #%d", 1+10*b.id, 2+10*b.id, len(b.stack), 3+10*b.id, 4+10*b.id, len(b.trace)))
		d.query("variables", jo("variablesReference", ref(1)), fmt.Sprintf("state %d", b.id), fmt.Sprintf("variables Budget=%d", b.budget))
		var st []string
		for i := len(b.stack) - 1; i >= 0; i-- {
			st = append(st, fmt.Sprintf("%d=%s", i, b.stack[i]))
		}
		d.query("variables", jo("variablesReference", ref(2)), fmt.Sprintf("stack %d", b.id), "variables "+strings.Join(st, ", "))
		for ri, rg := range scratchRanges {
			if ri > 0 && !full {
				break
			}
			mk := func(k int) *jv {
				a := jo("variablesReference", ref(k))
				if rg[0] != nil {
					a.set("start", jint(int64(*rg[0])))
				}
				if rg[1] != nil {
					a.set("count", jint(int64(*rg[1])))
				}
				return a
			}
			in := func(i, n int) bool {
				s, e := 0, n
				if rg[0] != nil {
					s = *rg[0]
				}
				if rg[1] != nil {
					e = s + *rg[1]
				}
				return i >= s && i < e
			}
			var sc, tr []string
			for i := 0; i < 256; i++ {
				if x, ok := b.scratch[i]; ok && in(i, 256) {
					sc = append(sc, fmt.Sprintf("%d=%s", i, x))
				}
			}
			for i, x := range b.trace {
				if in(i, len(b.trace)) {
					tr = append(tr, fmt.Sprintf("%d=%s", i, x))
				}
			}
			d.query("variables", mk(3), fmt.Sprintf("scratch %d range %d", b.id, ri), "variables "+strings.Join(sc, ", "))
			d.query("variables", mk(4), fmt.Sprintf("trace %d range %d", b.id, ri), "variables "+strings.Join(tr, ", "))
		}
	}
	if full {
		n := int64(len(d.v.brs))
		d.query("stackTrace", jo("threadId", jint(n)), "stackTrace of no thread", "frames 0: ")
		d.query("scopes", jo("frameId", jint(n)), "scopes of no frame", "scopes ")
		for _, k := range []int64{0, -3, 5, 1 + 10*n, 2 + 10*n} {
			d.query("variables", jo("variablesReference", jint(k)), fmt.Sprintf("variables of %d", k), "variables ")
		}
	}
}

// dapBody renders the body of a response.
func (d *dapRun) body(cmd string, b *jv) string {
	var ps []string
	open := func(l *jv) {
		if l == nil || l.K != "arr" || l.Open {
			ps = append(ps, "?"+l.String())
		}
	}
	switch cmd {
	case "threads":
		l := b.at("threads")
		open(l)
		for _, t := range l.list() {
			ps = append(ps, t.at("id").String()+" "+unq(t.at("name")))
		}
		return "threads " + strings.Join(ps, ", ")
	case "stackTrace":
		l := b.at("stackFrames")
		open(l)
		for _, t := range l.list() {
			s := t.at("line").String() + ":" + t.at("column").String() + " " + unq(t.at("name"))
			if unq(t.at("source", "path")) != d.path {
				s += " in " + t.at("source").String()
			}
			ps = append(ps, s)
		}
		return "frames " + b.at("totalFrames").String() + ": " + strings.Join(ps, ", ")
	case "scopes":
		l := b.at("scopes")
		open(l)
		for _, t := range l.list() {
			s := unq(t.at("name")) + " " + t.at("variablesReference").String()
			if n := t.at("indexedVariables"); n != nil {
				s += " #" + n.String()
			}
			ps = append(ps, s)
		}
		return "scopes " + strings.Join(ps, ", ")
	case "variables":
		l := b.at("variables")
		open(l)
		for _, t := range l.list() {
			s := unq(t.at("name")) + "=" + unq(t.at("value"))
			if v := t.at("variablesReference"); v == nil || v.String() != "0" {
				s += " ref " + v.String()
			}
			ps = append(ps, s)
		}
		return "variables " + strings.Join(ps, ", ")
	case "setBreakpoints":
		l := b.at("breakpoints")
		open(l)
		d.ids = map[string]string{}
		for _, t := range l.list() {
			w := t.at("line").String() + " " + t.at("verified").String()
			if id := t.at("id"); id != nil && t.at("verified").String() == "true" {
				ln := t.at("line").String()
				if n, err := strconv.Atoi(ln); err == nil {
					ln = strconv.Itoa(n - d.lz)
				}
				if was, ok := d.ids[id.String()]; ok && was != ln {
					w += " with the identifier of line " + was
				}
				d.ids[id.String()] = ln
			}
			ps = append(ps, w)
		}
		return "breakpoints " + strings.Join(ps, ", ")
	}
	return b.String()
}

func (c *Ctx) dapStart(prog [][]tok, path string, l, cz *bool) *dapRun {
	d := &dapRun{v: newOvm(progWords(prog)), path: path, lz: 1, cz: 1}
	a := jo("adapterID", js("teal"))
	if l != nil {
		a.set("linesStartAt1", jbool(*l))
		if !*l {
			d.lz = 0
		}
	}
	if cz != nil {
		a.set("columnsStartAt1", jbool(*cz))
		if !*cz {
			d.cz = 0
		}
	}
	d.send("initialize", a)
	n := d.send("launch", jo("program", js(path)))
	d.asks = append(d.asks, dapAsk{seq: n, what: "launch", kind: "event", want: "process | " + stoppedWant("entry", d.curId(), nil)})
	return d
}

// finish analyses the session and compares every answer.
func (c *Ctx) dapFinish(r *Report, key, pos string, d *dapRun, prog [][]tok) {
	progs, files := map[string][][]tok{"P": prog}, map[string]string{d.path: "P"}
	for path, p := range d.prev {
		progs["at "+path], files[path] = p, "at "+path
	}
	outs := c.session(r, key, "dbg", d.ms, progs, files, nil)
	for _, o := range outs {
		if w := dapShape(o); w != "" {
			r.bad(key, pos, "%s", w)
			return
		}
		for _, a := range d.asks {
			k := fmt.Sprintf("%s/%d %s", key, a.seq, a.what)
			rs := o.responses(fmt.Sprint(a.seq))
			if !r.check(len(rs) == 1 && rs[0].at("success").String() == "true", k, pos, "%d responses, or a failure: %.300s", len(rs), fmt.Sprint(rs)) {
				return
			}
			got := ""
			if a.kind == "event" {
				var es []string
				for _, e := range o.events(int(a.seq)) {
					es = append(es, d.stoppedOrName(e))
				}
				got = strings.Join(es, " | ")
			} else {
				got = d.body(unq(rs[0].at("command")), rs[0].at("body"))
			}
			ok := got == a.want
			for _, w := range a.alt {
				ok = ok || got == w
			}
			if !r.check(ok, k, pos, "it says %q instead of %q", got, strings.Join(append([]string{a.want}, a.alt...), `" or "`)) {
				return
			}
			r.count("answers")
		}
	}
}

func (d *dapRun) stoppedOrName(e *jv) string {
	if unq(e.at("event")) == "stopped" {
		return d.stoppedGot(e)
	}
	return evName(e)
}

const dapPath = "dir/p.teal"

// checkP28: what the debug adapter shows is the simulator's state.
func checkP28(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the debug adapter on small programs covering calls, forks, labels, scratch and traces: after every step (of each thread in several orders, for each line and column base) every thread, frame, scope and variable reported is compared with an independent reference simulator"
	pos := r.fnPos(c.serverFn("dbg", "handle"))
	progs := dapPrograms()
	yes, no := true, false
	for _, pn := range sortedKeys(progs) {
		prog := progs[pn]
		// each base, a few steps
		for bi, base := range [][2]*bool{{nil, nil}, {&yes, &yes}, {&no, &no}, {&no, &yes}, {&yes, &no}, {nil, &no}} {
			d := c.dapStart(prog, dapPath, base[0], base[1])
			d.look(bi == 0)
			for k := 0; k < 3 && d.v.cur >= 0 && !d.v.failed; k++ {
				d.next(d.curId())
				d.look(false)
			}
			c.dapFinish(r, fmt.Sprintf("%s/base %d", pn, bi), pos, d, prog)
			r.count("sessions compared")
		}
		// orders of stepping
		orders := map[string]func(d *dapRun, k int) int{
			"current":     func(d *dapRun, k int) int { return d.curId() },
			"newest":      func(d *dapRun, k int) int { return len(d.v.brs) - 1 },
			"alternating": func(d *dapRun, k int) int { return k % len(d.v.brs) },
			"no thread":   func(d *dapRun, k int) int { return 42 },
		}
		for _, on := range sortedKeys(orders) {
			d := c.dapStart(prog, dapPath, nil, nil)
			for k := 0; k < 40 && d.v.cur >= 0 && !d.v.failed; k++ {
				d.next(orders[on](d, k))
				if !d.v.failed {
					d.look(on == "current" && k%4 == 3)
				}
			}
			if !d.v.failed {
				d.look(true)
				d.next(0) // after the end
				d.look(false)
			}
			c.dapFinish(r, pn+"/"+on, pos, d, prog)
			r.count("sessions compared")
		}
	}
	// another program launched in the same session
	names := sortedKeys(progs)
	for i, pn := range names {
		first := progs[pn]
		second := progs[names[(i+1)%len(names)]]
		for _, steps := range []int{0, 3, 40} {
			d := c.dapStart(first, "dir/first.teal", nil, nil)
			for k := 0; k < steps && d.v.cur >= 0 && !d.v.failed; k++ {
				d.next(d.curId())
			}
			d.prev = map[string][][]tok{"dir/first.teal": first}
			d.v, d.path = newOvm(progWords(second)), dapPath
			n := d.send("launch", jo("program", js(dapPath)))
			d.asks = append(d.asks, dapAsk{seq: n, what: "launch", kind: "event", want: "process | " + stoppedWant("entry", d.curId(), nil)})
			d.look(true)
			for k := 0; k < 4 && d.v.cur >= 0 && !d.v.failed; k++ {
				d.next(d.curId())
				if !d.v.failed {
					d.look(false)
				}
			}
			c.dapFinish(r, fmt.Sprintf("%s after %d steps of %s", names[(i+1)%len(names)], steps, pn), pos, d, second)
			r.count("sessions compared")
		}
	}
	// larger states
	big, steps := bigPrograms()
	for _, pn := range sortedKeys(big) {
		d := c.dapStart(big[pn], dapPath, nil, nil)
		if steps[pn] < 0 {
			d.cont(0)
		}
		for k := 0; k < steps[pn] && d.v.cur >= 0; k++ {
			d.next(d.curId())
		}
		d.look(true)
		c.dapFinish(r, "big "+pn, pos, d, big[pn])
		r.count("sessions compared")
	}
	r.floor("sessions compared", 90)
	r.floor("answers", 3000)
}

// checkP29: breakpoints.
func checkP29(c *Ctx, r *Report) {
	r.Rule = "whole-session abstract interpretation of the debug adapter: for every small program and every set of up to two breakpoint lines (inside, outside, on instructions and on other lines) exactly the executable lines are verified, and continuing stops exactly where the reference simulator first reaches one of them, naming a thread that reached it and the breakpoint; replacing the breakpoints forgets the old ones"
	pos := r.fnPos(c.serverFn("dbg", "handle"))
	progs := dapPrograms()
	no := false
	play := func(key string, prog [][]tok, l *bool, sets [][]int, thread int) {
		d := c.dapStart(prog, dapPath, l, nil)
		d.breakpoints(sets[0])
		for k := 0; k < 14; k++ {
			if k == 1 && len(sets) > 1 {
				d.breakpoints(sets[1])
			}
			d.cont(thread)
			d.look(false)
			if d.v.cur < 0 || d.v.failed {
				break
			}
			// several threads may stop at once; which one is named is open, but
			// the state is not
		}
		if !d.v.failed {
			d.cont(thread)
		}
		c.dapFinish(r, key, pos, d, prog)
		r.count("sessions compared")
	}
	for _, pn := range sortedKeys(progs) {
		prog := progs[pn]
		n := len(prog)
		play(pn+"/none", prog, nil, [][]int{{}}, 0)
		var all, back []int
		for l := 0; l < n; l++ {
			all = append(all, l)
			back = append([]int{l}, back...)
		}
		play(pn+"/all", prog, nil, [][]int{all}, 0)
		play(pn+"/all backwards", prog, nil, [][]int{back, all}, 1)
		for l := -2; l <= n+1; l++ {
			play(fmt.Sprintf("%s/%d", pn, l), prog, nil, [][]int{{l}}, 0)
			play(fmt.Sprintf("%s/%d base 0", pn, l), prog, &no, [][]int{{l}}, 0)
			play(fmt.Sprintf("%s/%d dropped", pn, l), prog, nil, [][]int{{l}, {}}, 0)
			if l >= 0 && l < n && l%2 == 0 {
				play(fmt.Sprintf("%s/%d then outside", pn, l), prog, nil, [][]int{{l}, {n + 3, -1}}, 0)
			}
			for m := l; m < n; m += 3 {
				if m < 0 {
					continue
				}
				play(fmt.Sprintf("%s/%d,%d", pn, l, m), prog, nil, [][]int{{l, m}}, 1)
				if r.Thorough {
					play(fmt.Sprintf("%s/%d then %d", pn, l, m), prog, nil, [][]int{{l}, {m}}, 0)
					play(fmt.Sprintf("%s/%d then %d,%d", pn, m, l, m), prog, nil, [][]int{{m}, {l, m}}, 2)
				}
			}
		}
	}
	// breakpoints in another file
	{
		prog := progs["straight"]
		d := c.dapStart(prog, dapPath, nil, nil)
		d.breakpoints([]int{4})
		d.send("setBreakpoints", jo("source", jo("name", js("dir/q.teal"), "path", js("dir/q.teal")), "breakpoints", ja(jo("line", jint(3)))))
		d.cont(0)
		for _, o := range c.session(r, "other file", "dbg", d.ms, map[string][][]tok{"P": prog}, map[string]string{d.path: "P"}, nil) {
			a := d.asks[len(d.asks)-1]
			var es []string
			for _, e := range o.events(int(a.seq)) {
				es = append(es, d.stoppedOrName(e))
			}
			r.check(strings.Join(es, " | ") == a.want, "other file", pos, "breakpoints set in another file replace those of the program: continuing yields %v instead of %s", es, a.want)
		}
	}
	r.floor("sessions compared", 200)
	r.floor("answers", 3000)
}
