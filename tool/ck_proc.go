package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// diag is a diagnostic as its consumers see it.
type diag struct {
	Rule            string
	Line            int64
	Begin, End, Msg string
	Sev             int64
}

func (d diag) String() string {
	return fmt.Sprintf("%s@%d[%s:%s]s%d", d.Rule, d.Line, d.Begin, d.End, d.Sev)
}

// callMethod analyses a getter on an interface value; the result must be the
// same on every path.
func (c *Ctx) callMethod(in *Interp, st *State, v Val, name string, args ...Val) (Val, *State, error) {
	iv, ok := v.(*IfaceV)
	if !ok {
		return nil, nil, fmt.Errorf("%s of %s: the value is not known", name, v.Key())
	}
	fn := c.method(iv, name)
	if fn == nil {
		return nil, nil, fmt.Errorf("%s has no method %s", typeName(iv.Dyn), name)
	}
	outs := in.Call(st.clone(), fn, append([]Val{iv.V}, args...), nil, 0)
	var r Val
	var rs *State
	for _, o := range outs {
		if o.Kind == OutLoop {
			continue
		}
		if o.Kind != OutReturn || len(o.Vals) != 1 {
			return nil, nil, fmt.Errorf("%s.%s can panic", typeName(iv.Dyn), name)
		}
		if r != nil && r.Key() != o.Vals[0].Key() {
			return nil, nil, fmt.Errorf("%s.%s has several results", typeName(iv.Dyn), name)
		}
		r, rs = o.Vals[0], o.St
	}
	if r == nil {
		return nil, nil, fmt.Errorf("%s.%s has no result", typeName(iv.Dyn), name)
	}
	return r, rs, nil
}

func (c *Ctx) diags(p procOut) ([]diag, error) {
	vs, ok := p.seq("Diagnostics")
	if !ok {
		return nil, fmt.Errorf("the diagnostics could not be determined: %s", p.field("Diagnostics").Key())
	}
	var out []diag
	for _, v := range vs {
		var d diag
		for _, m := range []string{"Rule", "Line", "Begin", "End", "Severity"} {
			x, _, err := c.callMethod(p.In, p.Out.St, v, m)
			if err != nil {
				return nil, err
			}
			switch m {
			case "Rule":
				s, ok := constStr(x)
				if !ok {
					return nil, fmt.Errorf("the rule of a diagnostic is not constant: %s", x.Key())
				}
				d.Rule = s
			case "Line":
				n, ok := constInt(x)
				if !ok {
					return nil, fmt.Errorf("the line of a diagnostic is not known: %s", x.Key())
				}
				d.Line = n
			case "Severity":
				d.Sev, _ = constInt(x)
			case "Begin":
				d.Begin = x.Key()
			case "End":
				d.End = x.Key()
			}
		}
		out = append(out, d)
	}
	return out, nil
}

// parseHook replaces the parsers of all registered opcodes by one that
// records nothing and accepts.
func (c *Ctx) parseHook(in *Interp, eff func(ctx *CallCtx) []Outcome) error {
	reg, err := c.Registry()
	if err != nil {
		return err
	}
	fns := map[*ssa.Function]bool{}
	for _, o := range reg {
		fns[o.Parse] = true
	}
	prev := in.HookAny
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		if fns[ctx.Fn] {
			return eff(ctx), true
		}
		if prev != nil {
			return prev(ctx)
		}
		return nil, false
	}
	return nil
}

const modeComment = "#pragma mode logicsig"

func checkP02(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of Process on programs of the form [mode comment] [#pragma version V] <mnemonic>, for every registered opcode, both modes and V an arbitrary 64-bit number (or absent): on every path the availability-in-mode diagnostic is present exactly if the AVM does not offer the opcode in the mode, and the version diagnostic exactly if the path's facts bound V below the version that introduced it in that mode (and absent exactly if they bound it at or above); both are errors located at the mnemonic; the list of required versions agrees. The declared version and mode reach the result unchanged."
	r.floor("opcode x mode", 360)
	fn := c.P.Func("", "Process")
	if fn == nil {
		r.bad("process", "process.go", "Process not found")
		return
	}
	pos := r.fnPos(fn)
	reg, err := c.Registry()
	if err != nil {
		r.bad("registry", pos, "%v", err)
		return
	}
	modes := map[string]Val{}
	for _, m := range []string{"ModeApp", "ModeSig"} {
		v, err := c.constOf(m)
		if err != nil {
			r.bad("modes", pos, "%v", err)
			return
		}
		modes[m] = v
	}
	for _, o := range reg {
		or, ok := oracleOps[o.Name]
		if !ok {
			continue // P01 reports words that are not opcodes
		}
		for _, mode := range []string{"ModeApp", "ModeSig"} {
			for _, pragma := range []bool{true, false} {
				var lines [][]tok
				if mode == "ModeSig" {
					lines = append(lines, []tok{{Kind: "comment", Text: modeComment}})
				}
				if pragma {
					lines = append(lines, []tok{{Text: "#pragma"}, {Text: "version"}, {Sym: "V"}})
				}
				lines = append(lines, tokLine(o.Name))
				need := or.App
				if mode == "ModeSig" {
					need = or.Sig
				}
				key := fmt.Sprintf("%s/%s/pragma=%v", o.Name, mode, pragma)
				r.count("opcode x mode")
				c.gate(r, key, pos, o.Name, mode, modes[mode], lines, need, pragma)
			}
		}
	}
	// what sets the mode
	for text, sig := range map[string]bool{modeComment: true, "  " + modeComment + " ": true, "": false, "#pragma mode app": false, "#pragma mode logicsig x": false, "logicsig": false, "pragma mode logicsig": false} {
		key := fmt.Sprintf("mode/%q", text)
		outs, in, err := c.process([][]tok{{{Kind: "comment", Text: text}}, tokLine("sha256")}, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		r.incompl(in, key, pos)
		want := modes["ModeApp"]
		if sig {
			want = modes["ModeSig"]
		}
		good := len(outs) > 0
		for _, p := range outs {
			if p.Res == nil || p.field("Mode").Key() != want.Key() {
				good = false
			}
		}
		r.check(good, key, pos, "the comment %q does not leave the program in %s mode", text, map[bool]string{true: "logic-signature", false: "application"}[sig])
	}
	// a version pragma governs the lines after it only
	for _, sc := range []struct {
		lines [][]tok
		want  map[int64]bool
	}{
		{[][]tok{tokLine("sha3_256"), tokLine("#pragma", "version", "7"), tokLine("sha3_256")}, map[int64]bool{0: true}},
		{[][]tok{tokLine("#pragma", "version", "7"), tokLine("sha3_256"), tokLine("#pragma", "version", "3"), tokLine("sha3_256")}, map[int64]bool{3: true}},
	} {
		key := fmt.Sprintf("scope/%d", len(sc.lines))
		outs, in, err := c.process(sc.lines, nil)
		if err != nil {
			r.bad(key, pos, "%v", err)
			continue
		}
		r.incompl(in, key, pos)
		why := "no outcome"
		for _, p := range outs {
			if p.Res == nil {
				why = "Process can panic"
				break
			}
			ds, err := c.diags(p)
			if err != nil {
				why = err.Error()
				break
			}
			got := map[int64]bool{}
			for _, d := range ds {
				if d.Rule == "LINT0008" {
					got[d.Line] = true
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(sc.want) {
				why = fmt.Sprintf("version diagnostics on lines %v instead of %v", got, sc.want)
				break
			}
			why = ""
		}
		r.check(why == "", key, pos, "several version pragmas: %s", why)
	}
	// longer programs
	var names []string
	for _, o := range reg {
		if oracleOps[o.Name] != nil {
			names = append(names, o.Name)
		}
	}
	sort.Strings(names)
	g := prng(1)
	for k := 0; k < 120; k++ {
		c.gateProgram(r, pos, fmt.Sprintf("program %d", k), &g, names, modes, k)
	}
	r.floor("longer programs", 100)
}

// gateProgram: a longer program with several pragmas, valid and not.
func (c *Ctx) gateProgram(r *Report, pos, key string, g *prng, names []string, modes map[string]Val, k int) {
	var lines [][]tok
	mode := "ModeApp"
	if k%2 == 1 {
		for i := g.n(7); i > 0; i-- {
			lines = append(lines, [][]tok{{}, {{Kind: "comment", Text: "note"}}, tokLine("a:")}[g.n(3)])
		}
		if k%4 == 3 { // after opcodes that both modes offer from version 1 on
			for i := g.n(9); i > 0; i-- {
				if n := names[g.n(len(names))]; oracleOps[n].App == 1 && oracleOps[n].Sig == 1 {
					lines = append(lines, tokLine(n))
				}
			}
			lines = append(lines, tokLine("+"), tokLine("sha256"), tokLine("pop"))
		}
		mode = "ModeSig"
		lines = append(lines, []tok{{Kind: "comment", Text: modeComment}})
	}
	ver := uint64(1)
	var v7, v8, req []string
	vs := []string{"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "255", "256", "257", "264", "65536", "4294967299", "18446744073709551615"}
	bad := [][]tok{tokLine("#pragma"), tokLine("#pragma", "version"), tokLine("#pragma", "version", "0"), tokLine("#pragma", "version", "x"), tokLine("#pragma", "version", "18446744073709551616"), tokLine("#pragma", "frob", "9")}
	for i := 3 + k/3; i > 0; i-- {
		at := len(lines)
		switch g.n(8) {
		case 0, 1:
			v := vs[g.n(len(vs))]
			ver, _ = strconv.ParseUint(v, 10, 64)
			lines = append(lines, tokLine("#pragma", "version", v))
		case 2:
			lines = append(lines, bad[g.n(len(bad))])
		case 3:
			lines = append(lines, [][]tok{{}, {{Kind: "comment", Text: "note"}}, tokLine("a:"), tokLine("frob")}[g.n(4)])
		default:
			n := names[g.n(len(names))]
			need := oracleOps[n].App
			if mode == "ModeSig" {
				need = oracleOps[n].Sig
			}
			lines = append(lines, tokLine(n))
			if need == 0 {
				v7 = append(v7, fmt.Sprint(at))
			} else if uint64(need) > ver {
				v8 = append(v8, fmt.Sprint(at))
				req = append(req, fmt.Sprintf("%d:%d", at, need))
			}
		}
	}
	lines = append(lines, tokLine("a:"))
	r.count("longer programs")
	outs, in, err := c.process(lines, func(in *Interp, st *State) {
		c.parseHook(in, func(ctx *CallCtx) []Outcome {
			return []Outcome{{St: ctx.St, Kind: OutReturn}}
		})
	})
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	r.incompl(in, key, pos)
	why := "no outcome"
	for _, p := range outs {
		if p.Res == nil {
			why = "Process can panic"
			break
		}
		ds, err := c.diags(p)
		if err != nil {
			why = err.Error()
			break
		}
		var g7, g8, gr []string
		for _, d := range ds {
			switch d.Rule {
			case "LINT0007":
				g7 = append(g7, fmt.Sprint(d.Line))
			case "LINT0008":
				g8 = append(g8, fmt.Sprint(d.Line))
			}
		}
		vl, ok := p.seq("Versions")
		if !ok {
			why = "the required versions could not be determined"
			break
		}
		for _, x := range vl {
			gr = append(gr, structField(x, "Line").Key()+":"+structField(x, "Version").Key())
		}
		why = ""
		switch {
		case fmt.Sprint(g7) != fmt.Sprint(v7):
			why = fmt.Sprintf("the lines not available in the mode are %v instead of %v", g7, v7)
		case fmt.Sprint(g8) != fmt.Sprint(v8):
			why = fmt.Sprintf("the lines that need a later version are %v instead of %v", g8, v8)
		case fmt.Sprint(gr) != fmt.Sprint(req):
			why = fmt.Sprintf("the required versions are %v instead of %v", gr, req)
		case p.field("Version").Key() != fmt.Sprint(ver):
			why = fmt.Sprintf("the version is %s instead of %d", p.field("Version").Key(), ver)
		case p.field("Mode").Key() != modes[mode].Key():
			why = "the mode is " + p.field("Mode").Key()
		}
		if why != "" {
			break
		}
	}
	var text []string
	for _, l := range lines {
		text = append(text, toksText(l))
	}
	r.check(why == "", key, pos, "program %q in %s: %s", strings.Join(text, "; "), mode, why)
}

func (c *Ctx) gate(r *Report, key, pos, name, mode string, modeV Val, lines [][]tok, need int64, pragma bool) {
	outs, in, err := c.process(lines, func(in *Interp, st *State) {
		c.parseHook(in, func(ctx *CallCtx) []Outcome {
			ctx.St.emit(Event{Kind: "parsed"})
			return []Outcome{{St: ctx.St, Kind: OutReturn}}
		})
	})
	if err != nil {
		r.bad(key, pos, "%v", err)
		return
	}
	r.incompl(in, key, pos)
	at := int64(len(lines) - 1)
	why := ""
	n, low, high := 0, 0, 0
	for _, p := range outs {
		if p.Res == nil {
			why = "Process can panic: " + p.Out.Pan.Key()
			continue
		}
		n++
		ds, err := c.diags(p)
		if err != nil {
			why = err.Error()
			continue
		}
		var m, v []diag
		bad := false
		for _, d := range ds {
			switch {
			case d.Rule == "LINT0007":
				m = append(m, d)
			case d.Rule == "LINT0008":
				v = append(v, d)
			case d.Line != at:
				bad = true
			}
		}
		ver := p.field("Version")
		if p.field("Mode").Key() != modeV.Key() {
			why = fmt.Sprintf("the program's mode is %s", p.field("Mode").Key())
		}
		want := (func() int {
			if need == 0 {
				return 0
			}
			switch p.Out.St.facts.decide(cond{op: "le", a: mkInt(need, typeOf(ver)), b: ver}) {
			case 0:
				return 1
			case 1:
				return 0
			}
			return -1
		})()
		if pragma && !bad {
			if !strings.Contains(ver.Key(), "V") {
				why = "the declared version does not reach the result"
			}
		} else if k, ok := constInt(ver); !ok || k != 1 {
			why = fmt.Sprintf("without a valid version pragma the program's version is %s instead of 1", ver.Key())
		}
		if want < 0 {
			why = fmt.Sprintf("whether %s is available does not depend on the version being at least %d", name, need)
			continue
		}
		if want == 1 {
			low++
		} else {
			high++
		}
		wantMode := 0
		if need == 0 {
			wantMode = 1
		}
		if len(m) != wantMode {
			why = fmt.Sprintf("%d diagnostics that %s is not available in this mode instead of %d", len(m), name, wantMode)
		}
		if len(v) != want {
			cmp := "below"
			if want == 0 {
				cmp = "at or above"
			}
			why = fmt.Sprintf("%d version diagnostics instead of %d although the version is %s %d", len(v), want, cmp, need)
		}
		tb, te := fmt.Sprintf("f:b(t%d_0)", at), fmt.Sprintf("f:e(t%d_0)", at)
		for _, d := range append(append([]diag{}, m...), v...) {
			if d.Line != at || d.Begin != tb && !strings.Contains(d.Begin, fmt.Sprintf("t%d_0", at)) || d.End != te && !strings.Contains(d.End, fmt.Sprintf("t%d_0", at)) {
				why = "the diagnostic is not located at the opcode: " + d.String()
			}
			if d.Sev != 1 {
				why = "the diagnostic is not an error"
			}
		}
		vs, ok := p.seq("Versions")
		if !ok || len(vs) != want {
			why = fmt.Sprintf("%d required versions are listed instead of %d", len(vs), want)
		}
		for _, x := range vs {
			if k, ok := constInt(structField(x, "Version")); !ok || k != need {
				why = fmt.Sprintf("the required version of %s is listed as %s instead of %d", name, structField(x, "Version").Key(), need)
			}
			if k, ok := constInt(structField(x, "Line")); !ok || k != at {
				why = fmt.Sprintf("the required version is listed for line %s instead of %d", structField(x, "Line").Key(), at)
			}
		}
		np := 0
		for _, e := range p.Out.St.Events() {
			if e.Kind == "parsed" {
				np++
			}
		}
		if np != 1 {
			why = fmt.Sprintf("the arguments of %s are parsed %d times", name, np)
		}
	}
	if why == "" && n == 0 {
		why = "no outcome"
	}
	if why == "" && pragma && (high == 0 || need > 1 && low == 0) {
		why = "not both sides of the version bound are reachable"
	}
	r.check(why == "", key, pos, "%s in %s: %s", name, mode, why)
}

var _ = sort.Strings
var _ types.Type
