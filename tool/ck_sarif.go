package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
)

type scanEntry struct {
	path string
	dir  bool
	err  bool
}

type scanCase struct {
	name    string
	path    string
	stat    string // dir, file, missing
	walk    []scanEntry
	diags   map[string][]int // severities of the findings per file
	badRead string           // a file that cannot be read
	badAbs  bool
}

// scan interprets the scanner's main function; the file system and the
// findings are given.
func (c *Ctx) scan(sc scanCase) ([]Outcome, *srv, error) {
	fn := c.P.Func("cmd/tealsarif", "main")
	proc := c.P.Func("", "Process")
	if fn == nil || proc == nil {
		return nil, nil, fmt.Errorf("the scanner's main function or Process not found")
	}
	in := c.NewAnalysis(allGlobals)
	in.Unroll, in.Exact, in.ForkPanics = true, true, false
	s := &srv{c: c, in: in, marks: map[string]*jv{}, lens: map[string]Val{}}
	s.install()
	errT := types.Universe.Lookup("error").Type()
	nilErr := &Const{T: errT}
	str := types.Typ[types.String]
	hk := in.Hooks
	hk["flag.StringVar"] = func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := in.symPtr(ctx.St, ctx.Args[0])
		if !ok {
			return nil, false
		}
		in.store(ctx.St, p, mkStr(sc.path))
		return ret(ctx.St), true
	}
	hk["flag.String"] = func(ctx *CallCtx) ([]Outcome, bool) {
		return ret(ctx.St, &Ptr{Cell: in.alloc(ctx.St, mkStr(sc.path)), T: types.NewPointer(str)}), true
	}
	hk["flag.Parse"] = func(ctx *CallCtx) ([]Outcome, bool) { return ret(ctx.St), true }
	stat := func(ctx *CallCtx) ([]Outcome, bool) {
		p, _ := constStr(ctx.Args[0])
		if p != sc.path || sc.stat == "missing" {
			return ret(ctx.St, zeroOf(ctx.Res.At(0).Type()), errVal("stat", errT)), true
		}
		return ret(ctx.St, &Sym{Name: "fi:" + sc.stat, T: ctx.Res.At(0).Type()}, nilErr), true
	}
	hk["os.Stat"], hk["os.Lstat"] = stat, stat
	isDir := func(ctx *CallCtx) ([]Outcome, bool) {
		v := ctx.Recv
		if v == nil {
			v = ctx.Args[0]
		}
		return ret(ctx.St, mkBool(strings.HasPrefix(v.Key(), "fi:dir"))), true
	}
	for _, t := range []string{"io/fs.FileInfo", "io/fs.DirEntry", "os.FileInfo", "os.DirEntry"} {
		hk["("+t+").IsDir"] = isDir
	}
	nameOf := func(ctx *CallCtx) ([]Outcome, bool) {
		v := ctx.Recv
		if v == nil {
			v = ctx.Args[0]
		}
		k := v.Key()
		return ret(ctx.St, mkStr(k[strings.LastIndexAny(k, "/:")+1:])), true
	}
	for _, t := range []string{"io/fs.FileInfo", "io/fs.DirEntry", "os.FileInfo", "os.DirEntry"} {
		hk["("+t+").Name"] = nameOf
	}
	walk := func(ctx *CallCtx) ([]Outcome, bool) {
		fv, ok := ctx.Args[1].(*FuncV)
		root, ok2 := constStr(ctx.Args[0])
		if !ok || !ok2 {
			return nil, false
		}
		et := fv.Fn.Signature.Params().At(1).Type()
		if root != sc.path || sc.stat != "dir" {
			in.incomplete("a directory that is not the one to scan is walked: %q", root)
		}
		skip := map[*State]string{}
		cur := []Outcome{{St: ctx.St, Kind: OutReturn, Vals: []Val{nilErr}}}
		for _, e := range sc.walk {
			var next []Outcome
			for _, o := range cur {
				if o.Kind == OutReturn && strings.HasSuffix(o.Vals[0].Key(), ".SkipDir") {
					// the rest of the directory is left out
					if strings.HasPrefix(e.path, skip[o.St]+"/") {
						next = append(next, o)
						continue
					}
					o.Vals = []Val{nilErr}
				}
				if o.Kind != OutReturn || !isNilConst(o.Vals[0]) {
					next = append(next, o)
					continue
				}
				kind := "file"
				if e.dir {
					kind = "dir"
				}
				er := Val(nilErr)
				if e.err {
					er = errVal("readdir", errT)
				}
				ent := &Sym{Name: "fi:" + kind + ":" + e.path, T: et}
				o.St.facts.assume(cond{op: "eq", a: ent, b: &Const{T: et}, neg: true})
				for _, x := range in.Call(o.St, fv.Fn, []Val{mkStr(e.path), ent, er}, fv.Bind, ctx.Depth+1) {
					skip[x.St] = e.path
					if !e.dir {
						skip[x.St] = path.Dir(e.path)
					}
					next = append(next, x)
				}
			}
			cur = next
		}
		for i, o := range cur {
			if o.Kind == OutReturn && (strings.HasSuffix(o.Vals[0].Key(), ".SkipDir") || strings.HasSuffix(o.Vals[0].Key(), ".SkipAll")) {
				cur[i].Vals = []Val{nilErr}
			}
		}
		return cur, true
	}
	hk["path/filepath.WalkDir"], hk["path/filepath.Walk"] = walk, walk
	hk["path/filepath.Abs"] = func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := constStr(ctx.Args[0])
		if !ok {
			return nil, false
		}
		if sc.badAbs {
			return ret(ctx.St, mkStr(""), errVal("abs", errT)), true
		}
		return ret(ctx.St, mkStr("/work/"+p), nilErr), true
	}
	read := func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := constStr(ctx.Args[0])
		rt := ctx.Res.At(0).Type()
		if !ok {
			return nil, false
		}
		if _, known := sc.diags[p]; !known || p == sc.badRead {
			return ret(ctx.St, zeroOf(rt), errVal("readfile", errT)), true
		}
		y := &Sym{Name: "text of " + p, T: str}
		return ret(ctx.St, &Term{Op: "conv", Args: []Val{y}, T: rt, Extra: typeName(rt)}, nilErr), true
	}
	hk["os.ReadFile"] = read
	hk["(*net/url.URL).String"] = func(ctx *CallCtx) ([]Outcome, bool) {
		p, ok := in.symPtr(ctx.St, ctx.Args[0])
		if !ok {
			return nil, false
		}
		u, ok := in.load(ctx.St, p).(*StructV)
		if !ok {
			return nil, false
		}
		sch, ok1 := constStr(structField(u, "Scheme"))
		pt, ok2 := constStr(structField(u, "Path"))
		if !ok1 || !ok2 {
			return nil, false
		}
		return ret(ctx.St, mkStr(sch+"://"+pt)), true
	}
	pr := func(ctx *CallCtx) ([]Outcome, bool) {
		args, ok := in.variadic(ctx.St, ctx.Args[len(ctx.Args)-1])
		if !ok {
			return nil, false
		}
		if ctx.Name == "fmt.Printf" {
			args = append([]Val{ctx.Args[0]}, args...)
		}
		ctx.St.emit(Event{Kind: "print", Args: args, Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		return ret(ctx.St, in.fresh("n", intT), nilErr), true
	}
	hk["fmt.Printf"], hk["fmt.Print"], hk["fmt.Println"] = pr, pr, pr
	wr := func(ctx *CallCtx) ([]Outcome, bool) {
		ctx.St.emit(Event{Kind: "print", Args: ctx.Args[1:], Pos: ctx.Instr.Pos(), Fn: ctx.Caller})
		return ret(ctx.St, in.fresh("n", intT), nilErr), true
	}
	hk["(*os.File).Write"], hk["(*os.File).WriteString"] = wr, wr
	hk["os.Exit"] = func(ctx *CallCtx) ([]Outcome, bool) {
		if n, ok := constInt(ctx.Args[0]); ok && n == 0 {
			return []Outcome{{St: ctx.St, Kind: OutReturn}}, true
		}
		return []Outcome{{St: ctx.St, Kind: OutPanic, Pan: mkStr("exit")}}, true
	}
	fail := func(ctx *CallCtx) ([]Outcome, bool) {
		return []Outcome{{St: ctx.St, Kind: OutPanic, Pan: mkStr("exit")}}, true
	}
	hk["log.Fatal"], hk["log.Fatalf"], hk["log.Fatalln"], hk["log.Panic"], hk["log.Panicf"] = fail, fail, fail, fail, fail
	// findings
	acc := func(name string, t func(sym string) Val) {
		hk["(github.com/dragmz/teal.Diagnostic)."+name] = func(ctx *CallCtx) ([]Outcome, bool) {
			v := ctx.Recv
			if v == nil {
				v = ctx.Args[0]
			}
			k := v.Key()
			if !strings.HasPrefix(k, "diag:") {
				return nil, false
			}
			return ret(ctx.St, t(k)), true
		}
	}
	for _, m := range []string{"Line", "Begin", "End"} {
		m := m
		acc(m, func(k string) Val { return &Sym{Name: m + " of " + k, T: intT} })
	}
	for _, m := range []string{"String", "Rule"} {
		m := m
		acc(m, func(k string) Val { return &Sym{Name: m + " of " + k, T: str} })
	}
	dt := c.P.Type("", "DiagnosticSeverity")
	acc("Severity", func(k string) Val {
		var n int64
		fmt.Sscan(k[strings.LastIndex(k, "#")+1:], &n)
		return mkInt(n, dt)
	})
	dg := c.P.Type("", "Diagnostic")
	pt := proc.Signature.Results().At(0).Type()
	hook := in.HookAny
	in.HookAny = func(ctx *CallCtx) ([]Outcome, bool) {
		if ctx.Fn != proc {
			return hook(ctx)
		}
		src := s.text(ctx.St, ctx.Args[0])
		path := ""
		if src != nil {
			path = strings.TrimPrefix(src.Key(), "text of ")
		}
		sev, ok := sc.diags[path]
		if !ok {
			in.incomplete("a text that is not known is processed: %s", ctx.Args[0].Key())
		}
		el := pt.Underlying().(*types.Pointer).Elem()
		sv := in.expand(ctx.St, &Sym{Name: "result of " + path, T: el}).(*StructV)
		i := fieldIdx(el, "Diagnostics")
		q := &Seq{T: dg}
		for k, n := range sev {
			y := &Sym{Name: fmt.Sprintf("diag:%s:%d#%d", path, k, n), T: dg}
			ctx.St.facts.assume(cond{op: "eq", a: y, b: &Const{T: dg}, neg: true})
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: y})
		}
		sv.F[i] = in.newSlice(ctx.St, q, el.Underlying().(*types.Struct).Field(i).Type())
		return ret(ctx.St, &Ptr{Cell: in.alloc(ctx.St, sv), T: pt}), true
	}
	outs := in.Call(in.NewState(), fn, nil, nil, 0)
	return outs, s, nil
}

func checkP30(c *Ctx, r *Report) {
	r.Rule = "Abstract interpretation of the scanner's main function with the file system given (a file, directories with nested directories, other files, directories named like programs, unreadable ones) and arbitrary findings (positions, texts and rules unknown, each severity): the report printed lists exactly the scanned programs as artifacts and exactly their findings as results, each with its rule, level, text, one-based position and the index of its own artifact; the rules are the registered ones; an error makes the scan fail and prints no report."
	pos := "cmd/tealsarif/main.go"
	if fn := c.P.Func("cmd/tealsarif", "main"); fn != nil {
		pos = r.fnPos(fn)
	}
	tree := []scanEntry{{path: "d", dir: true}, {path: "d/a.teal"}, {path: "d/b.txt"}, {path: "d/c", dir: true}, {path: "d/c/e.teal"}, {path: "d/c/f.TEAL"}, {path: "d/c/g.teal.bak"}, {path: "d/teal"}, {path: "d/x.teal", dir: true}, {path: "d/x.teal/y.teal"}, {path: "d/z.teal"}}
	all := map[string][]int{"d/a.teal": {1, 2, 3, 4}, "d/b.txt": {1}, "d/c/e.teal": {}, "d/c/f.TEAL": {2}, "d/c/g.teal.bak": {1}, "d/teal": {1}, "d/x.teal/y.teal": {2, 2, 1}, "d/z.teal": {4}}
	broken := append(append([]scanEntry{}, tree[:4]...), scanEntry{path: "d/c", dir: true, err: true})
	var many []scanEntry
	manyD := map[string][]int{}
	for i := 0; i < 12; i++ {
		p := fmt.Sprintf("d/p%02d.teal", i)
		many = append(many, scanEntry{path: p})
		for k := 0; k <= i%4; k++ {
			manyD[p] = append(manyD[p], (i+k)%4+1)
		}
	}
	cases := []scanCase{
		{name: "file", path: "d/a.teal", stat: "file", diags: all},
		{name: "file of another name", path: "d/b.txt", stat: "file", diags: all},
		{name: "file without findings", path: "d/c/e.teal", stat: "file", diags: all},
		{name: "directory", path: "d", stat: "dir", walk: tree, diags: all},
		{name: "empty directory", path: "d", stat: "dir", walk: tree[:1], diags: all},
		{name: "many files", path: "d", stat: "dir", walk: many, diags: manyD},
		{name: "missing", path: "d", stat: "missing", diags: all},
		{name: "unreadable file", path: "d/a.teal", stat: "file", diags: all, badRead: "d/a.teal"},
		{name: "unreadable file in a directory", path: "d", stat: "dir", walk: tree, diags: all, badRead: "d/x.teal/y.teal"},
		{name: "unreadable directory", path: "d", stat: "dir", walk: broken, diags: all},
		{name: "no absolute path", path: "d/a.teal", stat: "file", diags: all, badAbs: true},
	}
	if r.Thorough {
		for n := 1; n < 1<<6; n++ { // every selection of six entries
			var w []scanEntry
			for i := 0; i < 6; i++ {
				if n&(1<<i) != 0 {
					w = append(w, tree[1+i])
				}
			}
			cases = append(cases, scanCase{name: fmt.Sprintf("selection %d", n), path: "d", stat: "dir", walk: w, diags: all})
		}
	}
	// the registered rules
	ids := append(sortedKeys(c.lintRules(r)), "SYNTAX", "PARSE")
	sort.Strings(ids)
	for _, sc := range cases {
		outs, s, err := c.scan(sc)
		if err != nil {
			r.bad(sc.name, pos, "%v", err)
			continue
		}
		r.incompl(s.in, sc.name, pos)
		fails := sc.stat == "missing" || sc.badRead != "" || sc.badAbs
		var paths []string
		if sc.stat == "file" {
			paths = []string{sc.path}
		}
		for _, e := range sc.walk {
			if e.err {
				fails = true
			}
			if !e.dir && strings.HasSuffix(e.path, ".teal") {
				paths = append(paths, e.path)
			}
		}
		n := 0
		for _, o := range outs {
			if o.Kind == OutLoop {
				continue
			}
			n++
			r.count("runs")
			var printed []Event
			for _, e := range o.St.Events() {
				if e.Kind == "print" {
					printed = append(printed, e)
				}
			}
			if fails {
				r.check(o.Kind == OutPanic, sc.name+"/fails", pos, "%s: the scan ends normally although something could not be read", sc.name)
				r.check(len(printed) == 0, sc.name+"/quiet", pos, "%s: a report is printed although something could not be read", sc.name)
				continue
			}
			if !r.check(o.Kind == OutReturn, sc.name+"/ends", pos, "%s: the scan fails", sc.name) {
				continue
			}
			if !r.check(len(printed) == 1 && len(printed[0].Args) == 1, sc.name+"/once", pos, "%s: %d texts are printed instead of one report", sc.name, len(printed)) {
				continue
			}
			j := s.unmark(o.St, printed[0].Args[0])
			if !r.check(j != nil, sc.name+"/report", pos, "%s: what is printed is no report: %s", sc.name, printed[0].Args[0].Key()) {
				continue
			}
			c.sarif(r, sc, pos, j, paths, ids)
		}
		r.check(n > 0, sc.name+"/runs", pos, "%s: the scan has no outcome", sc.name)
	}
	r.floor("runs", 10)
	r.floor("results", 30)
}

func (c *Ctx) sarif(r *Report, sc scanCase, pos string, j *jv, paths, ids []string) {
	one := func(got, want, key, what string) {
		r.check(got == want, sc.name+"/"+key, pos, "%s: %s: %s instead of %s", sc.name, what, got, want)
	}
	one(j.at("version").String(), js("2.1.0").String(), "version", "the version")
	r.check(j.at("$schema").String() != "absent", sc.name+"/schema", pos, "%s: the report has no schema", sc.name)
	runs := j.at("runs")
	if !r.check(runs != nil && runs.K == "arr" && len(runs.A) == 1, sc.name+"/one run", pos, "%s: the report does not have one run", sc.name) {
		return
	}
	run := runs.A[0]
	var got []string
	rules := run.at("tool", "driver", "rules")
	if rules != nil {
		for _, x := range rules.A {
			id, _ := constStr(x.at("id").V)
			got = append(got, id)
			d := x.at("shortDescription", "text")
			r.check(d != nil && d.String() != js("").String(), sc.name+"/described", pos, "%s: rule %s has no description", sc.name, id)
		}
	}
	sort.Strings(got)
	one(strings.Join(got, " "), strings.Join(ids, " "), "rules", "the rules")
	var arts []string
	if a := run.at("artifacts"); a != nil && a.K == "arr" {
		for _, x := range a.A {
			arts = append(arts, x.at("location", "uri").String())
		}
	} else {
		r.bad(sc.name+"/artifacts", pos, "%s: the artifacts are no list", sc.name)
	}
	var want []string
	for _, p := range paths {
		want = append(want, js("file:///work/"+p).String())
	}
	sa, sw := append([]string{}, arts...), append([]string{}, want...)
	sort.Strings(sa)
	sort.Strings(sw)
	one(strings.Join(sa, " "), strings.Join(sw, " "), "artifacts", "the artifacts")
	res := run.at("results")
	if !r.check(res != nil && res.K == "arr" && !res.Open, sc.name+"/results", pos, "%s: the results are no list", sc.name) {
		return
	}
	var gr, wr []string
	join := func(vs ...any) string { return strings.TrimSpace(fmt.Sprintln(vs...)) }
	for _, x := range res.A {
		r.count("results")
		ls := x.at("locations")
		if ls == nil || len(ls.A) != 1 {
			gr = append(gr, "a result without one location")
			continue
		}
		l := ls.A[0].at("physicalLocation")
		uri := l.at("artifactLocation", "uri").String()
		if i, ok := constInt(valOf(l.at("artifactLocation", "index"))); !ok || i < 0 || int(i) >= len(arts) || arts[i] != uri {
			r.bad(sc.name+"/index", pos, "%s: a result about %s refers to artifact %s", sc.name, uri, l.at("artifactLocation", "index"))
		}
		gr = append(gr, join(x.at("ruleId"), x.at("level"), x.at("message", "text"), uri, l.at("region", "startLine"), l.at("region", "startColumn")))
	}
	levels := []string{"", "error", "warning", "note", "note"}
	sym := func(k string) *jv { return &jv{K: "str", V: &Sym{Name: k, T: types.Typ[types.String]}} }
	next := func(k string) *jv {
		return &jv{K: "num", V: linAdd(&Sym{Name: k, T: intT}, mkInt(1, intT), 1, intT)}
	}
	for _, p := range paths {
		for k, n := range sc.diags[p] {
			d := fmt.Sprintf(" of diag:%s:%d#%d", p, k, n)
			wr = append(wr, join(sym("Rule"+d), js(levels[n]), sym("String"+d), js("file:///work/"+p), next("Line"+d), next("Begin"+d)))
		}
	}
	sort.Strings(gr)
	sort.Strings(wr)
	one(strings.Join(gr, "\n"), strings.Join(wr, "\n"), "findings", "the results")
}

func valOf(j *jv) Val {
	if j == nil || j.V == nil {
		return mkStr("")
	}
	return j.V
}
