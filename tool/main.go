package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func newCtx(dir string) (*Ctx, error) {
	p, err := Load(dir)
	if err != nil {
		return nil, err
	}
	in, st, err := InitSnapshot(p, "")
	if err != nil {
		return nil, err
	}
	return &Ctx{P: p, SnapIn: in, Snap: st}, nil
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	if len(os.Args) > 3 && os.Args[1] == "facts" {
		n := 0
		fmt.Sscan(os.Args[3], &n)
		dumpFacts(os.Args[2], n)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "ask" {
		dumpAsk(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "serve" {
		dumpServe()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "proc" {
		dumpProc(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "exec" {
		dumpExec(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "tables" {
		dumpTables()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "ranges" {
		c, err := newCtx("/repo")
		if err == nil {
			dumpMapRanges(c.P)
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "vers" {
		dumpVers()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
}

func dump(names []string) {
	c, err := newCtx("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	regs, _ := c.Registry()
	for _, r := range regs {
		if len(names) > 0 && names[0] != r.Name {
			continue
		}
		for n := 0; n < 5; n++ {
			in := c.NewAnalysis(ptrOrIfaceGlobal)
			st, ctx, cc, err := c.parserState(in, n)
			if err != nil {
				panic(err)
			}
			outs := in.Call(st, r.Parse, []Val{ctx}, r.Bind, 0)
			fmt.Println("==", r.Name, n, len(outs), in.Incompl)
			for _, o := range outs {
				if o.Kind == OutLoop {
					fmt.Println("    loop", o.Loop)
					continue
				}
				ctxv := o.St.get(cc).(*StructV)
				ops := structField(ctxv, "ops")
				q, _ := in.seqOf(o.St, ops)
				diag := structField(ctxv, "diag")
				dq, _ := in.seqOf(o.St, diag)
				fmt.Println("   ", o.Kind, "ops:", q.Key())
				if o.Kind == OutPanic {
					fmt.Println("      pan", o.Pan.Key(), "diag", dq.Key())
				}
				if o.Kind == OutReturn {
					last := q.Segs[len(q.Segs)-1].V
					if iv, ok := last.(*IfaceV); ok {
						fn := c.P.Prog.LookupMethod(iv.Dyn, nil, "String")
						so := in.Call(o.St.clone(), fn, []Val{iv.V}, nil, 0)
						for _, s := range so {
							if s.Kind != OutReturn {
								fmt.Println("      str", s.Kind, s.Loop)
								continue
							}
							fmt.Println("      str", s.Kind, s.Vals[0].Key())
						}
					}
				}
			}
		}
	}
}

func dumpVers() {
	c, err := newCtx("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	regs, _ := c.Registry()
	for _, r := range regs {
		s, _ := constInt(structField(r.Item, "SigVersion"))
		a, _ := constInt(structField(r.Item, "AppVersion"))
		fmt.Println(r.Name, s, a)
	}
}

func repoDir() string {
	if d := os.Getenv("TEAL_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id string) int {
	f, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c, err := newCtx(repoDir())
	if err != nil {
		// the tree cannot be analysed: nothing was shown
		r := newReport(&Ctx{}, id)
		r.bad("load", "-", "%v", err)
		return r.finish(verifRoot(), tier, "run.sh "+id)
	}
	r := newReport(c, id)
	go guard(r, tier)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.bad("analyser", "-", "the analysis could not finish: %v", e)
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		f(c, r)
	}()
	return r.finish(verifRoot(), tier, "run.sh "+id)
}

// guard ends an analysis that outgrows its resources: nothing was decided.
func guard(r *Report, tier string) {
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 14<<30 || time.Since(r.start) > 820*time.Second && tier == "quick" {
			g := newReport(r.c, r.ID)
			g.bad("analyser", "-", "the analysis outgrew its resources (%d MB, %.0f s)", m.HeapAlloc>>20, time.Since(r.start).Seconds())
			os.Exit(g.finish(verifRoot(), tier, "run.sh "+r.ID))
		}
	}
}
