package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one reported construct.
type Viol struct {
	Key  string // stable identity (no line numbers)
	Pos  string
	Msg  string
	Path []string
}

// Report collects the obligations of one property.
type Report struct {
	ID       string
	Level    string
	Rule     string
	Trusted  []string
	c        *Ctx
	obl      map[string]bool // obligation key -> discharged
	order    []string
	viols    []Viol
	seen     map[string]bool
	funcs    map[*ssa.Function]bool
	counts   map[string]int
	floors   map[string]int
	start    time.Time
	Thorough bool
}

func newReport(c *Ctx, id string) *Report {
	return &Report{ID: id, c: c, Level: "other", Thorough: os.Getenv("VERIF_TIER") == "thorough", obl: map[string]bool{}, seen: map[string]bool{}, funcs: map[*ssa.Function]bool{}, counts: map[string]int{}, floors: map[string]int{}, start: time.Now()}
}

// ok records a discharged obligation.
func (r *Report) ok(key string) {
	if _, have := r.obl[key]; !have {
		r.obl[key] = true
		r.order = append(r.order, key)
	}
}

// bad records a violated obligation at a construct.
func (r *Report) bad(key, pos, format string, a ...any) {
	if _, have := r.obl[key]; !have {
		r.order = append(r.order, key)
	}
	r.obl[key] = false
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.viols = append(r.viols, Viol{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

func (r *Report) check(cond bool, key, pos, format string, a ...any) bool {
	if cond {
		r.ok(key)
	} else {
		r.bad(key, pos, format, a...)
	}
	return cond
}

// floor demands at least n instances of a kind of obligation: a rule that
// matches nothing must not pass silently.
func (r *Report) floor(kind string, n int) { r.floors[kind] = n }
func (r *Report) count(kind string)        { r.counts[kind]++ }

func (r *Report) analysed(in *Interp) {
	for f := range in.Analysed {
		r.funcs[f] = true
	}
}

// incompl turns every analysis limitation into an undecided obligation.
func (r *Report) incompl(in *Interp, key, pos string) {
	r.analysed(in)
	if len(in.Incompl) > 0 {
		r.bad(key+"/undecided", pos, "analysis did not complete: %s", strings.Join(in.Incompl, "; "))
	}
}

func (r *Report) fnPos(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return r.c.P.Pos(f.Pos()) + " " + shortFn(f)
}

type known struct{ prop, key, what string }

func loadKnown(root string) []known {
	f, err := os.Open(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		k := known{}
		head, what, _ := strings.Cut(l, " :: ")
		k.what = what
		for _, p := range strings.SplitN(head, " ", 2) {
			if strings.HasPrefix(p, "property=") {
				k.prop = strings.TrimPrefix(p, "property=")
			} else if strings.HasPrefix(p, "key=") {
				k.key = strings.TrimPrefix(p, "key=")
			}
		}
		out = append(out, k)
	}
	return out
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(root, tier, cmd string) int {
	for k, n := range r.floors {
		if r.counts[k] < n {
			r.bad("floor/"+k, "-", "only %d instances of %q were found (at least %d expected): the rule no longer sees the code it is about", r.counts[k], k, n)
		}
	}
	kn := loadKnown(root)
	var fresh []Viol
	var hit []string
	for _, v := range r.viols {
		matched := false
		for _, k := range kn {
			if k.prop == r.ID && k.key == v.Key {
				matched = true
				hit = append(hit, k.key)
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, k.what, v.Pos)
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	n, d := 0, 0
	for _, k := range r.order {
		n++
		if r.obl[k] {
			d++
		}
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	sample := r.order
	if len(sample) > 40 {
		sample = sample[:40]
	}
	cov := map[string]any{
		"explanation":         r.Rule,
		"obligations":         n,
		"discharged":          d,
		"obligation_kinds":    r.counts,
		"sample_obligations":  sample,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"known_findings":      hit,
		"checker_cmd":         cmd,
		"trusted_base":        append([]string{"go/types and go/ssa (x/tools)", "the abstract interpreter in /verif/tool", "the AVM reference tables in /verif/tool/oracle"}, r.Trusted...),
		"violations_reported": len(fresh),
	}
	ev := map[string]any{"property": r.ID, "tier": tier, "seed": 1, "level": r.Level, "coverage": cov, "wall_s": time.Since(r.start).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, r.ID+".json"), b, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed\n", r.ID, n, d, len(fns))
	if len(fresh) > 0 {
		rp := filepath.Join(evdir, r.ID+".violations.txt")
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.Key, v.Pos, v.Msg)
			for _, p := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", p)
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		max := len(fresh)
		if max > 30 {
			max = 30
		}
		for _, v := range fresh[:max] {
			fmt.Printf("  %s at %s: %s\n", v.Key, v.Pos, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
		return 1
	}
	return 0
}
