package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type ruleFn func(*Ctx)

var rules = map[string]ruleFn{}

// explain describes, for the evidence, what the rule decides on.
var explain = map[string]string{}

func reg(id, what string, f ruleFn) {
	rules[id] = f
	explain[id] = what
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	evid := flag.String("evidence", "", "directory for evidence files")
	known := flag.String("known", "", "known-findings file")
	dbg := flag.String("debug", "", "dump an engine method")
	flag.Parse()
	if *dbg != "" {
		debugDump(*repo, *dbg, flag.Args())
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	t0 := time.Now()
	w, err := LoadWorld(*repo)
	load := time.Since(t0)
	for _, id := range ids {
		t1 := time.Now()
		c := &Ctx{w: w, prop: id, tier: *tier, seen: map[string]bool{}, cov: map[string]int64{}, fns: map[string]bool{}}
		if err != nil {
			c.failAt("load", "-", "-", "the repository does not type-check: %v", err)
		} else if rules[id] == nil {
			c.failAt("rule", "-", "-", "no rule for %s", id)
		} else {
			guard(c, rules[id])
		}
		wall := time.Since(t1) + load
		if report(c, *evid, *known, wall) {
			code = 1
		}
	}
	os.Exit(code)
}

func guard(c *Ctx, f ruleFn) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(engineAbort); ok {
				c.failAt("undecided:"+firstWords(a.msg), "-", "-", "the analysis could not decide the property: %s", a.msg)
				return
			}
			if os.Getenv("VP_TRACE") != "" {
				debug.PrintStack()
			}
			c.failAt("undecided:panic", "-", "-", "the analysis could not decide the property: %v", r)
		}
	}()
	f(c)
	if c.cov["obligations"] == 0 && len(c.viols) == 0 {
		c.failAt("vacuous", "-", "-", "the rule met no obligation")
	}
}

func firstWords(s string) string {
	f := strings.Fields(s)
	if len(f) > 4 {
		f = f[:4]
	}
	return strings.Join(f, " ")
}

// report prints the verdict and writes the evidence; true means violated.
func report(c *Ctx, evid, known string, wall time.Duration) bool {
	listed := readKnown(known, c.prop)
	var bad []Viol
	for _, v := range c.viols {
		id := v.Key + " @ " + v.Fn
		if d, ok := listed[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, d)
			continue
		}
		bad = append(bad, v)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Key < bad[j].Key })
	replay := "-"
	if evid != "" {
		os.MkdirAll(evid, 0o755)
		replay = filepath.Join(evid, c.prop+".violation.txt")
		if len(bad) > 0 {
			var b strings.Builder
			for _, v := range bad {
				fmt.Fprintf(&b, "property %s\nidentity: %s @ %s\nat: %s\nin: %s\n%s\n\n", c.prop, v.Key, v.Fn, v.Pos, v.Fn, v.Msg)
			}
			os.WriteFile(replay, []byte(b.String()), 0o644)
		} else {
			os.Remove(replay)
		}
		writeEvidence(c, evid, len(bad), wall)
	}
	for _, v := range bad {
		fmt.Printf("%s: [%s] %s: %s\n", c.prop, v.Key, v.Pos, v.Msg)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replay)
		return true
	}
	fmt.Printf("OK property=%s obligations=%d %.1fs\n", c.prop, c.cov["obligations"], wall.Seconds())
	return false
}

// readKnown reads "property=<id> identity=<key @ fn> :: description" lines.
func readKnown(path, prop string) map[string]string {
	r := map[string]string{}
	if path == "" {
		return r
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "property="+prop+" identity=") {
			continue
		}
		l = strings.TrimPrefix(l, "property="+prop+" identity=")
		if i := strings.Index(l, " :: "); i >= 0 {
			r[l[:i]] = l[i+4:]
		}
	}
	return r
}

func writeEvidence(c *Ctx, dir string, nviol int, wall time.Duration) {
	cov := map[string]any{"explanation": explain[c.prop]}
	for k, v := range c.cov {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	var steps, sites, merges, loops int
	fns := map[string]bool{}
	for _, e := range c.engs {
		steps += e.steps
		sites += len(e.sites)
		merges += e.merges
		loops += len(e.loops)
		for f := range e.fnsSeen {
			fns[fnName(f)] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["abstract_steps"] = steps
	cov["effect_sites"] = sites
	cov["state_joins"] = merges
	cov["loops_generalised"] = loops
	cov["functions_analysed"] = len(fl)
	cov["functions"] = fl
	if c.w != nil {
		cov["files_loaded"] = c.w.nfiles
		cov["repo_functions"] = c.w.nfuncs
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": 1, "level": "other",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": nviol,
		"assumptions": []string{
			"the go/types and go/ssa representation of the source is faithful",
			"listeners, the table manager backend, the regulator and the blind do not change the competition during the call that reaches them, except where the rule says so",
			"no element of the player or table lists is nil",
			"integer arithmetic does not overflow",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}

func debugDump(repo, name string, rest []string) {
	t0 := time.Now()
	w, err := LoadWorld(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	e := NewEngine(w, &Config{TrackAll: len(rest) > 0})
	e.initGlobals()
	c := &Ctx{w: w, seen: map[string]bool{}, cov: map[string]int64{}, fns: map[string]bool{}}
	t := c.engineType()
	if i := strings.IndexByte(name, '.'); i > 0 {
		t = w.namedType(w.root, name[:i])
		if t == nil {
			t = w.namedType(w.blind, name[:i])
		}
		if t == nil {
			t = w.namedType(w.actor, name[:i])
		}
		name = name[i+1:]
	}
	r := c.run(e, t, name, nil)
	fmt.Println("outcomes", len(r.outs), "steps", e.steps, "merges", e.merges, time.Since(t0))
	for i, o := range r.outs {
		fmt.Println("== outcome", i, o.ret)
		dumpFacts(o.st.facts)
		dumpLog(o.st.log, "   ")
	}
	for _, a := range e.asyncs {
		fmt.Println("#### async", a.label, a.args, len(a.outcomes))
		for i, o := range a.outcomes {
			fmt.Println("== outcome", i, o.ret)
			dumpFacts(o.st.facts)
			dumpLog(o.st.log, "   ")
		}
	}
}

func dumpFacts(f *Facts) {
	for t, iv := range f.iv {
		fmt.Println("   ", t, "in", iv)
	}
	for t, s := range f.set {
		for k := range s.allowed {
			fmt.Println("   ", t, "∈", k)
		}
		for k := range s.excl {
			fmt.Println("   ", t, "∉", k)
		}
	}
	for t, b := range f.atoms {
		fmt.Println("   ", t, "=", b)
	}
}

func dumpLog(l *LogNode, ind string) {
	for _, f := range l.effects() {
		switch f.kind {
		case "loop":
			fmt.Println(ind, "LOOP over", f.loop.seq, "full", f.loop.full, "conts", len(f.loop.conts))
			for i, c := range f.loop.conts {
				fmt.Println(ind, "  - cont", i)
				dumpLog(c.log, ind+"      ")
			}
		default:
			fmt.Println(ind, f.kind, f.name, f.addr, "=", f.val, f.args, "->", f.res)
		}
	}
}
