// Command gosym decides properties of google/licensecheck by executing the real code
// symbolically (go/ssa, from the working tree) and asking an SMT solver.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"
)

var (
	verbose int
)

func command(name string, args ...string) *exec.Cmd { return exec.Command(name, args...) }

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	runtime.GOMAXPROCS(runtime.NumCPU())
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		os.Exit(listMain(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
	os.Exit(2)
}

// packagesOf lists the harness packages that contain harnesses of the property.
func packagesOf(verif, prop string) []string {
	var res []string
	re := regexp.MustCompile(`(?m)^func ` + prop + `_\w+\(`)
	dirs, _ := os.ReadDir(filepath.Join(verif, "harness"))
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "sym" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d.Name(), "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if re.Match(b) {
				res = append(res, d.Name())
				break
			}
		}
	}
	return res
}

// harnessDocs collects the comments of the harnesses, which state their bounds.
func harnessDocs(verif string, pkgs []string) map[string]string {
	docs := map[string]string{}
	re := regexp.MustCompile(`(?m)((?:^//.*\n)+)^func (C\d\d_\w+)\((?:\w+ )?int\)`)
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", p, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				d := strings.ReplaceAll(strings.TrimPrefix(strings.TrimSpace(m[1]), "// "), "\n//", "")
				docs[p+"."+m[2]] = strings.TrimPrefix(d, m[2]+": ")
			}
		}
	}
	return docs
}

type nreq struct {
	Name     string   `json:"name"`
	Job      int      `json:"job"`
	Vals     []uint64 `json:"vals"`
	Thorough bool     `json:"thorough"`
}

type nresp struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Stack  string   `json:"stack"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

// native runs requests in one process. The last response describes a crash or timeout.
func native(bin string, qs []nreq, timeout time.Duration) []nresp {
	var in bytes.Buffer
	for _, q := range qs {
		if q.Vals == nil {
			q.Vals = []uint64{}
		}
		b, _ := json.Marshal(q)
		in.Write(b)
		in.WriteByte('\n')
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// the address space limit keeps a runaway replay from taking the machine down
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0"`, bin)
	if strings.HasSuffix(bin, "-race") {
		// the race detector maps terabytes of addresses
		cmd = exec.CommandContext(ctx, bin)
	}
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1 exitcode=66")
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var rs []nresp
	dec := json.NewDecoder(&out)
	for {
		var r nresp
		if dec.Decode(&r) != nil {
			break
		}
		rs = append(rs, r)
	}
	if len(rs) < len(qs) {
		r := nresp{Kind: "crash", Msg: fmt.Sprint(err)}
		if ctx.Err() != nil {
			r = nresp{Kind: "hang", Msg: fmt.Sprintf("no result after %v", timeout)}
		}
		s := errb.String()
		if strings.Contains(s, "DATA RACE") {
			r.Kind = "race"
		}
		if len(s) > 6000 {
			s = s[:6000]
		}
		r.Stack = s
		rs = append(rs, r)
	}
	return rs
}

func bad(r nresp) bool {
	switch r.Kind {
	case "assert", "panic", "crash", "hang", "race":
		return true
	}
	return false
}

type known struct {
	prop, harness, match, what string
}

func loadKnown(verif string) []known {
	var ks []known
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) match=(\S+) (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			u, err := strconv.Unquote(m[3])
			if err != nil {
				u = m[3]
			}
			ks = append(ks, known{m[1], m[2], u, m[4]})
		}
	}
	return ks
}

// slowZ3 lists the properties with many related queries, for which one solver with assumptions
// is quicker than a stack of assertions.
var slowZ3 = map[string]bool{"C04": true, "C05": true, "C10": true, "C19": true, "C20": true}

func checkMain(args []string) int {
	t0 := time.Now()
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fl.String("repo", env("GOSYM_REPO", "/repo"), "")
	verif := fl.String("verif", env("GOSYM_VERIF", "/verif"), "")
	tier := fl.String("tier", env("VERIF_TIER", "quick"), "")
	budget := fl.Duration("budget", 0, "")
	workers := fl.Int("j", runtime.NumCPU(), "")
	only := fl.String("only", "", "harness name regexp")
	onlyJob := fl.Int("job", -1, "")
	v := fl.Int("v", 0, "")
	dump := fl.String("dump", "", "directory for SMT-LIB queries")
	steps := fl.Int64("steps", 0, "")
	first := fl.Bool("first", false, "stop soon after the first candidate violation")
	prop := args[0]
	fl.Parse(args[1:])
	verbose = *v
	if slowZ3[prop] && os.Getenv("GOSYM_Z3") == "" {
		z3Kind = 2
	}
	thorough := *tier == "thorough"
	if thorough {
		crossSat, crossUnsat = 32, 8
	}
	if *budget == 0 {
		*budget = 400 * time.Second
		if thorough {
			*budget = 720 * time.Second
		}
	}
	hp := packagesOf(*verif, prop)
	if len(hp) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	ld, err := load(*repo, *verif, hp, thorough)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	ld.dumpDir = *dump
	hs := ld.harnesses(prop)
	if *only != "" {
		re := regexp.MustCompile(*only)
		var f []*Harness
		for _, h := range hs {
			if re.MatchString(h.Name) {
				f = append(f, h)
			}
		}
		hs = f
	}
	loadDur := time.Since(t0)

	// build the native binary meanwhile
	type built struct {
		bin string
		err error
	}
	bc := make(chan built, 1)
	race := prop == "C14" || prop == "C27"
	go func() {
		b, err := ld.buildNative(tmp, hs, race)
		bc <- built{b, err}
	}()

	pool := newPool(ld, *workers, t0.Add(*budget))
	pool.first = *first
	if *steps > 0 {
		pool.maxSteps = *steps
	}
	// job counts
	w0 := &Worker{pool: pool, prof: map[string]int{}}
	if err := w0.initInterp(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var jobs []*job
	for _, h := range hs {
		n := 1
		if h.NFn != nil {
			n = int(w0.in.call(w0.in.info(h.NFn), nil, nil).u)
		}
		for j := 0; j < n; j++ {
			if *onlyJob >= 0 && j != *onlyJob {
				continue
			}
			jobs = append(jobs, &job{h: h, j: j, notes: map[string]int{}, covers: map[string]int{}, queue: []Item{{}}})
		}
	}
	pool.jobs = jobs
	pool.run()
	if pool.initErr != nil {
		fmt.Fprintln(os.Stderr, pool.initErr)
		return 2
	}
	symDur := time.Since(t0)

	b := <-bc
	if b.err != nil {
		fmt.Fprintln(os.Stderr, b.err)
		return 2
	}

	ks := loadKnown(*verif)
	knownHit := map[string]bool{}
	var violations []string
	spurious := 0
	var spur []string
	vdir := filepath.Join(*verif, "evidence", "replay")
	report := func(jb *job, vals []uint64, what, where string, r nresp) {
		for _, k := range ks {
			if k.prop == prop && k.harness == jb.h.Name {
				if ok, _ := regexp.MatchString(k.match, fmt.Sprint(r.Msg, " ", strings.Join(r.Obs, " "))); ok {
					if !knownHit[k.what] {
						knownHit[k.what] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
					}
					return
				}
			}
		}
		os.MkdirAll(vdir, 0o777)
		path := filepath.Join(vdir, fmt.Sprintf("%s-%d.json", prop, len(violations)+1))
		rec := map[string]any{"property": prop, "harness": jb.h.Name, "job": jb.j, "vals": vals, "thorough": thorough,
			"symbolic": what, "where": where, "native": r, "how": "gosym replay " + path}
		js, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(path, js, 0o666)
		violations = append(violations, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s[%d]: %s; natively: %s %s\n", jb.h.Name, jb.j, what, r.Kind, r.Msg)
		for _, o := range r.Obs {
			fmt.Printf("    %s\n", o)
		}
	}
	// candidates
	seen := map[string]int{}
	for _, jb := range jobs {
		for _, c := range jb.cands {
			key := fmt.Sprint(jb.h.Name, c.kind, c.msg)
			seen[key]++
			if seen[key] > 3 || len(violations) >= 5 {
				continue
			}
			rs := native(b.bin, []nreq{{jb.h.Name, jb.j, c.model, thorough}}, 20*time.Second)
			r := rs[len(rs)-1]
			if bad(r) {
				report(jb, c.model, c.kind+": "+c.msg, c.where, r)
				seen[key] += 3
			} else {
				if c.kind != "hang" {
					spurious++
					spur = append(spur, fmt.Sprintf("%s[%d] %s: %s at %s vals %v natively %s %s", jb.h.Name, jb.j, c.kind, c.msg, c.where, c.model, r.Kind, r.Msg))
				} else {
					jb.notes["step bound reached without a native hang: "+c.where]++
				}
			}
		}
	}
	// conformance of the interpreter with the real code
	conf, mism := 0, []string{}
	var qs []nreq
	var ss []*sample
	for _, jb := range jobs {
		for _, s := range jb.samp {
			qs = append(qs, nreq{jb.h.Name, jb.j, s.model, thorough})
			ss = append(ss, s)
		}
	}
	for len(qs) > 0 && len(violations) == 0 {
		n := len(qs)
		if n > 200 {
			n = 200
		}
		rs := native(b.bin, qs[:n], 120*time.Second)
		for i, r := range rs {
			if i >= n {
				break
			}
			s := ss[i]
			if bad(r) {
				if len(violations) < 5 {
					report(s.job, s.model, "replayed path", "", r)
				}
				continue
			}
			if r.Kind != "ok" {
				mism = append(mism, fmt.Sprintf("%s[%d] %v: %s %s", s.job.h.Name, s.job.j, s.model, r.Kind, r.Msg))
				continue
			}
			if strings.Join(r.Obs, "\n") != strings.Join(s.obs, "\n") || strings.Join(r.Covers, "\n") != strings.Join(s.covers, "\n") {
				mism = append(mism, fmt.Sprintf("%s[%d] %v: interpreter %v %v, real code %v %v", s.job.h.Name, s.job.j, s.model, s.obs, s.covers, r.Obs, r.Covers))
				continue
			}
			conf++
		}
		qs, ss = qs[n:], ss[n:]
	}

	// evidence
	var tot stats
	ev := map[string]any{}
	var hrep []map[string]any
	incomplete := 0
	byH := map[string]map[string]any{}
	var samples []map[string]any
	allNotes := map[string]int{}
	covers := map[string]int{}
	bounds := harnessDocs(*verif, hp)
	emptyH := []string{}
	for _, jb := range jobs {
		tot.add(&jb.stats)
		st := "complete"
		left := len(jb.queue)
		if left > 0 || jb.stats.unsup > 0 || jb.stats.bugs > 0 || jb.stats.unknown > 0 || jb.stats.limit > 0 {
			st = "incomplete"
			incomplete++
		}
		if len(jb.cands) > 0 && left > 0 {
			st = "stopped"
		}
		r := byH[jb.h.Name]
		if r == nil {
			r = map[string]any{"harness": jb.h.Name, "bounds": bounds[jb.h.Name], "jobs": 0, "jobs_complete": 0, "paths": 0, "assertions_solved": 0, "assertions_by_evaluation": 0, "unexplored_items": 0}
			byH[jb.h.Name] = r
			hrep = append(hrep, r)
		}
		r["jobs"] = r["jobs"].(int) + 1
		if st == "complete" {
			r["jobs_complete"] = r["jobs_complete"].(int) + 1
		}
		r["paths"] = r["paths"].(int) + jb.stats.paths
		r["assertions_solved"] = r["assertions_solved"].(int) + jb.stats.assertQ
		r["assertions_by_evaluation"] = r["assertions_by_evaluation"].(int) + jb.stats.assertConst
		r["unexplored_items"] = r["unexplored_items"].(int) + left
		for n, k := range jb.notes {
			allNotes[n] += k
		}
		for n, k := range jb.covers {
			covers[jb.h.Name+":"+n] += k
		}
		if jb.stats.paths == 0 {
			emptyH = append(emptyH, fmt.Sprintf("%s[%d]", jb.h.Name, jb.j))
		}
		if len(jb.samp) > 0 && len(samples) < 12 {
			s := jb.samp[len(jb.samp)/2]
			samples = append(samples, map[string]any{"harness": jb.h.Name, "job": jb.j, "input": s.model, "observed": s.obs})
		}
		if verbose > 0 {
			fmt.Fprintf(os.Stderr, "%s[%d] %s: paths %d infeasible %d left %d steps %d branches %d asserts %d+%d queries %d (%d sat %d unsat %d unk) z3 %.1fs max %.2fs dom %d cpu %.1fs covers %v notes %v\n", jb.h.Name, jb.j, st, jb.stats.paths, jb.stats.infeasible, left, jb.stats.steps,
				jb.stats.branches, jb.stats.assertConst, jb.stats.assertQ, jb.stats.queries, jb.stats.sat, jb.stats.unsat, jb.stats.unk, jb.stats.z3.Seconds(), jb.stats.maxQ.Seconds(), jb.stats.domQ, jb.cpu.Seconds(), jb.covers, jb.notes)
		}
	}
	var funcs []string
	for f := range pool.funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, verifPath) {
			funcs = append(funcs, strings.ReplaceAll(f, modPath, "licensecheck"))
		}
	}
	sort.Strings(funcs)
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	sort.Slice(hrep, func(i, j int) bool { return hrep[i]["harness"].(string) < hrep[j]["harness"].(string) })
	ev["property"] = prop
	ev["tier"] = *tier
	ev["seed"] = seed
	ev["level"] = "model_checking"
	ev["coverage"] = map[string]any{
		"states":                               tot.paths,
		"transitions":                          tot.branches,
		"traces_validated_against_impl":        conf,
		"samples":                              samples,
		"exhaustive":                           incomplete == 0,
		"explanation":                          "states: symbolic paths run to their end; transitions: decisions taken on symbolic conditions; a path covers every input that satisfies its path condition. Bounds of each harness are in its source comment and in DESIGN.md.",
		"harnesses":                            hrep,
		"jobs":                                 len(jobs),
		"jobs_incomplete":                      incomplete,
		"solver_queries":                       tot.queries,
		"solver_sat":                           tot.sat,
		"solver_unsat":                         tot.unsat,
		"solver_unknown":                       tot.unk,
		"byte_domain_decisions":                tot.domQ,
		"byte_domain_decisions_also_put_to_z3": tot.crossQ,
		"solver_seconds":                       round(tot.z3.Seconds()),
		"solver_max_query_seconds":             round(tot.maxQ.Seconds()),
		"assertions_by_solver":                 tot.assertQ,
		"assertions_by_evaluation":             tot.assertConst,
		"infeasible_paths":                     tot.infeasible,
		"unsupported_paths":                    tot.unsup,
		"instructions_interpreted":             tot.steps,
		"functions_encoded":                    funcs,
		"reached":                              covers,
		"notes":                                allNotes,
		"unconfirmed_candidates":               spur,
		"conformance_mismatches":               mism,
		"load_seconds":                         round(loadDur.Seconds()),
		"symbolic_seconds":                     round(symDur.Seconds()),
	}
	ev["assumptions"] = []string{
		"the go/ssa form of the code means what the compiled code does; the interpreter's model of the library functions listed in DESIGN.md is right (validated on this run by replaying sampled paths natively)",
		"inputs outside the bounds stated for each harness are not covered",
	}
	ev["wall_s"] = round(time.Since(t0).Seconds())
	ev["violations"] = len(violations)
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o777)
	js, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" && *onlyJob < 0 {
		os.WriteFile(filepath.Join(*verif, "evidence", prop+".json"), js, 0o666)
	}
	if profOn {
		prof := map[string]int{}
		for _, w := range pool.workers {
			for k, n := range w.prof {
				prof[k] += n
			}
		}
		type kv struct {
			k string
			n int
		}
		var kvs []kv
		for k, n := range prof {
			kvs = append(kvs, kv{k, n})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].n > kvs[j].n })
		for i, k := range kvs {
			if i > 30 {
				break
			}
			fmt.Fprintln(os.Stderr, k.n, k.k)
		}
	}
	for _, s := range spur {
		fmt.Fprintln(os.Stderr, "UNCONFIRMED:", s)
	}
	for i, s := range mism {
		if i < 10 {
			fmt.Fprintln(os.Stderr, "MISMATCH:", s)
		}
	}
	for n, k := range allNotes {
		fmt.Fprintf(os.Stderr, "note (%d): %s\n", k, n)
	}
	fmt.Printf("%s %s: %d harness jobs (%d incomplete), %d paths, %d decisions, %d+%d assertions, %d solver queries (%.1fs), %d replays agree, %.1fs\n", prop, *tier, len(jobs), incomplete, tot.paths, tot.branches, tot.assertQ, tot.assertConst, tot.queries, tot.z3.Seconds(), conf, time.Since(t0).Seconds())
	if len(violations) > 0 {
		return 1
	}
	if tot.paths-tot.unsup-tot.bugs-tot.limit <= 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	if tot.crossBad > 0 {
		fmt.Fprintln(os.Stderr, "Z3 disagrees with the domain search on", tot.crossBad, "decisions")
		return 2
	}
	if len(emptyH) > 0 {
		fmt.Fprintln(os.Stderr, "jobs without any path:", emptyH)
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec struct {
		Property, Harness string
		Job               int
		Vals              []uint64
		Thorough          bool
	}
	json.Unmarshal(b, &rec)
	repo, verif := env("GOSYM_REPO", "/repo"), env("GOSYM_VERIF", "/verif")
	ld, err := load(repo, verif, packagesOf(verif, rec.Property), rec.Thorough)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	bin, err := ld.buildNative(tmp, ld.harnesses(rec.Property), rec.Property == "C14" || rec.Property == "C27")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rs := native(bin, []nreq{{rec.Harness, rec.Job, rec.Vals, rec.Thorough}}, 30*time.Second)
	r := rs[len(rs)-1]
	fmt.Println(r.Kind, r.Msg)
	for _, o := range r.Obs {
		fmt.Println("  " + o)
	}
	if r.Stack != "" {
		fmt.Println(r.Stack)
	}
	if bad(r) {
		return 1
	}
	return 0
}

func listMain(args []string) int {
	repo, verif := env("GOSYM_REPO", "/repo"), env("GOSYM_VERIF", "/verif")
	ld, err := load(repo, verif, packagesOf(verif, `C\d\d`), false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range ld.harnesses("") {
		fmt.Println(h.Name)
	}
	return 0
}

func (in *Interp) showTyped(v Value, t types.Type, model []uint64) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			return fmt.Sprintf("%q", in.evalStr(v, model))
		case u.Kind() == types.Bool:
			return fmt.Sprint(in.tm.Eval(v.term(in.tm), model) == 1)
		case u.Info()&types.IsInteger != 0:
			w, sgn, _ := intWidth(u)
			x := in.tm.Eval(v.term(in.tm), model)
			if sgn {
				return fmt.Sprint(sx(x, w))
			}
			return fmt.Sprint(x)
		case u.Kind() == types.Float64:
			if v.k == KSymFloat {
				return fmt.Sprintf("%x", math.Float64bits(float64(int64(in.tm.Eval(v.p.(*Term), model)))))
			}
			return fmt.Sprintf("%x", v.u)
		}
	case *types.Slice:
		var b strings.Builder
		b.WriteString("[")
		for _, e := range in.sliceElems(v) {
			b.WriteString(in.showTyped(e, u.Elem(), model) + ",")
		}
		b.WriteString("]")
		return b.String()
	}
	return "?"
}
