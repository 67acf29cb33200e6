package main

// Workers: each owns an interpreter and explores paths; work is shared between them.

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var profOn = os.Getenv("GOSYM_PROF") != ""

type stats struct {
	domQ, unknown, branches         int
	crossQ, crossBad                int
	assertConst, assertQ, assertSat int
	paths, infeasible, unsup, limit int
	bugs                            int
	steps                           int64
	queries, sat, unsat, unk        int
	z3                              time.Duration
	maxQ                            time.Duration
}

func (a *stats) add(b *stats) {
	a.domQ += b.domQ
	a.crossQ += b.crossQ
	a.crossBad += b.crossBad
	a.unknown += b.unknown
	a.branches += b.branches
	a.assertConst += b.assertConst
	a.assertQ += b.assertQ
	a.assertSat += b.assertSat
	a.paths += b.paths
	a.infeasible += b.infeasible
	a.unsup += b.unsup
	a.limit += b.limit
	a.bugs += b.bugs
	a.steps += b.steps
	a.queries += b.queries
	a.sat += b.sat
	a.unsat += b.unsat
	a.unk += b.unk
	a.z3 += b.z3
	if b.maxQ > a.maxQ {
		a.maxQ = b.maxQ
	}
}

type job struct {
	h       *Harness
	j       int
	stats   stats
	notes   map[string]int
	cands   []*candidate
	samp    []*sample
	covers  map[string]int
	queue   []Item // not yet explored
	active  int    // items being explored
	hangs   int    // paths that reached the step bound
	closed  bool   // stop exploring (a violation was confirmed, or the limit was reached)
	started bool
	cpu     time.Duration
}

type candidate struct {
	job   *job
	kind  string // assert, panic, hang
	msg   string
	where string
	model []uint64
	names []string
	input string
}

type sample struct {
	job    *job
	model  []uint64
	obs    []string
	covers []string
}

type Worker struct {
	ncross  [3]int // decisions of the domain search, by answer
	id      int
	in      *Interp
	pool    *Pool
	st      stats
	prof    map[string]int
	job     *job
	base    int // undo mark after package initialisation
	baseSeq uint64
	mark    int
	markSeq uint64
	paths   int
}

type Pool struct {
	ld       *Loader
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*job
	idle     int
	nw       int
	stop     bool
	deadline time.Time
	maxSteps int64
	workers  []*Worker
	initErr  error
	funcs    map[string]int
	initDur  time.Duration
	nsamp    int
	first    bool // stop soon after the first candidate
}

func newPool(ld *Loader, nw int, deadline time.Time) *Pool {
	p := &Pool{ld: ld, nw: nw, deadline: deadline, maxSteps: 60_000_000, funcs: map[string]int{}}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (w *Worker) note(msg string) {
	if w.job == nil {
		return
	}
	w.pool.mu.Lock()
	w.job.notes[msg]++
	w.pool.mu.Unlock()
}

func (w *Worker) dumpQuery(in *Interp, neg *Term) {
	dumpSMT(in.tm, w.pool.ld.dumpDir, in.pc, neg)
}

func (w *Worker) candidate(in *Interp, msg string, model []uint64) {
	w.pool.mu.Lock()
	defer w.pool.mu.Unlock()
	if len(w.job.cands) > 200 {
		return
	}
	w.job.cands = append(w.job.cands, &candidate{job: w.job, kind: "assert", msg: msg, where: in.where(), model: append([]uint64(nil), model...), names: append([]string(nil), in.vnames...)})
}

func (in *Interp) whereShort() string {
	f := in.cur
	if f == nil {
		return "?"
	}
	s := in.where()
	if i := strings.Index(s, " < "); i >= 0 {
		if j := strings.Index(s[i+3:], " < "); j >= 0 {
			return s[:i+3+j]
		}
	}
	return s
}

// initInterp runs the package initialisers of the harness packages.
func (w *Worker) initInterp() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("initialisation: %v in %s", r, w.in.where())
			if os.Getenv("GOSYM_DEBUG") != "" {
				buf := make([]byte, 1<<14)
				os.Stderr.Write(buf[:runtime.Stack(buf, false)])
			}
		}
	}()
	in := newInterp(w.pool.ld)
	in.wk = w
	in.maxStep = 1 << 40
	w.in = in
	names := []string{}
	for n := range w.pool.ld.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := w.pool.ld.pkgs[n]
		if f := p.Func("init"); f != nil {
			in.call(in.info(f), nil, nil)
		}
	}
	w.baseSeq = in.seq
	in.logSeq = in.seq
	in.undo = in.undo[:0]
	return nil
}

func (w *Worker) resetTerms() {
	in := w.in
	w.flushZ3()
	in.z3.close()
	in.tm = newTermMgr()
	in.z3 = newZ3(in.tm, z3Kind)
	in.tabMemo, in.rtCache, in.runeMemo = map[tabKey]*Term{}, map[*Value]*runTab{}, map[[4]*Term]*Term{}
}

func (w *Worker) flushZ3() {
	z := w.in.z3
	w.st.queries += z.queries
	w.st.sat += z.nsat
	w.st.unsat += z.nunsat
	w.st.unk += z.nunk
	w.st.z3 += z.dur
	if z.maxDur > w.st.maxQ {
		w.st.maxQ = z.maxDur
	}
	z.queries, z.nsat, z.nunsat, z.nunk, z.dur, z.maxDur = 0, 0, 0, 0, 0, 0
}

// enter prepares the interpreter for a job.
func (w *Worker) enter(jb *job) (err error) {
	in := w.in
	in.rollback(0)
	in.seq = w.baseSeq
	in.logSeq = w.baseSeq
	in.frzOn = false
	in.synced = 0
	in.pathState.reset()
	w.resetTerms()
	for _, fi := range in.infos {
		fi.mfail, fi.mok = 0, 0
	}
	w.job = jb
	in.orders = strings.Contains(jb.h.Name, ".C14_") || strings.Contains(jb.h.Name, ".C15_") || strings.Contains(jb.h.Name, ".C20_")
	in.steps = 0
	in.maxStep = 1 << 33
	in.cur, in.depth = nil, 0
	if jb.h.Setup != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("setup: %v", r)
					if tp, ok := r.(*targetPanic); ok {
						err = tp
					}
				}
			}()
			in.merging, in.mapOrder = false, false
			in.call(in.info(jb.h.Setup), []Value{vI64(jb.j)}, nil)
		}()
	}
	w.mark = len(in.undo)
	w.markSeq = in.seq
	in.logSeq = in.seq
	return err
}

func (w *Worker) leave() {
	if w.job != nil {
		w.flushZ3()
		w.pool.mu.Lock()
		w.job.stats.add(&w.st)
		w.pool.mu.Unlock()
		w.st = stats{}
	}
}

// runPath runs the harness once along an item's decisions.
func (w *Worker) runPath(it Item) (pending []Item) {
	in := w.in
	jb := w.job
	in.rollback(w.mark)
	in.seq = w.markSeq
	in.frzOn = false
	in.synced = 0
	in.subOn, in.subSeq, in.specDepth = 0, 0, 0
	in.mergeWide = false
	in.pathState.reset()
	if len(in.tm.tab) > 3_000_000 {
		w.resetTerms()
	}
	in.prefix, in.model = it.prefix, it.model
	in.lastReplay = false
	if in.model == nil {
		in.model = []uint64{}
	}
	in.cur, in.depth, in.steps = nil, 0, 0
	in.maxStep = w.pool.maxSteps
	outcome := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathInfeasible:
				outcome = "infeasible"
			case violationStop:
				outcome = "violation"
			case stepLimit:
				outcome = "limit"
				w.st.limit++
				w.pool.mu.Lock()
				if jb.hangs++; jb.hangs >= maxHangs {
					jb.closed = true
				}
				if len(jb.cands) < 200 {
					jb.cands = append(jb.cands, &candidate{job: jb, kind: "hang", msg: "no result within the step bound", where: in.where(), model: append([]uint64(nil), in.model...), names: in.vnames})
				}
				w.pool.mu.Unlock()
			case *targetPanic:
				outcome = "panic"
				w.pool.mu.Lock()
				if len(jb.cands) < 200 {
					jb.cands = append(jb.cands, &candidate{job: jb, kind: "panic", msg: r.msg, where: r.pos, model: append([]uint64(nil), in.model...), names: in.vnames})
				}
				w.pool.mu.Unlock()
			case unsupported:
				outcome = "unsupported"
				w.st.unsup++
				w.note("unsupported: " + string(r) + " in " + in.where())
			case engineBug:
				outcome = "bug"
				w.st.bugs++
				w.note(string(r))
			case mergeAbort:
				outcome = "bug"
				w.st.bugs++
				w.note("merge abort escaped: " + r.why)
			default:
				outcome = "bug"
				w.st.bugs++
				w.note(fmt.Sprintf("internal: %v in %s", r, in.where()))
				if os.Getenv("GOSYM_DEBUG") != "" {
					buf := make([]byte, 1<<14)
					os.Stderr.Write(buf[:runtime.Stack(buf, false)])
				}
			}
		}()
		in.call(in.info(jb.h.Fn), []Value{vI64(jb.j)}, nil)
	}()
	w.st.steps += in.steps
	in.total += in.steps
	w.paths++
	if outcome == "infeasible" {
		w.st.infeasible++
	} else {
		w.st.paths++
	}
	if outcome == "ok" {
		w.pool.mu.Lock()
		for _, c := range in.covers {
			jb.covers[c]++
		}
		n := w.st.paths
		keep := len(jb.samp) < 12 || (n&(n-1)) == 0 && len(jb.samp) < 40
		w.pool.mu.Unlock()
		if keep {
			s := &sample{job: jb, model: append([]uint64(nil), in.model...), covers: append([]string(nil), in.covers...)}
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.obs = nil
						w.note(fmt.Sprint("observe: ", r))
					}
				}()
				for _, o := range in.observes {
					s.obs = append(s.obs, o.name+"="+in.showVal(o.v, in.model))
				}
			}()
			// the model must satisfy the path condition
			for _, t := range in.pc {
				if in.tm.Eval(t, in.model) != 1 {
					w.st.bugs++
					w.note("model of a finished path does not satisfy its path condition")
					break
				}
			}
			w.pool.mu.Lock()
			jb.samp = append(jb.samp, s)
			w.pool.mu.Unlock()
		}
	}
	if verbose > 2 {
		fmt.Fprintf(os.Stderr, "%s[%d] path %s, %d steps, %d decisions, %d pc, model %v\n", jb.h.Name, jb.j, outcome, in.steps, len(in.trace), len(in.pc), in.model)
	}
	return in.pending
}

// showVal renders a value under a model as sym.show does.
func (in *Interp) showVal(v Value, model []uint64) string {
	switch v.k {
	case KIface:
		if v.p == nil {
			return "?"
		}
		i := v.p.(*Iface)
		return in.showTyped(i.v, i.t, model)
	}
	return "?"
}

func (in *Interp) evalStr(v Value, model []uint64) string {
	b := v.strBytes()
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(in.tm.Eval(x.term(in.tm), model))
	}
	return string(r)
}

// maxHangs is how many paths of a job may reach the step bound before the job is given up.
const maxHangs = 3

func (p *Pool) run() {
	var wg sync.WaitGroup
	for i := 0; i < p.nw; i++ {
		w := &Worker{id: i, pool: p, prof: map[string]int{}}
		p.workers = append(p.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			if err := w.initInterp(); err != nil {
				p.mu.Lock()
				p.initErr = err
				p.idle++
				p.cond.Broadcast()
				p.mu.Unlock()
				return
			}
			p.mu.Lock()
			p.initDur += time.Since(t0)
			p.mu.Unlock()
			w.loop()
		}()
	}
	wg.Wait()
	for _, w := range p.workers {
		if w.in == nil {
			continue
		}
		for _, fi := range w.in.infos {
			if fi.calls > 0 {
				p.funcs[fi.name] += fi.calls
			}
		}
	}
}

// take gets an item, preferring the worker's current job.
func (p *Pool) take(w *Worker) (*job, Item, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.first {
			for _, jb := range p.jobs {
				if d := time.Now().Add(2 * time.Second); len(jb.cands) > 0 && d.Before(p.deadline) {
					p.deadline = d
				}
			}
		}
		if p.stop || time.Now().After(p.deadline) {
			p.stop = true
			p.cond.Broadcast()
			return nil, Item{}, false
		}
		pick := func(jb *job) (*job, Item, bool) {
			n := len(jb.queue)
			it := jb.queue[n-1]
			jb.queue = jb.queue[:n-1]
			jb.active++
			jb.started = true
			return jb, it, true
		}
		if w.job != nil && !w.job.closed && len(w.job.queue) > 0 {
			return pick(w.job)
		}
		var best *job
		for _, jb := range p.jobs {
			if jb.closed || len(jb.queue) == 0 {
				continue
			}
			if best == nil || jb.active < best.active || (jb.active == best.active && len(jb.queue) > len(best.queue)) {
				best = jb
			}
		}
		if best != nil {
			return pick(best)
		}
		p.idle++
		if p.idle == p.nw {
			p.stop = true
			p.cond.Broadcast()
			return nil, Item{}, false
		}
		p.cond.Wait()
		p.idle--
	}
}

func (w *Worker) loop() {
	p := w.pool
	for {
		jb, it, ok := p.take(w)
		if !ok {
			w.leave()
			return
		}
		if jb != w.job {
			w.leave()
			if err := w.enter(jb); err != nil {
				p.mu.Lock()
				jb.notes[err.Error()]++
				if tp, ok := err.(*targetPanic); ok {
					jb.cands = append(jb.cands, &candidate{job: jb, kind: "panic", msg: "in setup: " + tp.msg, where: tp.pos})
				} else {
					jb.stats.bugs++
				}
				jb.closed = true
				jb.active--
				p.mu.Unlock()
				continue
			}
		}
		t0 := time.Now()
		local := []Item{it}
		for n := 0; len(local) > 0; n++ {
			x := local[len(local)-1]
			local = local[:len(local)-1]
			pend := w.runPath(x)
			local = append(local, pend...)
			if time.Now().After(p.deadline) || jb.closed {
				break
			}
			// share the oldest items with idle workers
			if len(local) > 1 {
				p.mu.Lock()
				if p.idle > 0 && len(jb.queue) < p.nw {
					k := len(local) / 2
					if k > 16 {
						k = 16
					}
					jb.queue = append(jb.queue, local[:k]...)
					local = append([]Item(nil), local[k:]...)
					p.cond.Broadcast()
				}
				p.mu.Unlock()
			}
		}
		p.mu.Lock()
		jb.active--
		jb.cpu += time.Since(t0)
		jb.queue = append(jb.queue, local...)
		if len(jb.cands) >= 24 {
			jb.closed = true
		}
		p.mu.Unlock()
	}
}
