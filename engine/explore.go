package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals (host panics) ----

type pathAbort struct {
	kind string // assume | unsupported | steps | deadlock | exit
	why  string
}
type mergeAbort struct{ why string }
type killGor struct{}
type targetPanic struct {
	v     Value // interface value passed to panic
	msg   string
	rt    bool // runtime error
	where string
}

func (w *Worker) unsupported(why string) {
	loc := ""
	if w.cur != nil && w.cur.fr != nil {
		loc = " in " + w.cur.fr.fi.fn.String()
		if debugStacks {
			loc += w.stack()
		}
	}
	panic(pathAbort{kind: "unsupported", why: why + loc})
}

var debugStacks = os.Getenv("VSYM_STACKS") != ""

func (w *Worker) stack() string {
	s := ""
	n := 0
	for fr := w.cur.fr; fr != nil && n < 25; fr = fr.caller {
		pos := ""
		if fr.pos.IsValid() {
			p := w.eng.prog.Fset.Position(fr.pos)
			pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
		s += "\n      at " + fr.fi.fn.String() + " " + pos
		n++
	}
	return s
}

func (w *Worker) where() string {
	for fr := w.cur.fr; fr != nil; fr = fr.caller {
		if fr.pos.IsValid() {
			p := w.eng.prog.Fset.Position(fr.pos)
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, w.eng.repo+"/"), p.Line)
		}
	}
	return "?"
}

// ---- jobs ----

type Job struct {
	prefix []uint64
	model  map[string]uint64
}

type Sample struct {
	Values   map[string]uint64
	Observes []string
	Panic    string
	Unsup    string
}

type Candidate struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Kind    string            `json:"kind"` // assert | panic | deadlock | race
	Where   string            `json:"where"`
	Values  map[string]uint64 `json:"values"`
	Tier    int               `json:"tier"`
	Inputs  map[string]string `json:"inputs,omitempty"`
}

// Run is the exploration of one harness.
type Run struct {
	eng      *Engine
	harness  *ssa.Function
	name     string
	tier     int
	deadline time.Time
	maxPaths int
	maxSteps int64

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []Job
	active  int
	stopped bool

	Paths, Completed, Assumed, Unsup, StepLim, Deadlock int
	Asserts, AssertQueries                              int
	Timeout                                             bool
	Why                                                 map[string]int
	Cands                                               map[string][]Candidate
	NCands                                              int
	Samples                                             []Sample
	Reached                                             map[string]int
	Fns                                                 map[string]int
	Queries, NSat, NUnsat, NUnk                         int
	CacheHits, DomHits, ModelHits                       int
	SolverTime                                          time.Duration
	MaxQuery                                            time.Duration
	Merges, MergePaths                                  int
	Inputs                                              map[string]string
	rngState                                            uint64
	forks                                               map[string]int
	wall                                                time.Duration
	sampleEvery                                         int
	Steps                                               int64
	Audits, AuditBad                                    int
	bounds                                              string
	nUnsupSamples                                       int
}

func (r *Run) push(js []Job) {
	if len(js) == 0 {
		return
	}
	r.mu.Lock()
	r.stack = append(r.stack, js...)
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Run) next() (Job, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return Job{}, false
		}
		if time.Now().After(r.deadline) || (r.maxPaths > 0 && r.Paths >= r.maxPaths) {
			r.Timeout = len(r.stack) > 0 || r.active > 0
			r.stopped = true
			r.cond.Broadcast()
			return Job{}, false
		}
		if n := len(r.stack); n > 0 {
			// mostly depth first; every 8th pick is taken from the bottom so that a
			// truncated exploration is still spread over the input space
			i := n - 1
			if r.Paths%8 == 7 {
				i = 0
			}
			j := r.stack[i]
			if i == n-1 {
				r.stack = r.stack[:n-1]
			} else {
				r.stack = r.stack[1:]
			}
			r.active++
			r.Paths++
			return j, true
		}
		if r.active == 0 {
			r.stopped = true
			r.cond.Broadcast()
			return Job{}, false
		}
		r.cond.Wait()
	}
}

// hurry cuts the remaining exploration short once a candidate is known.
func (r *Run) hurry() {
	r.mu.Lock()
	if d := time.Now().Add(4 * time.Second); d.Before(r.deadline) {
		r.deadline = d
	}
	r.mu.Unlock()
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
	r.cond.Broadcast()
}

// ---- worker ----

type Worker struct {
	eng *Engine
	run *Run
	id  int
	tt  *TermTable
	sol *Solver

	sizes   map[types.Type]int
	fieldOs map[*types.Struct][]int
	fis     map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*gslot
	inits   map[*ssa.Package]int
	canon   map[types.Type]types.Type
	methods map[methKey]*ssa.Function
	serial  uint64
	inInit  bool
	reinit  *ssa.Package
	journal []undo
	race    *raceState

	// current path
	prefix  []uint64
	pos     int
	trace   []uint64
	pc      []*Term
	dom     map[*Term]Dom
	byVar   map[*Term][]int // var -> indexes of pc constraints
	multi   map[*Term]int   // var -> number of multi-variable constraints
	varList []*Term
	model   map[*Term]uint64
	steps   int64
	alts    *[]Job // where alternatives go (path-local or merge-local)
	undoPC  []pcUndo
	varSets map[*Term][]*Term
	qcache  map[string]qres

	mergeDepth int
	mergeBase  uint64
	impureFns  map[*ssa.Function]bool
	mergeOff   bool

	gors         []*gor
	cur          *gor
	sched        bool
	clock        int
	preempts     int
	mapOrder     bool
	bigOrder     int
	killing      bool
	abortVal     any
	nvars        int
	names        map[string]int
	observes     []Value
	reached      []string
	dying        bool
	inputs       map[string]string
	noFork       int
	regexes      map[string]*Obj
	hostData     map[string]any
	shared       *Run
	pendingModel map[string]uint64
	maxSteps     int64
	killAck      chan struct{}
	deferOwner   *frame
}

type pcUndo struct {
	v      *Term
	had    bool
	old    Dom
	byVar  []*Term
	multis []*Term
}

type qres struct {
	r SatResult
	m map[*Term]uint64
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{eng: e, id: id, tt: newTermTable(), sizes: map[types.Type]int{},
		fis: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*gslot{}, inits: map[*ssa.Package]int{},
		canon: map[types.Type]types.Type{}, methods: map[methKey]*ssa.Function{}, varSets: map[*Term][]*Term{},
		qcache: map[string]qres{}, impureFns: map[*ssa.Function]bool{}, regexes: map[string]*Obj{},
		fieldOs: map[*types.Struct][]int{}, killAck: make(chan struct{}),
	}
	w.sol = newSolver(w.tt, e.solverBin, e.solverTimeout)
	return w
}

func (w *Worker) resetPath(j Job) {
	w.prefix, w.pos, w.trace = j.prefix, 0, make([]uint64, 0, len(j.prefix)+64)
	w.pc = w.pc[:0]
	w.dom = map[*Term]Dom{}
	w.byVar = map[*Term][]int{}
	w.multi = map[*Term]int{}
	w.varList = w.varList[:0]
	w.undoPC = w.undoPC[:0]
	w.steps = 0
	w.serial = 1
	w.mergeDepth, w.mergeBase = 0, 0
	w.gors, w.cur = nil, nil
	w.sched, w.mapOrder = false, false
	w.bigOrder = -1
	w.killing, w.dying = false, false
	w.abortVal = nil
	w.clock, w.preempts = 0, 0
	w.nvars = 0
	w.names = map[string]int{}
	w.observes = nil
	w.reached = nil
	w.inputs = map[string]string{}
	w.race = nil
	w.hostData = map[string]any{}
	w.reinit = nil
	w.tt.epoch++
	w.model = map[*Term]uint64{}
	w.pendingModel = j.model
}

// newVar creates a symbolic variable of the given width (<=8).
func (w *Worker) newVar(name string, width uint8) *Term {
	w.impure("new symbolic input")
	full := name
	if n := w.names[name]; n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	w.names[name]++
	v := w.tt.Var(width, full)
	if _, ok := w.dom[v]; !ok {
		w.dom[v] = fullDom(width)
		w.varList = append(w.varList, v)
		if x, ok := w.pendingModel[full]; ok {
			w.model[v] = x
		} else {
			w.model[v] = 0
		}
	}
	w.tt.epoch++
	return v
}

func (w *Worker) varsOf(t *Term) []*Term {
	if t.nv == 0 {
		return nil
	}
	if t.nv == 1 {
		return []*Term{t.vars}
	}
	if s, ok := w.varSets[t]; ok {
		return s
	}
	seen := map[*Term]bool{}
	var out []*Term
	for i := 0; i < int(t.n); i++ {
		for _, v := range w.varsOf(t.args[i]) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	w.varSets[t] = out
	return out
}

func (w *Worker) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OAnd {
		w.addPC(t.args[0])
		w.addPC(t.args[1])
		return
	}
	u := pcUndo{}
	i := len(w.pc)
	w.pc = append(w.pc, t)
	if t.nv == 1 {
		v := t.vars
		u.v, u.old = v, w.dom[v]
		w.dom[v] = u.old.and(t.TrueSet())
		w.byVar[v] = append(w.byVar[v], i)
		u.byVar = []*Term{v}
	} else {
		vs := w.varsOf(t)
		for _, v := range vs {
			w.byVar[v] = append(w.byVar[v], i)
			w.multi[v]++
		}
		u.byVar = vs
		u.multis = vs
	}
	w.undoPC = append(w.undoPC, u)
}

func (w *Worker) truncPC(n int) {
	for len(w.pc) > n {
		u := w.undoPC[len(w.undoPC)-1]
		w.undoPC = w.undoPC[:len(w.undoPC)-1]
		w.pc = w.pc[:len(w.pc)-1]
		if u.v != nil {
			w.dom[u.v] = u.old
		}
		for _, v := range u.byVar {
			l := w.byVar[v]
			w.byVar[v] = l[:len(l)-1]
		}
		for _, v := range u.multis {
			w.multi[v]--
		}
	}
}

func (w *Worker) setModel(m map[*Term]uint64) {
	w.model = m
	w.tt.epoch++
}

func (w *Worker) evalBool(t *Term) bool { return w.tt.Eval(t, w.model) != 0 }

func firstOf(d Dom) uint64 {
	for i, x := range d {
		if x != 0 {
			for b := 0; b < 64; b++ {
				if x&(1<<b) != 0 {
					return uint64(i*64 + b)
				}
			}
		}
	}
	return 0
}

// known replaces a condition on one byte that the byte's domain already settles
// by its value; every 64th use is cross-checked by the solver.
func (w *Worker) known(c *Term) *Term {
	if c.isConst() || c.nv != 1 {
		return c
	}
	d, ts := w.dom[c.vars], c.TrueSet()
	in := d.and(ts)
	if in == d {
		return w.audited(w.tt.Not(c), w.tt.True)
	}
	if in.empty() {
		return w.audited(c, w.tt.False)
	}
	return c
}

func (w *Worker) audited(never, verdict *Term) *Term {
	w.run.stat(&w.run.DomHits)
	if w.run.DomHits%64 == 1 {
		w.run.Audits++
		if r, _ := w.query(never); r == Sat {
			w.run.AuditBad++
		}
	}
	return verdict
}

// feasible decides whether pc ∧ c is satisfiable. The current model satisfies pc.
func (w *Worker) feasible(c *Term) (SatResult, map[*Term]uint64) {
	if c.isConst() {
		if c.val != 0 {
			return Sat, w.model
		}
		return Unsat, nil
	}
	if w.evalBool(c) {
		w.run.stat(&w.run.ModelHits)
		return Sat, w.model
	}
	if c.nv == 1 {
		v := c.vars
		d := w.dom[v].and(c.TrueSet())
		if d.empty() {
			w.run.stat(&w.run.DomHits)
			if w.run.DomHits%64 == 1 { // cross-check the byte-domain verdict with the solver
				w.run.Audits++
				if r, _ := w.query(c); r == Sat {
					w.run.AuditBad++
				}
			}
			return Unsat, nil
		}
		if w.multi[v] == 0 {
			w.run.stat(&w.run.DomHits)
			m := make(map[*Term]uint64, len(w.model)+1)
			for k, x := range w.model {
				m[k] = x
			}
			m[v] = firstOf(d)
			return Sat, m
		}
	}
	return w.query(c)
}

// query asks the solver about the slice of pc connected with c.
func (w *Worker) query(c *Term) (SatResult, map[*Term]uint64) {
	if w.eng.profile {
		w.run.forks["query "+w.where()]++
	}
	in := map[int]bool{}
	seenV := map[*Term]bool{}
	var vars []*Term
	work := append([]*Term(nil), w.varsOf(c)...)
	for _, v := range work {
		seenV[v] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		vars = append(vars, v)
		for _, i := range w.byVar[v] {
			if in[i] {
				continue
			}
			in[i] = true
			for _, u := range w.varsOf(w.pc[i]) {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	idx := make([]int, 0, len(in))
	for i := range in {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	sl := make([]*Term, len(idx))
	var kb strings.Builder
	ids := make([]int, 0, len(idx))
	for i, j := range idx {
		sl[i] = w.pc[j]
		ids = append(ids, sl[i].id)
	}
	sort.Ints(ids)
	last := -1
	for _, id := range ids {
		if id != last {
			fmt.Fprintf(&kb, "%x,", id)
		}
		last = id
	}
	fmt.Fprintf(&kb, "?%x", c.id)
	key := kb.String()
	var res qres
	if r, ok := w.qcache[key]; ok {
		w.run.stat(&w.run.CacheHits)
		res = r
	} else {
		if w.eng.dumpQ {
			fmt.Printf("QUERY w%d %s under %d constraints at %s\n", w.id, c, len(sl), w.where())
		}
		r, m := w.sol.Check(sl, c, vars)
		res = qres{r, m}
		if r != Unknown {
			w.qcache[key] = res
		}
	}
	if res.r != Sat {
		return res.r, nil
	}
	m := make(map[*Term]uint64, len(w.model)+1)
	for k, x := range w.model {
		m[k] = x
	}
	for k, x := range res.m {
		m[k] = x
	}
	return Sat, m
}

func (r *Run) stat(p *int) { *p++ } // statistics only; small races between workers are avoided by per-worker runs

const (
	dFalse  = 0
	dTrue   = 1
	dFFalse = 2 // forced
	dFTrue  = 3
)

func (w *Worker) modelNames(m map[*Term]uint64) map[string]uint64 {
	out := make(map[string]uint64, len(m))
	for k, v := range m {
		out[k.name] = v
	}
	return out
}

func (w *Worker) pushAlt(entry []uint64, m map[*Term]uint64) {
	p := make([]uint64, len(w.trace)+len(entry))
	copy(p, w.trace)
	copy(p[len(w.trace):], entry)
	if w.alts == nil {
		return
	}
	*w.alts = append(*w.alts, Job{prefix: p, model: w.modelNames(m)})
}

func (w *Worker) nextEntry() (uint64, bool) {
	if w.pos < len(w.prefix) {
		v := w.prefix[w.pos]
		w.pos++
		w.trace = append(w.trace, v)
		return v, true
	}
	return 0, false
}

// decide resolves a symbolic branch.
func (w *Worker) decide(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if w.inInit {
		w.unsupported("symbolic branch in package initialiser")
	}
	if e, ok := w.nextEntry(); ok {
		switch e {
		case dTrue:
			w.addPC(c)
			return true
		case dFalse:
			w.addPC(w.tt.Not(c))
			return false
		case dFTrue:
			return true
		case dFFalse:
			return false
		}
		panic(fmt.Sprintf("replay divergence: decide got %d", e))
	}
	nc := w.tt.Not(c)
	cur := w.evalBool(c)
	other := nc
	if !cur {
		other = c
	}
	r, m := w.feasible(other)
	switch r {
	case Unsat, Unknown:
		if r == Unknown {
			w.run.NUnk++
			w.run.Why["solver unknown at "+w.where()]++
			w.addPC(w.tt.Not(other)) // restrict to the decided side
		}
		if cur {
			w.trace = append(w.trace, dFTrue)
		} else {
			w.trace = append(w.trace, dFFalse)
		}
		return cur
	}
	if w.eng.profile {
		w.run.forks[w.where()]++
	}
	// both feasible; stay on the side of the current model
	if cur {
		w.pushAlt([]uint64{dFalse}, m)
		w.trace = append(w.trace, dTrue)
		w.addPC(c)
	} else {
		w.pushAlt([]uint64{dTrue}, m)
		w.trace = append(w.trace, dFalse)
		w.addPC(nc)
	}
	return cur
}

func (w *Worker) decideV(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.decide(v)
	case Unsupported:
		w.unsupported(v.why)
	}
	panic(fmt.Sprintf("decideV %T", v))
}

// concretize picks a value for t, forking over all feasible values.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		var v uint64
		if e, ok := w.nextEntry(); ok {
			v = e
		} else {
			v = w.tt.Eval(t, w.model)
			w.trace = append(w.trace, v)
		}
		if w.decide(w.tt.Eq(t, w.tt.Const(t.w, v))) {
			return v
		}
		if n > 300 {
			w.unsupported("concretisation of more than 300 values")
		}
	}
}

func (w *Worker) conc(v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return w.concretize(v)
	case Unsupported:
		w.unsupported(v.why)
	}
	panic(fmt.Sprintf("conc %T", v))
}

func (w *Worker) concInt(v Value) int { return int(int64(w.conc(v))) }

// choose makes an engine-internal nondeterministic choice among n alternatives.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	w.impure("nondeterministic choice")
	if e, ok := w.nextEntry(); ok {
		return int(e)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushAlt([]uint64{uint64(i)}, w.model)
	}
	w.trace = append(w.trace, 0)
	return 0
}

func (w *Worker) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathAbort{kind: "assume"})
		}
		return
	}
	t := w.boolTerm(v)
	if w.pos < len(w.prefix) {
		w.addPC(t)
		return
	}
	r, m := w.feasible(t)
	if r == Unknown {
		panic(pathAbort{kind: "unsupported", why: "solver unknown in assume"})
	}
	if r != Sat {
		panic(pathAbort{kind: "assume"})
	}
	w.addPC(t)
	w.setModel(m)
}

func (w *Worker) candidate(kind, msg, where string, m map[*Term]uint64) {
	r := w.run
	key := kind + "|" + msg
	r.NCands++
	if r.NCands == 1 && r.eng.early {
		w.shared.hurry()
	}
	if len(r.Cands[key]) >= 4 {
		return
	}
	vals := w.modelNames(m)
	r.Cands[key] = append(r.Cands[key], Candidate{Harness: r.name, Msg: msg, Kind: kind, Where: where, Values: vals, Tier: r.tier})
}

// assert checks that v holds on every continuation of this path.
func (w *Worker) assert(v Value, msg string) {
	w.impure("assert")
	w.run.Asserts++
	if b, ok := v.(bool); ok {
		if !b {
			w.candidate("assert", msg, w.where(), w.model)
			panic(pathAbort{kind: "violated", why: msg})
		}
		return
	}
	t := w.boolTerm(v)
	if w.pos < len(w.prefix) {
		// already asserted by the path that forked here; continue under it
		w.addPC(t)
		return
	}
	w.run.AssertQueries++
	nt := w.tt.Not(t)
	var r SatResult
	var m map[*Term]uint64
	if w.evalBool(nt) {
		r, m = Sat, w.model
	} else {
		r, m = w.query(nt) // the verdict on an assertion always comes from the solver
	}
	switch r {
	case Sat:
		w.candidate("assert", msg, w.where(), m)
	case Unknown:
		w.run.NUnk++
		w.run.Why["solver unknown for assertion "+msg]++
	}
	if r != Unsat {
		w.assume(v)
	}
}

// ---- path execution ----

func (w *Worker) runJob(j Job) {
	w.resetPath(j)
	var alts []Job
	w.alts = &alts
	r := w.run
	var outcome any
	stk := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				outcome = x
				if os.Getenv("VSYM_DEBUG") != "" {
					stk = string(debug.Stack())
				}
			}
		}()
		w.runMain(r.harness)
	}()
	w.killAll()
	r.Steps += w.steps
	switch x := outcome.(type) {
	case nil:
		r.Completed++
		for _, s := range w.reached {
			r.Reached[s]++
		}
		w.sample("")
	case pathAbort:
		switch x.kind {
		case "assume":
			r.Assumed++
		case "violated":
			r.Completed++
		case "steps":
			r.StepLim++
			r.Why["step limit: "+x.why]++
		case "deadlock":
			r.Deadlock++
			w.candidate("deadlock", "deadlock: "+x.why, "", w.model)
		default:
			r.Unsup++
			r.Why[x.kind+": "+x.why]++
			if r.nUnsupSamples < 12 {
				r.nUnsupSamples++
				r.Samples = append(r.Samples, Sample{Values: w.modelNames(w.model), Unsup: x.why})
			}
		}
	case targetPanic:
		r.Completed++
		w.candidate("panic", "panic: "+x.msg+" at "+x.where, x.where, w.model)
	default:
		r.Unsup++
		msg := fmt.Sprintf("engine error: %v", outcome)
		if os.Getenv("VSYM_DEBUG") != "" {
			msg += "\n" + stk
		}
		r.Why[msg]++
	}
	w.rollback()
	r.push2(w, alts)
}

func (r *Run) push2(w *Worker, js []Job) { w.shared.push(js) }

func (w *Worker) sample(p string) {
	r := w.run
	if len(r.Samples) >= r.eng.maxSamples && r.rand()%uint64(r.Completed+1) >= uint64(r.eng.maxSamples) {
		return
	}
	s := Sample{Values: w.modelNames(w.model), Panic: p}
	for _, o := range w.observes {
		s.Observes = append(s.Observes, w.render(o))
	}
	if len(r.Samples) < r.eng.maxSamples {
		r.Samples = append(r.Samples, s)
	} else {
		r.Samples[r.rand()%uint64(len(r.Samples))] = s
	}
}

func (r *Run) rand() uint64 {
	r.rngState ^= r.rngState << 13
	r.rngState ^= r.rngState >> 7
	r.rngState ^= r.rngState << 17
	return r.rngState
}

func (w *Worker) evalVal(v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case *Term:
		return w.tt.Eval(v, w.model)
	}
	return 0
}

// render gives the concrete text of an observed value under the path model.
func (w *Worker) render(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(w.evalVal(x))
		}
		return string(b)
	case bool:
		return fmt.Sprint(v)
	case uint64:
		return fmt.Sprint(int64(v))
	case *Term:
		x := w.tt.Eval(v, w.model)
		if v.w == 0 {
			return fmt.Sprint(x != 0)
		}
		return fmt.Sprint(sext(x, v.w))
	}
	return fmt.Sprintf("?%T", v)
}

// ---- merging of pure calls ----

type mergeOut struct {
	cond  *Term
	val   Value
	shape string
	abort any
	model map[*Term]uint64
}

// shapeOf gives a key such that two values with equal keys can be merged with ite.
func (w *Worker) shapeOf(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case bool:
		sb.WriteString("b")
	case uint64:
		sb.WriteString("i")
	case *Term:
		if v.w == 0 {
			sb.WriteString("b")
		} else {
			sb.WriteString("i")
		}
	case float64:
		fmt.Fprintf(sb, "f%v", v)
	case string:
		fmt.Fprintf(sb, "s%d", len(v))
	case *SStr:
		fmt.Fprintf(sb, "s%d", len(v.b))
	case Agg:
		sb.WriteString("(")
		for _, x := range v {
			if !w.shapeOf(x, sb) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString(")")
	case Tuple:
		sb.WriteString("[")
		for _, x := range v {
			if !w.shapeOf(x, sb) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case Iface:
		if v.t == nil {
			sb.WriteString("n")
			return true
		}
		sb.WriteString("I" + v.t.String() + ":")
		if types.IsInterface(v.t) {
			return false
		}
		return w.shapeOf(v.v, sb)
	case Ptr:
		if v.o == nil {
			sb.WriteString("p0")
			return true
		}
		fmt.Fprintf(sb, "p%p+%d", v.o, v.off)
	case Slice:
		if v.o == nil {
			sb.WriteString("l0")
			return true
		}
		fmt.Fprintf(sb, "l%p+%d,%d,%d", v.o, v.off, v.len, v.cap)
	case *MapObj:
		fmt.Fprintf(sb, "m%p", v)
	case *Closure:
		fmt.Fprintf(sb, "c%p", v)
	case *ChanObj:
		fmt.Fprintf(sb, "h%p", v)
	case nil:
		sb.WriteString("_")
	default:
		return false
	}
	return true
}

// mergeVals builds ite(c, a, b) for same-shape values.
func (w *Worker) mergeVals(c *Term, a, b Value, t types.Type) Value {
	switch x := a.(type) {
	case bool, *Term, uint64:
		if a == b {
			return a
		}
		var wd uint8
		if ta, ok := a.(*Term); ok {
			wd = ta.w
		} else if tb, ok := b.(*Term); ok {
			wd = tb.w
		} else if _, ok := a.(uint64); ok {
			wd = 64
			if t != nil {
				if bk := basicInfo(t); bk.isInt {
					wd = bk.w
				}
			}
		}
		return w.fromTerm(w.tt.Ite(c, w.term(a, wd), w.term(b, wd)))
	case float64:
		return x
	case string, *SStr:
		if s, ok := a.(string); ok {
			if s2, ok := b.(string); ok && s == s2 {
				return a
			}
		}
		p, q := strBytes(a), strBytes(b)
		out := make([]Value, len(p))
		for i := range p {
			out[i] = w.mergeVals(c, p[i], q[i], types.Typ[types.Uint8])
		}
		return mkStr(out)
	case Agg:
		y := b.(Agg)
		out := make(Agg, len(x))
		var fts []types.Type
		if t != nil {
			fts = w.cellTypes(t)
		}
		for i := range x {
			var ft types.Type
			if i < len(fts) {
				ft = fts[i]
			}
			out[i] = w.mergeVals(c, x[i], y[i], ft)
		}
		return out
	case Tuple:
		y := b.(Tuple)
		out := make(Tuple, len(x))
		tp, _ := t.(*types.Tuple)
		for i := range x {
			var ft types.Type
			if tp != nil {
				ft = tp.At(i).Type()
			}
			out[i] = w.mergeVals(c, x[i], y[i], ft)
		}
		return out
	case Iface:
		if x.t == nil {
			return a
		}
		return Iface{x.t, w.mergeVals(c, x.v, b.(Iface).v, x.t)}
	}
	return a
}

func (w *Worker) cellTypes(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []types.Type
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, w.cellTypes(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		e := w.cellTypes(u.Elem())
		var out []types.Type
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e...)
		}
		return out
	}
	return []types.Type{t}
}

const mergeCap = 600

// callMerged explores all paths of a call locally and merges the results.
// ok=false means the call must be made in the ordinary forking way.
func (w *Worker) callMerged(fi *fnInfo, args []Value, env []Value) (res Value, ok bool) {
	if w.impureFns[fi.fn] && w.pos >= len(w.prefix) {
		w.trace = append(w.trace, 0)
		return nil, false
	}
	savedPrefix, savedPos, savedTrace, savedAlts := w.prefix, w.pos, w.trace, w.alts
	savedModel, npc := w.model, len(w.pc)
	savedBase, savedDepth := w.mergeBase, w.mergeDepth
	savedFr := w.cur.fr
	jl := len(w.journal)
	nvars := w.nvars

	restoreLocal := func() {
		w.truncPC(npc)
		w.setModel(savedModel)
		w.cur.fr = savedFr
		w.rollbackTo(jl)
	}
	restoreAll := func() {
		restoreLocal()
		w.prefix, w.pos, w.trace, w.alts = savedPrefix, savedPos, savedTrace, savedAlts
		w.mergeBase, w.mergeDepth = savedBase, savedDepth
		w.nvars = nvars
	}

	var subs [][]uint64
	replay := false
	if savedPos < len(savedPrefix) {
		replay = true
		p := savedPos
		n := int(savedPrefix[p])
		p++
		for i := 0; i < n; i++ {
			l := int(savedPrefix[p])
			p++
			subs = append(subs, savedPrefix[p:p+l])
			p += l
		}
		savedTrace = append(savedTrace, savedPrefix[savedPos:p]...)
		savedPos = p
		if n == 0 { // recorded as not merged
			w.pos, w.trace = savedPos, savedTrace
			return nil, false
		}
	}

	var outs []mergeOut
	var traces [][]uint64
	var aborted *mergeAbort
	w.mergeDepth = savedDepth + 1
	w.mergeBase = w.serial

	runOne := func(prefix []uint64, model map[string]uint64, alts *[]Job) (o mergeOut, tr []uint64) {
		w.prefix, w.pos, w.trace, w.alts = prefix, 0, make([]uint64, 0, len(prefix)+8), alts
		if model != nil {
			m := make(map[*Term]uint64, len(savedModel))
			for _, v := range w.varList {
				m[v] = model[v.name]
			}
			w.setModel(m)
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch x := x.(type) {
					case mergeAbort:
						aborted = &x
					case targetPanic, pathAbort:
						o.abort = x
					default:
						panic(x)
					}
				}
			}()
			o.val = w.execFn(fi, args, env)
		}()
		c := w.tt.True
		for _, t := range w.pc[npc:] {
			c = w.tt.And(c, t)
		}
		o.cond = c
		o.model = w.model
		tr = w.trace
		restoreLocal()
		return
	}

	if replay {
		for _, s := range subs {
			o, _ := runOne(s, nil, nil)
			if aborted != nil {
				panic("replay divergence: merge aborted on replay: " + aborted.why + " in " + fi.fn.String())
			}
			outs = append(outs, o)
		}
	} else {
		queue := []Job{{}}
		cur := w.modelNames(savedModel)
		queue[0].model = cur
		for len(queue) > 0 && aborted == nil {
			if len(outs) >= mergeCap {
				aborted = &mergeAbort{"path cap"}
				break
			}
			j := queue[len(queue)-1]
			queue = queue[:len(queue)-1]
			var alts []Job
			o, tr := runOne(j.prefix, j.model, &alts)
			if aborted != nil {
				break
			}
			outs = append(outs, o)
			traces = append(traces, tr)
			queue = append(queue, alts...)
		}
	}
	restoreAll()
	if aborted != nil {
		w.impureFns[fi.fn] = true
		w.trace = append(w.trace, 0) // not merged
		return nil, false
	}
	if !replay {
		w.trace = append(w.trace, uint64(len(traces)))
		for _, t := range traces {
			w.trace = append(w.trace, uint64(len(t)))
			w.trace = append(w.trace, t...)
		}
		w.run.Merges++
		w.run.MergePaths += len(outs)
	}

	// group
	type group struct {
		cond  *Term
		val   Value
		abort any
		model map[*Term]uint64
	}
	var groups []*group
	byShape := map[string]*group{}
	rt := fi.resT
	for i := range outs {
		o := &outs[i]
		key := ""
		if o.abort != nil {
			key = fmt.Sprintf("!%v", o.abort)
		} else {
			var sb strings.Builder
			if w.shapeOf(o.val, &sb) {
				key = sb.String()
			} else {
				key = fmt.Sprintf("#%d", i)
			}
		}
		if g, ok := byShape[key]; ok {
			if o.abort == nil {
				g.val = w.mergeVals(o.cond, o.val, g.val, rt)
			}
			g.cond = w.tt.Or(g.cond, o.cond)
			continue
		}
		g := &group{o.cond, o.val, o.abort, o.model}
		byShape[key] = g
		groups = append(groups, g)
	}
	gi := 0
	if len(groups) > 1 {
		if e, ok := w.nextEntry(); ok {
			gi = int(e)
		} else {
			gi = -1
			for i, g := range groups {
				if w.evalBool(g.cond) {
					gi = i
					break
				}
			}
			if gi < 0 {
				panic("merge: no group matches the current model in " + fi.fn.String())
			}
			for i, g := range groups {
				if i != gi {
					w.pushAlt([]uint64{uint64(i)}, g.model)
				}
			}
			w.trace = append(w.trace, uint64(gi))
			if w.eng.profile {
				w.run.forks["merge "+fi.fn.String()] += len(groups) - 1
			}
		}
		w.addPC(groups[gi].cond)
	}
	if groups[gi].abort != nil {
		panic(groups[gi].abort)
	}
	return groups[gi].val, true
}

func (w *Worker) rollbackTo(n int) {
	for i := len(w.journal) - 1; i >= n; i-- {
		u := w.journal[i]
		switch {
		case u.fn != nil:
			u.fn()
		case u.o != nil:
			u.o.cells[u.off] = u.old
		case u.m != nil:
			*u.m = *u.snap
		}
	}
	w.journal = w.journal[:n]
}

// hasSym reports whether a value contains symbolic parts (shallowly).
func hasSym(v Value, depth int) bool {
	switch v := v.(type) {
	case *Term, *SStr:
		return true
	case Agg:
		for _, x := range v {
			if hasSym(x, depth) {
				return true
			}
		}
	case Iface:
		if v.t != nil {
			return hasSym(v.v, depth)
		}
	case Slice:
		if v.o == nil || depth <= 0 {
			return false
		}
		n := v.len
		if n > 200 {
			n = 200
		}
		for i := 0; i < n && v.off+i < len(v.o.cells); i++ {
			if hasSym(v.o.cells[v.off+i], depth-1) {
				return true
			}
		}
	case Ptr:
		if v.o == nil || depth <= 0 {
			return false
		}
		n := len(v.o.cells)
		if n > 100 {
			n = 100
		}
		for i := 0; i < n; i++ {
			if hasSym(v.o.cells[i], depth-1) {
				return true
			}
		}
	case *Closure:
		if v == nil || depth <= 0 {
			return false
		}
		for _, x := range v.env {
			if hasSym(x, depth-1) {
				return true
			}
		}
	}
	return false
}
