package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// Item is one unit of work: a decision prefix and a model of its constraints.
type Item struct {
	prefix []int32
	model  []uint64
}

// Input is one nondeterministic value requested by the harness, in order.
type Input struct {
	Kind string `json:"k"`
	Val  any    `json:"v"`
	vars []*Var
	base int64
}

type Candidate struct {
	Kind   string // assert, panic, hang, deadlock
	Msg    string
	Stack  string
	Inputs []Input
	Notes  []string
	Trace  []int32
}

type abortKind int

const (
	abAssume abortKind = iota
	abLimit
	abUnsupported
	abUnknown
	abDone
	abCandidate
	abExit
	abCrash
)

type abortPath struct {
	kind abortKind
	msg  string
}

type Path struct {
	ex     *Explorer
	w      *Worker
	prefix []int32
	trace  []int32
	pc     []*Term
	sent   int // pc conjuncts already asserted in the solver
	nvsent int
	inscp  bool
	vars   []*Var
	model  []uint64
	dom    map[*Var]*[4]uint64
	ent    map[*Var]bool
	inputs []Input
	notes  []value
	steps  int64
	timeAt int64
	depth  int
	fresh  int

	globals map[any]*value
	initSt  map[any]int

	sch     *sched
	preempt int

	onExec        value // runs another program
	mapOrder      bool
	now           int64
	timers        []func()
	fs            *memFS
	stdout        []sb
	side          map[any]any // per-path engine state (mutexes, reflect ids ...)
	asserts       int
	reached       map[string]bool
	covered       map[string]bool
	cand          *Candidate
	depthBoundHit bool
	hangOK        bool
	crash         *crashCtl
	onExit        value // the harness function os.Exit ends in
	exited        bool
	symIters      int
	known         map[*Term]bool
	nocheck       bool
}

type crashCtl struct {
	at      int
	n       int
	active  bool
	crashed bool
}

func (p *Path) abort(k abortKind, msg string) {
	panic(abortPath{k, msg})
}

func (p *Path) unsupported(format string, a ...any) {
	p.abort(abUnsupported, fmt.Sprintf(format, a...))
}

func (p *Path) newVar(w uint8, set *[256]bool) *Var {
	v := &Var{name: fmt.Sprintf("v%d", len(p.vars)), w: w, id: len(p.vars), set: set}
	if set != nil {
		v.rng = true
		first := true
		for i := 0; i < 256; i++ {
			if set[i] {
				if first {
					v.lo = uint64(i)
					first = false
				}
				v.hi = uint64(i)
			}
		}
	}
	p.vars = append(p.vars, v)
	if len(p.model) < len(p.vars) {
		p.model = append(p.model, v.lo)
	}
	return v
}

func (p *Path) mval(v *Var) uint64 { return p.model[v.id] }

func (p *Path) evalT(t *Term) uint64 {
	var memo map[*Term]uint64
	if t.size > 64 {
		memo = map[*Term]uint64{}
	}
	return eval(t, p.mval, memo)
}

func collectVars(t *Term, seen map[*Term]bool, out map[*Var]bool) {
	if t.op == OpVar {
		out[t.v] = true
		return
	}
	if t.one != nil {
		out[t.one] = true
		return
	}
	if !t.many {
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, x := range t.a {
		collectVars(x, seen, out)
	}
}

func (p *Path) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OpAnd {
		for _, x := range c.a {
			p.addPC(x)
		}
		return
	}
	p.pc = append(p.pc, c)
	if c.one != nil && c.one.w == 8 {
		d := p.domain(c.one)
		t := truth(c)
		for i := range d {
			d[i] &= t[i]
		}
	} else {
		vs := map[*Var]bool{}
		collectVars(c, map[*Term]bool{}, vs)
		for v := range vs {
			p.ent[v] = true
		}
	}
}

func (p *Path) domain(v *Var) *[4]uint64 {
	d, ok := p.dom[v]
	if !ok {
		d = &[4]uint64{}
		for i := 0; i < 256; i++ {
			if v.set == nil || v.set[i] {
				d[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		p.dom[v] = d
	}
	return d
}

// solver plumbing ---------------------------------------------------------

func (p *Path) sync() *Solver {
	s := p.w.solver
	if !p.inscp {
		s.emit("(push 1)\n")
		p.inscp = true
	}
	for ; p.nvsent < len(p.vars); p.nvsent++ {
		v := p.vars[p.nvsent]
		if v.w == 0 {
			s.emit("(declare-const " + v.name + " Bool)\n")
		} else {
			s.emit(fmt.Sprintf("(declare-const %s (_ BitVec %d))\n", v.name, v.w))
		}
		if v.set != nil {
			s.emit("(assert (or")
			i := 0
			for i < 256 {
				if !v.set[i] {
					i++
					continue
				}
				j := i
				for j+1 < 256 && v.set[j+1] {
					j++
				}
				if i == j {
					s.emit(fmt.Sprintf(" (= %s #x%02x)", v.name, i))
				} else {
					s.emit(fmt.Sprintf(" (and (bvuge %s #x%02x) (bvule %s #x%02x))", v.name, i, v.name, j))
				}
				i = j + 1
			}
			s.emit(" false))\n")
		} else if v.rng {
			s.emit(fmt.Sprintf("(assert (and (bvuge %s (_ bv%d %d)) (bvule %s (_ bv%d %d))))\n", v.name, v.lo, v.w, v.name, v.hi, v.w))
		}
	}
	for ; p.sent < len(p.pc); p.sent++ {
		str := p.show(p.pc[p.sent])
		s.emit("(assert " + str + ")\n")
	}
	return s
}

func (p *Path) show(t *Term) string {
	s := p.w.solver
	var b strings.Builder
	var def func(x *Term) string
	def = func(x *Term) string {
		var db strings.Builder
		smtNode(x, &db, def)
		s.ndef++
		name := fmt.Sprintf("d%d", s.ndef)
		sort := "Bool"
		if x.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", x.w)
		}
		s.emit("(define-fun " + name + " () " + sort + " " + db.String() + ")\n")
		x.def = name
		return name
	}
	smt(t, &b, def)
	return b.String()
}

// query asks the solver whether PC ∧ c is satisfiable; on sat the model is
// returned.
func (p *Path) query(c *Term) (string, []uint64) {
	s := p.sync()
	str := p.show(c)
	s.emit("(push 1)\n(assert " + str + ")\n")
	r := s.check("(check-sat)")
	var m []uint64
	if r == "sat" {
		vals, err := s.values(p.vars)
		if err != nil {
			r = "unknown"
		}
		m = vals
	}
	s.emit("(pop 1)\n")
	if r == "unknown" {
		p.ex.noteUnknown(p)
	}
	return r, m
}

func (p *Path) close() {
	if p.inscp {
		p.w.solver.emit("(pop 1)\n")
		p.inscp = false
	}
}

// truth decides a boolean value on this path, forking when both outcomes are
// feasible.
func (p *Path) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		if v.isConst() {
			return v.val != 0
		}
		return p.decide(v)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func (p *Path) decide(c *Term) bool {
	// c (or its negation) decided before on this path?
	if r, ok := p.known[c]; ok {
		return r
	}
	pos := len(p.trace)
	if pos < len(p.prefix) {
		r := p.prefix[pos] != 0
		p.trace = append(p.trace, p.prefix[pos])
		if r {
			p.addPC(c)
		} else {
			p.addPC(tNot(c))
		}
		p.known[c] = r
		return r
	}
	r := p.evalT(c) != 0
	other := c
	mine := tNot(c)
	if r {
		other, mine = mine, c
	}
	feasible, model := p.feasible(other)
	if feasible {
		pre := make([]int32, pos+1)
		copy(pre, p.trace)
		if !r {
			pre[pos] = 1
		}
		p.ex.push(Item{pre, model})
	}
	if r {
		p.trace = append(p.trace, 1)
	} else {
		p.trace = append(p.trace, 0)
	}
	p.addPC(mine)
	p.known[c] = r
	return r
}

var domCheckFirst, domCheckEvery = 200, 64

func (p *Path) feasible(c *Term) (bool, []uint64) {
	if c.one != nil && c.one.w == 8 {
		d := *p.domain(c.one)
		t := truth(c)
		empty := true
		pick := uint64(0)
		for i := range d {
			d[i] &= t[i]
			if d[i] != 0 && empty {
				empty = false
				pick = uint64(i*64 + bits.TrailingZeros64(d[i]))
			}
		}
		if empty {
			p.w.domDec++
			p.w.domPrune++
			// the byte-set decision is discharged by the solver too: always at
			// first, then for a fixed share
			if n := p.w.domPrune; n <= domCheckFirst || n%domCheckEvery == 0 {
				r, m := p.query(c)
				p.w.domSMT++
				if r == "sat" {
					solverErr("byte-set decision refuted by the solver")
					return true, m
				}
			}
			return false, nil
		}
		if !p.ent[c.one] {
			p.w.domDec++
			m := append([]uint64(nil), p.model...)
			m[c.one.id] = pick
			return true, m
		}
	}
	r, m := p.query(c)
	switch r {
	case "sat":
		return true, m
	case "unsat":
		return false, nil
	}
	// unknown: the other side is left unexplored (reported as such)
	return false, nil
}

// choice picks one of n alternatives, exploring all of them.
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	pos := len(p.trace)
	if pos < len(p.prefix) {
		r := int(p.prefix[pos])
		if r >= n {
			p.unsupported("replay divergence: choice %d of %d", r, n)
		}
		p.trace = append(p.trace, int32(r))
		return r
	}
	for k := n - 1; k >= 1; k-- {
		pre := make([]int32, pos+1)
		copy(pre, p.trace)
		pre[pos] = int32(k)
		p.ex.push(Item{pre, append([]uint64(nil), p.model...)})
	}
	p.trace = append(p.trace, 0)
	return 0
}

// concretize forks until the integer is a constant on the path.
func (p *Path) concretize(v value, w uint8, signed bool) int64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(int64)
	}
	for n := 0; ; n++ {
		if n > 600 {
			p.unsupported("concretisation of a wide symbolic integer")
		}
		// deterministic candidate: during prefix replay the value must be the
		// one that was chosen originally, so it is recorded in the trace.
		var cand uint64
		pos := len(p.trace)
		if pos < len(p.prefix) {
			cand = uint64(int64(p.prefix[pos])) & mask(t.w)
		} else {
			cand = p.evalT(t)
		}
		p.trace = append(p.trace, int32(uint32(cand)))
		if cand != uint64(int64(int32(cand)))&mask(t.w) {
			p.unsupported("concretisation of a huge integer")
		}
		if p.decide(tEq(t, bvc(t.w, cand))) {
			if signed {
				return sext(cand&mask(t.w), t.w)
			}
			return int64(cand & mask(t.w))
		}
	}
}

func (p *Path) cval(pos int) uint64 {
	// sign-extend stored 32-bit candidate
	v := p.prefix[pos]
	if v < 0 {
		return uint64(int64(v))
	}
	return 0
}

func (p *Path) assume(v value) {
	switch v := v.(type) {
	case bool:
		if !v {
			p.abort(abAssume, "")
		}
	case *Term:
		if !p.decide2(v) {
			p.abort(abAssume, "")
		}
	}
}

// decide2 is decide without exploring the false side.
func (p *Path) decide2(c *Term) bool {
	if r, ok := p.known[c]; ok {
		return r
	}
	pos := len(p.trace)
	if pos < len(p.prefix) {
		p.trace = append(p.trace, p.prefix[pos])
		p.addPC(c)
		p.known[c] = true
		return true
	}
	if p.evalT(c) == 0 {
		ok, m := p.feasible(c)
		if !ok {
			return false
		}
		p.model = m
	}
	p.trace = append(p.trace, 1)
	p.addPC(c)
	p.known[c] = true
	return true
}

// assert checks a harness assertion: the solver must refute its negation.
func (p *Path) assert(v value, msg string) {
	p.asserts++
	switch v := v.(type) {
	case bool:
		if !v {
			p.candidate("assert", msg, "")
			return
		}
		p.w.assertConc++
		return
	case *Term:
		if v.isConst() {
			p.assert(v.val != 0, msg)
			return
		}
		// the assumption after the assert occupies one trace slot
		pos := len(p.trace)
		if pos < len(p.prefix) {
			p.trace = append(p.trace, p.prefix[pos])
			p.addPC(v)
			return
		}
		r, m := p.query(tNot(v))
		switch r {
		case "sat":
			// the inputs that satisfy the assertion are still explored
			if r2, m2 := p.query(v); r2 == "sat" {
				pre := append(append([]int32(nil), p.trace...), 1)
				p.ex.push(Item{prefix: pre, model: m2})
			}
			p.model = m
			p.candidate("assert", msg, "")
		case "unsat":
			p.w.assertSolver++
			p.trace = append(p.trace, 1)
			p.addPC(v)
		default:
			p.abort(abUnknown, "solver gave no answer for assertion: "+msg)
		}
	}
}

func (p *Path) candidate(kind, msg, stack string) {
	c := &Candidate{Kind: kind, Msg: msg, Stack: stack, Trace: append([]int32(nil), p.trace...)}
	c.Inputs = p.concreteInputs()
	c.Notes = p.showNotes()
	p.cand = c
	p.abort(abCandidate, msg)
}

func (p *Path) concreteInputs() []Input {
	var out []Input
	for _, in := range p.inputs {
		switch in.Kind {
		case "str":
			bs := make([]int, len(in.vars))
			for i, v := range in.vars {
				bs[i] = int(p.model[v.id])
			}
			out = append(out, Input{Kind: "str", Val: bs})
		case "int":
			out = append(out, Input{Kind: "int", Val: sext(p.model[in.vars[0].id], in.vars[0].w)})
		case "byte":
			out = append(out, Input{Kind: "int", Val: int64(p.model[in.vars[0].id])})
		case "bool":
			out = append(out, Input{Kind: "int", Val: int64(p.model[in.vars[0].id])})
		default:
			out = append(out, Input{Kind: in.Kind, Val: in.Val})
		}
	}
	return out
}

// Explorer -----------------------------------------------------------------

// Sample is one completed path: a model of its path condition, and what the
// interpreted harness noted on it.
type Sample struct {
	Inputs             []Input
	Notes              []string
	Decisions, Asserts int
}

func (s *Sample) String() string {
	return fmt.Sprintf("inputs=%s decisions=%d asserts=%d notes=%v", showInputs(s.Inputs), s.Decisions, s.Asserts, s.Notes)
}

func (p *Path) showNotes() (out []string) {
	for _, n := range p.notes {
		out = append(out, describe(p, n))
	}
	return
}

type Stats struct {
	Paths, Completed, Assumed, Cands int
	LimitHit, Unsup, Unknown         int
	Steps                            int64
	Asserts                          int
	UnsupMsgs                        map[string]int
	Reached                          map[string]int
	Funcs                            map[string]bool
	MaxPathLen                       int
	PathChecks                       int
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Item
	active   int
	stop     bool
	deadline time.Time
	timedOut bool
	maxPaths int
	prog     *Program
	harness  string
	stats    Stats
	cands    map[string][]*Candidate
	ncand    int
	samples  []*Sample
	opts     Options
	workers  []*Worker
	rng      *rand.Rand
	leftover int
}

type Options struct {
	Workers  int
	MaxSteps int64
	MaxDepth int
	Timeout  time.Duration
	MaxPaths int
	Solver   string
	SolverMs int
	Preempt  int
	MapOrder bool
	Verbose  bool
	Seed     int64
}

type Worker struct {
	id           int
	solver       *Solver
	ex           *Explorer
	domDec       int
	domPrune     int
	domSMT       int
	assertSolver int
	assertConc   int
	stdGlobals   map[any]*value
	stdInit      map[any]int
	funcs        map[string]bool
}

func NewExplorer(prog *Program, harness string, o Options) *Explorer {
	ex := &Explorer{prog: prog, harness: harness, opts: o, cands: map[string][]*Candidate{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stats.UnsupMsgs = map[string]int{}
	ex.stats.Reached = map[string]int{}
	ex.stats.Funcs = map[string]bool{}
	ex.rng = rand.New(rand.NewSource(o.Seed))
	return ex
}

func (ex *Explorer) push(it Item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) noteUnknown(p *Path) {
	ex.mu.Lock()
	ex.stats.Unknown++
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (Item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return Item{}, false
		}
		if time.Now().After(ex.deadline) || (ex.opts.MaxPaths > 0 && ex.stats.Paths >= ex.opts.MaxPaths) {
			if len(ex.stack) > 0 || ex.active > 0 {
				ex.timedOut = true
			}
			ex.stop = true
			ex.leftover = len(ex.stack)
			ex.cond.Broadcast()
			return Item{}, false
		}
		if n := len(ex.stack); n > 0 {
			i := n - 1
			if n > 64 && ex.rng.Intn(4) == 0 {
				i = ex.rng.Intn(n)
			}
			it := ex.stack[i]
			ex.stack[i] = ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			ex.stats.Paths++
			return it, true
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return Item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// Run explores the harness to completion or to the limits.
func (ex *Explorer) Run() error {
	ex.deadline = time.Now().Add(ex.opts.Timeout)
	ex.push(Item{})
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < ex.opts.Workers; i++ {
		w := &Worker{id: i, ex: ex, stdGlobals: map[any]*value{}, stdInit: map[any]int{}, funcs: map[string]bool{}}
		s, err := NewSolver(ex.opts.Solver, ex.opts.SolverMs)
		if err != nil {
			return err
		}
		w.solver = s
		ex.workers = append(ex.workers, w)
	}
	go func() { // wake up waiters at the deadline
		time.Sleep(time.Until(ex.deadline) + 50*time.Millisecond)
		ex.cond.Broadcast()
	}()
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.solver.Close()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				w.runItem(it)
				ex.done()
			}
		}(w)
	}
	wg.Wait()
	return firstErr
}

func (w *Worker) runItem(it Item) {
	ex := w.ex
	p := &Path{ex: ex, w: w, prefix: it.prefix, model: it.model,
		dom: map[*Var]*[4]uint64{}, ent: map[*Var]bool{}, known: map[*Term]bool{},
		globals: map[any]*value{}, initSt: map[any]int{}, side: map[any]any{},
		reached: map[string]bool{}, mapOrder: ex.opts.MapOrder, preempt: ex.opts.Preempt,
		now: 1600000000}
	kind, msg := p.runMain()
	if (kind == abDone || kind == abCandidate) && p.inscp {
		// confirm the path condition itself with the solver
		s := p.sync()
		if r := s.check("(check-sat)"); r == "unsat" {
			kind, msg = abUnsupported, "internal: infeasible path explored "+showInputs(p.concreteInputs())+dbgPC(p)
		} else if r == "unknown" {
			ex.noteUnknown(p)
		}
	}
	p.close()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	st := &ex.stats
	st.Steps += p.steps
	st.Asserts += p.asserts
	if len(p.trace) > st.MaxPathLen {
		st.MaxPathLen = len(p.trace)
	}
	switch kind {
	case abDone:
		st.Completed++
		for k := range p.reached {
			st.Reached[k]++
		}
		if len(ex.samples) < 6 || (st.Completed%997 == 0 && len(ex.samples) < 20) {
			ex.samples = append(ex.samples, &Sample{Inputs: p.concreteInputs(), Notes: p.showNotes(), Decisions: len(p.trace), Asserts: p.asserts})
		}
	case abAssume:
		st.Assumed++
	case abLimit:
		if len(ex.cands["hang: no termination"]) < 4 {
			ex.cands["hang: no termination"] = append(ex.cands["hang: no termination"],
				&Candidate{Kind: "hang", Msg: "no termination", Stack: msg, Inputs: p.concreteInputs(), Notes: p.showNotes()})
		}
		st.LimitHit++
		st.UnsupMsgs["limit: "+msg]++
	case abUnsupported:
		st.Unsup++
		st.UnsupMsgs[msg]++
	case abUnknown:
		st.Unknown++
		st.UnsupMsgs[msg]++
	case abCandidate:
		st.Cands++
		key := p.cand.Kind + ": " + p.cand.Msg
		if len(ex.cands[key]) < 12 {
			ex.cands[key] = append(ex.cands[key], p.cand)
		}
		// a candidate of a listed finding does not cut the exploration short
		if !strings.Contains(key, "[KF-") {
			ex.ncand++
		}
		if ex.ncand > 4000 {
			ex.stop = true
			ex.timedOut = true
			ex.cond.Broadcast()
		}
	}
}

func showInputs(ins []Input) string {
	var parts []string
	for _, in := range ins {
		switch v := in.Val.(type) {
		case []int:
			b := make([]byte, len(v))
			for i := range v {
				b[i] = byte(v[i])
			}
			parts = append(parts, fmt.Sprintf("%q", string(b)))
		default:
			parts = append(parts, fmt.Sprint(v))
		}
	}
	return "[" + strings.Join(parts, " ") + "]"
}

func dbgPC(p *Path) string {
	var sb strings.Builder
	for _, c := range p.pc {
		sb.WriteString("\n   " + p.show(c))
	}
	return sb.String()
}
