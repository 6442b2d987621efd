package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// decision is one recorded fork along a path.
type decision struct {
	kind byte // 'b' branch, 'c' choice, 'v' concretise
	n    uint64
	t    bool
}

type nondetRec struct {
	Name string
	Key  string
	W    int
	Val  uint64
	term *Term
	conc bool
}

type workItem struct {
	prefix []decision
	model  []uint64 // by variable order of the machine that found it
	names  []string
}

type Harness struct {
	Name    string
	fn      *Fn
	pkgPath string
	pkgDir  string
	funcStr string
}

type violation struct {
	Harness string      `json:"harness"`
	Kind    string      `json:"kind"`
	Msg     string      `json:"msg"`
	Vals    []nondetRec `json:"vals"`
	Notes   []string    `json:"notes,omitempty"`
	Sched   bool        `json:"sched,omitempty"`
}

type harnessResult struct {
	Name       string
	Paths      int
	Infeasible int
	Asserts    int
	AssertSym  int
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	SolverSec  float64
	WallSec    float64
	Steps      int64
	Merges     int64
	Complete   bool
	Incomplete []string
	Reached    map[string]int
	Violations []violation
	Funcs      map[string]int
	MaxDepth   int
	Samples    []string
	Pending    int
	Decisions  int64
	Domain     int
	Ranges     int64
	Confirmed  int
	Traces     []traceRec
}

type traceRec struct {
	vals []nondetRec
	obs  []string
}

type explorer struct {
	eng     *Engine
	h       *Harness
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	active  int
	stop    bool
	dl      time.Time
	maxPath int
	res     *harnessResult
	inc     map[string]int
	tier    int
	maxViol int
	fresh   int
	okPaths int
	confirm int
}

func (m *Machine) exploreReset() {
	// roll back writes of the previous path
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		switch {
		case u.o != nil:
			u.o.s[u.off] = u.v
		case u.mp != nil:
			*u.mp = *u.mapOld
		case u.fn != nil:
			u.fn()
		}
	}
	m.undo = m.undo[:0]
	m.epoch++
	m.pos = 0
	m.trace = m.trace[:0]
	m.pc = m.pc[:0]
	m.dom = map[*Term]set256{}
	m.ent = map[*Term][]*Term{}
	m.steps, m.nextClock = 0, 0
	m.depth = 0
	m.specDepth = 0
	m.curFrame = nil
	m.nondet = nil
	m.ndCount = map[string]int{}
	m.reached = map[string]bool{}
	m.notes = nil
	m.obs = nil
	m.mapOrder = false
	m.preempt = false
	m.races = nil
	m.fatal = nil
	m.side = map[string]any{}
	m.gors = []*Gor{{id: 0, wake: make(chan struct{})}}
	m.cur = m.gors[0]
}

func (m *Machine) setModel(md []uint64) {
	m.model = md
	m.tb.gen++
}

// decide forks on c and returns the side taken.
func (m *Machine) decide(c *Term) bool {
	if c.op == oConst {
		return c.val == 1
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	if m.inInit {
		panic(&pathAbort{"unsupported", "symbolic branch in init"})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != 'b' {
			panic(fmt.Sprintf("gosx: nondeterministic replay: want branch, have %c%s", d.kind, m.where()))
		}
		m.trace = append(m.trace, d)
		if d.n == 0 { // forced: the other side was infeasible, nothing to assert
			return d.t
		}
		if d.t {
			m.addPC(c)
		} else {
			m.addPC(m.tb.Not(c))
		}
		return d.t
	}
	side := m.tb.Eval(c, m.model) == 1
	oc := c
	if side {
		oc = m.tb.Not(c)
	}
	r, md := m.feasible(oc)
	d := decision{kind: 'b', t: side, n: 1}
	switch r {
	case resSat:
		m.fork(decision{kind: 'b', t: !side, n: 1}, md)
	case resUnsat:
		d.n = 0
	default:
		m.incomplete("solver-unknown")
	}
	m.pos++
	m.trace = append(m.trace, d)
	m.prefix = append(m.prefix, d)
	if d.n == 1 {
		if side {
			m.addPC(c)
		} else {
			m.addPC(m.tb.Not(c))
		}
	}
	return side
}

var profOn = os.Getenv("GOSX_PROF") != ""
var profMu sync.Mutex
var profCnt = map[string]int{}

// prof counts events by code position, for tuning harnesses.
func (m *Machine) prof(kind string) {
	if !profOn {
		return
	}
	w := firstLine(m.where(), 5)
	profMu.Lock()
	profCnt[kind+w]++
	profMu.Unlock()
}

func profDump() {
	var ks []string
	for k := range profCnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profCnt[ks[i]] > profCnt[ks[j]] })
	for i, k := range ks {
		if i >= 12 {
			break
		}
		fmt.Println("PROF", profCnt[k], k)
	}
	profCnt = map[string]int{}
}

func (m *Machine) fork(d decision, md []uint64) {
	m.prof("fork")
	p := make([]decision, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	it := workItem{prefix: p, model: append([]uint64(nil), md...)}
	it.names = m.modelNames(len(md))
	m.eng.cur.push(it)
}

func (m *Machine) modelNames(n int) []string {
	m.tb.syncNames()
	return m.tb.names[:n:n]
}

func (tb *TB) syncNames() {
	for len(tb.names) < len(tb.all) {
		v := tb.all[len(tb.names)]
		tb.names = append(tb.names, fmt.Sprintf("%s#%d", v.name, v.w))
	}
}

// choose is a fork among n alternatives that needs no solver.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != 'c' {
			panic(fmt.Sprintf("gosx: nondeterministic replay: want choice, have %c%s", d.kind, m.where()))
		}
		m.trace = append(m.trace, d)
		return int(d.n)
	}
	for k := n - 1; k >= 1; k-- {
		m.fork(decision{kind: 'c', n: uint64(k)}, m.model)
	}
	d := decision{kind: 'c', n: 0}
	m.pos++
	m.trace = append(m.trace, d)
	m.prefix = append(m.prefix, d)
	return 0
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term, what string) uint64 {
	if t.op == oConst {
		return t.val
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	for i := 0; ; i++ {
		if i > 4096 {
			panic(&pathAbort{"budget", "concretisation of " + what + m.where()})
		}
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			if d.kind != 'v' {
				panic(fmt.Sprintf("gosx: nondeterministic replay: want value, have %c%s", d.kind, m.where()))
			}
			m.trace = append(m.trace, d)
			e := m.tb.Eq(t, m.tb.Const(d.n, t.w))
			if d.t {
				m.addPC(e)
				return d.n
			}
			m.addPC(m.tb.Not(e))
			continue
		}
		v := m.tb.Eval(t, m.model)
		e := m.tb.Eq(t, m.tb.Const(v, t.w))
		r, md := m.feasible(m.tb.Not(e))
		switch r {
		case resSat:
			m.fork(decision{kind: 'v', n: v, t: false}, md)
		case resUnknown:
			m.incomplete("solver-unknown")
		}
		d := decision{kind: 'v', n: v, t: true}
		m.pos++
		m.trace = append(m.trace, d)
		m.prefix = append(m.prefix, d)
		m.addPC(e)
		return v
	}
}

func (m *Machine) assume(v Value) {
	if v.p == nil {
		if v.n == 0 {
			panic(&pathAbort{"infeasible", ""})
		}
		return
	}
	c := v.p.(*Term)
	if m.pos >= len(m.prefix) && m.tb.Eval(c, m.model) == 0 {
		r, md := m.feasible(c)
		switch r {
		case resSat:
			m.setModel(md)
		case resUnsat:
			panic(&pathAbort{"infeasible", ""})
		default:
			m.incomplete("solver-unknown")
			panic(&pathAbort{"infeasible", ""})
		}
	}
	// During replay of a prefix the final model satisfies every assumption made before its last decision.
	m.addPC(c)
}

func (m *Machine) assertV(v Value, msg string) {
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	m.mstats.asserts++
	if v.p == nil {
		if v.n == 0 {
			m.violate("assert", msg, m.model)
			panic(&pathAbort{"violation", ""})
		}
		return
	}
	if m.pos < len(m.prefix) {
		// already discharged when this prefix was first explored
		m.addPC(v.p.(*Term))
		return
	}
	m.mstats.assertSym++
	c := v.p.(*Term)
	r, md := m.solver.Check(m.pc, m.tb.Not(c))
	switch r {
	case resSat:
		m.violate("assert", msg, md)
		// continue on the side where it holds
		r2, md2 := m.solver.Check(m.pc, c)
		if r2 != resSat {
			panic(&pathAbort{"violation", ""})
		}
		m.setModel(md2)
	case resUnknown:
		m.incomplete("solver-unknown (assertion)")
		if m.tb.Eval(c, m.model) == 0 {
			panic(&pathAbort{"infeasible", ""})
		}
	}
	m.addPC(c)
}

func (m *Machine) violate(kind, msg string, md []uint64) {
	v := violation{Harness: m.h.Name, Kind: kind, Msg: msg}
	for _, nd := range m.nondet {
		if !nd.conc && nd.term != nil {
			if nd.term.op == oVar && int(nd.term.val) < len(md) {
				nd.Val = md[nd.term.val]
			} else if nd.term.op == oVar {
				nd.Val = 0
			}
		}
		v.Vals = append(v.Vals, nd)
	}
	v.Notes = append(v.Notes, m.notes...)
	m.eng.cur.addViolation(v)
}

// overdue tells whether a path runs on long after the budget.
func (m *Machine) overdue() bool {
	x := m.eng.cur
	return x != nil && !x.dl.IsZero() && time.Now().After(x.dl.Add(10*time.Second))
}

func (m *Machine) incomplete(why string) { m.eng.cur.addIncomplete(why) }

func (x *explorer) addViolation(v violation) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.res.Violations = append(x.res.Violations, v)
	if len(x.res.Violations) >= x.maxViol {
		x.stop = true
		x.cond.Broadcast()
	}
}

func (x *explorer) addIncomplete(w string) {
	x.mu.Lock()
	x.inc[w]++
	x.mu.Unlock()
}

func (x *explorer) push(it workItem) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *explorer) pop() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || (!x.dl.IsZero() && time.Now().After(x.dl)) {
			x.stop = true
			x.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(x.queue); n > 0 {
			it := x.queue[n-1]
			x.queue = x.queue[:n-1]
			x.active++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *explorer) doneItem() {
	x.mu.Lock()
	x.active--
	x.res.Paths++
	if x.maxPath > 0 && x.res.Paths >= x.maxPath {
		x.stop = true
	}
	x.cond.Broadcast()
	x.mu.Unlock()
}

// runPath executes the harness along one prefix.
func (m *Machine) runPath(it workItem) {
	if len(m.tb.m) > 1500000 {
		m.tb = newTB()
		m.solver.tb = m.tb
		m.solver.dead = true
	}
	m.exploreReset()
	m.tb.facts, m.tb.ranges, m.tb.nfact = m.tb.facts[:0], m.tb.ranges[:0], 0
	m.prefix = append([]decision(nil), it.prefix...)
	// translate the model to this machine's variables
	md := make([]uint64, len(m.tb.all))
	for i, n := range it.names {
		if v, ok := m.tb.vars[n]; ok {
			md[v.val] = it.model[i]
		} else {
			k := strings.LastIndexByte(n, '#')
			w := 0
			fmt.Sscanf(n[k+1:], "%d", &w)
			v := m.tb.Var(n[:k], uint8(w))
			for len(md) <= int(v.val) {
				md = append(md, 0)
			}
			md[v.val] = it.model[i]
		}
	}
	m.setModel(md)
	defer func() {
		r := recover()
		m.killGors()
		m.mstats.steps += m.steps
		m.mstats.decisions += int64(len(m.trace))
		switch r := r.(type) {
		case nil:
		case *pathAbort:
			switch r.kind {
			case "infeasible":
				m.mstats.infeasible++
			case "violation":
			case "unsupported", "budget":
				if m.side["terminates"] != nil && r.kind == "budget" {
					m.violate("nontermination", r.msg, m.model)
				} else {
					if os.Getenv("GOSX_DEBUG") != "" {
						fmt.Println("gosx:", r.kind, r.msg)
					}
					m.incomplete(r.kind + ": " + firstLine(r.msg, 3))
				}
			case "done":
			}
		case *targetPanic:
			m.violate("panic", m.panicText(r)+r.stack, m.model)
		default:
			if os.Getenv("GOSX_DEBUG") != "" {
				debug.PrintStack()
			}
			m.incomplete(fmt.Sprintf("internal: %v%s", r, firstLine(m.where(), 4)))
			fmt.Fprintf(os.Stderr, "gosx internal error: %v%s\n", r, m.where())
			if os.Getenv("GOSX_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
		}
		for k := range m.reached {
			m.eng.cur.mu.Lock()
			m.eng.cur.res.Reached[k]++
			m.eng.cur.mu.Unlock()
		}
		if os.Getenv("GOSX_NOTES") != "" {
			for _, n := range m.notes {
				fmt.Println("note:", n)
			}
		}
	}()
	m.call(m.h.fn, nil, nil)
	m.confirmFacts()
	m.samplePath()
}

// confirmFacts has the solver confirm what the range and byte-domain procedures
// decided in this path (on a part of the paths): no assignment within the path
// condition contradicts any of it.
func (m *Machine) confirmFacts() {
	x := m.eng.cur
	if len(m.tb.facts)+len(m.tb.ranges) == 0 {
		return
	}
	x.mu.Lock()
	x.res.Ranges += m.tb.nfact
	x.confirm++
	n := x.confirm
	x.mu.Unlock()
	if n > 60 && n%100 != 0 {
		return
	}
	ok := 0
	no := "a decision of the range or byte-domain procedure is not confirmed by the solver"
	if len(m.tb.facts) > 0 {
		all := m.tb.tTrue
		for _, f := range m.tb.facts {
			all = m.tb.And(all, f)
		}
		switch r, _ := m.solver.Check(m.pc, m.tb.Not(all)); r {
		case resUnsat:
			ok += len(m.tb.facts)
		case resSat:
			panic(no)
		}
	}
	if len(m.tb.ranges) > 0 {
		var sb strings.Builder
		rangeText(&sb, m.tb.ranges, fmt.Sprintf("z%d", m.solver.Queries))
		switch m.solver.CheckRaw(sb.String()) {
		case resUnsat:
			ok += len(m.tb.ranges)
		case resSat:
			panic(no)
		}
	}
	x.mu.Lock()
	x.res.Confirmed += ok
	x.mu.Unlock()
}

func (m *Machine) samplePath() {
	x := m.eng.cur
	x.mu.Lock()
	x.okPaths++
	n := x.okPaths
	x.mu.Unlock()
	// keep the first paths and then a logarithmically thinning sample
	keep := n <= 12 || (n < 400 && n%20 == 0) || n%500 == 0
	if !keep {
		return
	}
	var t traceRec
	for _, nd := range m.nondet {
		if !nd.conc && nd.term != nil && nd.term.op == oVar {
			if int(nd.term.val) < len(m.model) {
				nd.Val = m.model[nd.term.val]
			} else {
				nd.Val = 0
			}
		}
		t.vals = append(t.vals, nd)
	}
	for _, o := range m.obs {
		t.obs = append(t.obs, jsonRound(o.k+"="+m.obsText(o)))
	}
	d := m.describe(m.model)
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.res.Traces) < 60 {
		x.res.Traces = append(x.res.Traces, t)
	}
	if len(x.res.Samples) < 4 {
		x.res.Samples = append(x.res.Samples, d)
	}
}

func (m *Machine) describe(md []uint64) string {
	var sb strings.Builder
	for _, nd := range m.nondet {
		v := nd.Val
		if !nd.conc && nd.term != nil && nd.term.op == oVar && int(nd.term.val) < len(md) {
			v = md[nd.term.val]
		}
		fmt.Fprintf(&sb, "%s=%d ", nd.Key, v)
		if sb.Len() > 600 {
			sb.WriteString("...")
			break
		}
	}
	fmt.Fprintf(&sb, "| %d path-condition conjuncts, %d steps", len(m.pc), m.steps)
	return sb.String()
}

func firstLine(s string, n int) string {
	p := strings.SplitN(s, "\n", n+1)
	if len(p) > n {
		p = p[:n]
	}
	return strings.Join(p, " ")
}

func (m *Machine) panicText(tp *targetPanic) string {
	return "panic: " + m.ifaceText(tp.v)
}

func (m *Machine) ifaceText(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "<value>"
		}
	}()
	if v.p == nil {
		return "nil"
	}
	ifc := v.p.(*Iface)
	if ifc.ti.kind == kString {
		if s, ok := strConc(ifc.v); ok {
			return s
		}
		return "<symbolic string>"
	}
	if f := m.eng.lookupMethod(ifc.ti.t, nil, "Error"); f != nil {
		m.depth = 0
		r := m.call(m.fnOf(f), []Value{ifc.v}, nil)
		if s, ok := strConc(r); ok {
			return s
		}
	}
	return "(" + ifc.ti.String() + ")"
}

func (e *Engine) explore(h *Harness, budget time.Duration, tier int) *harnessResult {
	x := &explorer{eng: e, h: h, inc: map[string]int{}, tier: tier, maxViol: 6}
	if n, err := strconv.Atoi(os.Getenv("GOSX_MAXVIOL")); err == nil {
		x.maxViol = n
	}
	x.cond = sync.NewCond(&x.mu)
	x.res = &harnessResult{Name: h.Name, Reached: map[string]int{}, Funcs: map[string]int{}}
	if budget > 0 {
		x.dl = time.Now().Add(budget)
	}
	e.cur = x
	x.queue = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	type base struct {
		q, s, u, k int
		t          time.Duration
	}
	// wake sleepers at the deadline
	tick := time.AfterFunc(budget+50*time.Millisecond, func() { x.cond.Broadcast() })
	defer tick.Stop()
	for _, m := range e.machines {
		m.mstats = machStats{}
		m.merges = 0
		for _, fn := range m.fns {
			fn.hits = 0
		}
		m.h = &Harness{Name: h.Name}
		*m.h = *h
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			first := true
			m.solver.dl = x.dl
			b := base{m.solver.Queries, m.solver.Sat, m.solver.Unsat, m.solver.Unknown, m.solver.Time}
			for {
				it, ok := x.pop()
				if !ok {
					break
				}
				if first {
					m.ensureInit()
					m.h.fn = m.eng.fnByName(m, h.pkgPath, h.funcStr)
					first = false
				}
				m.runPath(it)
				x.doneItem()
			}
			x.mu.Lock()
			x.res.Queries += m.solver.Queries - b.q
			x.res.Sat += m.solver.Sat - b.s
			x.res.Unsat += m.solver.Unsat - b.u
			x.res.Unknown += m.solver.Unknown - b.k
			x.res.SolverSec += (m.solver.Time - b.t).Seconds()
			x.res.Steps += m.mstats.steps
			x.res.Domain += m.mstats.domain
			x.res.Decisions += m.mstats.decisions
			x.res.Merges += m.merges
			x.res.Infeasible += m.mstats.infeasible
			x.res.Asserts += m.mstats.asserts
			x.res.AssertSym += m.mstats.assertSym
			for _, fn := range m.fns {
				if fn.hits > 0 && fn.inRepo {
					x.res.Funcs[fn.name] += fn.hits
				}
			}
			x.mu.Unlock()
		}(m)
	}
	wg.Wait()
	x.res.WallSec = time.Since(t0).Seconds()
	if n := len(x.queue); n > 0 {
		x.res.Pending = n
		if len(x.res.Violations) < x.maxViol {
			x.inc[fmt.Sprintf("time/path budget reached with %d branches unexplored", n)] = 1
		}
	}
	x.res.Pending = len(x.queue)
	for k, n := range x.inc {
		x.res.Incomplete = append(x.res.Incomplete, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(x.res.Incomplete)
	sort.Strings(x.res.Samples)
	if profOn {
		profDump()
	}
	x.res.Complete = len(x.res.Incomplete) == 0 && len(x.res.Violations) == 0
	return x.res
}

// jsonRound gives the text as it comes back from the native replay.
func jsonRound(s string) string {
	b, _ := json.Marshal(s)
	var r string
	json.Unmarshal(b, &r)
	return r
}
