package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var allFnCache map[*ssa.Function]bool

func allFunctions(ld *Loaded) map[*ssa.Function]bool {
	if allFnCache == nil {
		allFnCache = ssautil.AllFunctions(ld.Prog)
	}
	return allFnCache
}

// ---------- query text

type query struct {
	x     *Exec
	hyps  []*Term
	names []int // candidate index for hyp i or -1
}

type emitter struct {
	x     *Exec
	seen  map[*Term]bool
	refs  map[*Term]int
	syms  map[*Term]bool
	apps  map[string]*ufDecl
	order []*Term
	boxes map[string]bool
	clos  map[string]bool
	logic []*Term
	queue []*Term
	unbox []*Term
	fuel  map[*Term]int
	curF  int
	sorts map[Sort]bool
}

var builtinApps = map[string]bool{"mk": true, "aid": true, "apath": true, "root": true, "fld": true, "elm": true,
	"str.++": true, "str.len": true, "str.substr": true, "str.at": true, "str.to_code": true, "str.from_code": true, "str.<": true, "str.<=": true,
	"str.prefixof": true, "str.suffixof": true, "str.contains": true, "str.indexof": true, "str.replace": true,
	"bvand": true, "bvor": true, "bvnot": true, "bvxor": true, "bvadd": true, "bvsub": true, "bvult": true, "bvule": true, "bvshl": true, "bvlshr": true,
	"bv2int": true, "int2bv": true, "itag": true, "ftag": true}

func (e *emitter) sort(s Sort) {
	if e.sorts[s] {
		return
	}
	e.sorts[s] = true
	if k, v, ok := splitArr(s); ok {
		e.sort(k)
		e.sort(v)
		return
	}
	if so, ok := tupleSorts[string(s)]; ok {
		for _, x := range so {
			e.sort(x)
		}
	}
}

func (e *emitter) scan(t *Term) {
	e.refs[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	e.sort(t.Sort)
	switch t.Op {
	case OSym:
		e.syms[t] = true
	case OApp:
		if !builtinApps[t.Name] && !strings.HasPrefix(t.Name, "mkTup_") && !(strings.HasPrefix(t.Name, "sel") && strings.Contains(t.Name, "Tup_")) {
			if e.apps[t.Name] == nil {
				d := &ufDecl{name: t.Name, ret: t.Sort}
				for _, a := range t.Args {
					d.args = append(d.args, a.Sort)
				}
				e.apps[t.Name] = d
			}
			if strings.HasPrefix(t.Name, "box!") {
				e.boxes[t.Name] = true
			}
			if strings.HasPrefix(t.Name, "unbox!") {
				e.boxes["box!"+t.Name[6:strings.LastIndexByte(t.Name, '!')]] = true
				if !t.bound {
					e.unbox = append(e.unbox, t)
				}
			}
			if strings.HasPrefix(t.Name, "clo!") {
				e.clos[t.Name] = true
			}
			if strings.HasPrefix(t.Name, "cloarg!") {
				e.clos["clo!"+t.Name[7:strings.LastIndexByte(t.Name, '!')]] = true
			}
			if strings.HasPrefix(t.Name, "logic!") && !t.bound {
				if _, ok := e.fuel[t]; !ok {
					e.fuel[t] = e.curF
					e.logic = append(e.logic, t)
				}
			}
		}
	}
	for _, v := range t.Vars {
		e.sort(v.Sort)
	}
	for _, a := range t.Args {
		e.scan(a)
	}
	for _, p := range t.Pats {
		for _, q := range p {
			e.scan(q)
		}
	}
	e.order = append(e.order, t)
}

const logicFuel = 3

// emit renders the assertions as an SMT-LIB script; names[i]>=0 gives hyps[i] a name.
func (x *Exec) emit(hyps []*Term, names []int, cores bool) string {
	e := &emitter{x: x, seen: map[*Term]bool{}, refs: map[*Term]int{}, syms: map[*Term]bool{}, apps: map[string]*ufDecl{}, boxes: map[string]bool{}, clos: map[string]bool{}, fuel: map[*Term]int{}, sorts: map[Sort]bool{}}
	var extra []*Term
	hyps = append([]*Term(nil), hyps...)
	for i, h := range hyps {
		hyps[i] = trigger(h, true)
		e.scan(hyps[i])
	}
	// logic function unfolding
	for i := 0; i < len(e.logic) && i < 400; i++ {
		t := e.logic[i]
		f := e.fuel[t]
		if f >= logicFuel {
			continue
		}
		d := x.unfoldMemo(t)
		if d == nil {
			continue
		}
		e.curF = f + 1
		q := trigger(Eq(t, d), true)
		extra = append(extra, q)
		e.scan(q)
	}
	// heap axioms and allocation chain (closing over symbols they mention)
	done := map[*Term]bool{}
	for {
		var todo []*Term
		for s := range e.syms {
			if !done[s] {
				todo = append(todo, s)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
		for _, s := range todo {
			done[s] = true
			var ax []*Term
			if h := symHeap[s]; h != nil {
				ax = x.heapAxioms(s, h)
			}
			if allocSyms[s] {
				if p := allocPrev[s]; p != nil {
					ax = append(ax, Le(p, s))
				} else {
					ax = append(ax, Lt(IntC(0), s))
				}
			}
			for _, a := range ax {
				if a != True {
					a = trigger(a, true)
					extra = append(extra, a)
					e.scan(a)
				}
			}
		}
	}
	for _, u := range e.unbox {
		if u.Sort == SAddr {
			if up := ifaceUpper(u.Args[0]); up != nil {
				a := mk(Term{Op: OLt, Sort: SBool, Args: []*Term{AddrID(u), up}})
				extra = append(extra, a)
				e.scan(a)
			}
		}
	}
	for {
		n := len(done)
		for s := range e.syms {
			if !done[s] {
				done[s] = true
				if allocSyms[s] {
					if p := allocPrev[s]; p != nil {
						a := Le(p, s)
						if a != True {
							extra = append(extra, a)
							e.scan(a)
						}
					} else {
						extra = append(extra, Lt(IntC(0), s))
						e.scan(extra[len(extra)-1])
					}
				}
			}
		}
		if len(done) == n {
			break
		}
	}
	var b strings.Builder
	if cores {
		b.WriteString("(set-option :produce-unsat-cores true)\n")
	}
	b.WriteString("(set-logic ALL)\n")
	b.WriteString("(declare-sort Iface 0)\n(declare-sort Func 0)\n(declare-sort F64 0)\n")
	b.WriteString("(declare-datatypes ((Path 0)) (((root) (fld (fp Path) (fi Int)) (elm (ep Path) (ei Int)))))\n(declare-datatypes ((Addr 0)) (((mk (aid Int) (apath Path)))))\n")
	for _, n := range tupleOrder {
		if e.sorts[Sort(n)] {
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk%s", n, n)
			for i, s := range tupleSorts[n] {
				fmt.Fprintf(&b, " (sel%d%s %s)", i, n, s)
			}
			b.WriteString("))))\n")
		}
	}
	b.WriteString("(declare-fun itag (Iface) Int)\n(declare-fun ftag (Func) Int)\n")
	// box/closure constructors
	var qax []string
	for _, n := range sortedKeys(e.boxes) {
		t := x.boxT[n]
		ls := layout(t)
		var so []Sort
		for _, l := range ls {
			so = append(so, l.Sort)
		}
		qax = append(qax, ctorAxioms(&b, n, "unbox!"+n[4:], "itag", SIface, so, boxTag[n], e)...)
	}
	for _, n := range sortedKeys(e.clos) {
		fn := x.clos[n]
		var so []Sort
		for _, fv := range fn.FreeVars {
			for _, l := range layout(fv.Type()) {
				so = append(so, l.Sort)
			}
		}
		qax = append(qax, ctorAxioms(&b, n, "cloarg!"+n[4:], "ftag", SFunc, so, cloTag[n], e)...)
	}
	for _, s := range x.sortedSyms(e.syms) {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", qname(s.Name), s.Sort)
	}
	if !e.syms[NilIface] && NilIface.Op == OSym {
		fmt.Fprintf(&b, "(declare-fun %s () Iface)\n", qname(NilIface.Name))
	}
	if !e.syms[NilFunc] && NilFunc.Op == OSym {
		fmt.Fprintf(&b, "(declare-fun %s () Func)\n", qname(NilFunc.Name))
	}
	for _, n := range sortedKeys(e.apps) {
		d := e.apps[n]
		if strings.HasPrefix(n, "box!") || strings.HasPrefix(n, "unbox!") || strings.HasPrefix(n, "clo!") || strings.HasPrefix(n, "cloarg!") {
			continue
		}
		var as []string
		for _, s := range d.args {
			as = append(as, string(s))
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", qname(n), strings.Join(as, " "), d.ret)
	}
	fmt.Fprintf(&b, "(assert (= (itag %s) 0))\n(assert (= (ftag %s) 0))\n", qname(NilIface.Name), qname(NilFunc.Name))
	fmt.Fprintf(&b, "(assert (forall ((x Iface)) (! (and (>= (itag x) 0) (=> (= (itag x) 0) (= x %s))) :pattern ((itag x)))))\n", qname(NilIface.Name))
	fmt.Fprintf(&b, "(assert (forall ((x Func)) (! (and (>= (ftag x) 0) (=> (= (ftag x) 0) (= x %s))) :pattern ((ftag x)))))\n", qname(NilFunc.Name))
	for _, q := range qax {
		b.WriteString(q)
	}
	// shared definitions
	names2 := map[*Term]string{}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := names2[t]; ok {
			return n
		}
		return t.node(pr)
	}
	for _, t := range e.order {
		if t.bound || len(t.Args) == 0 || t.Op == OForall || t.Op == OExists {
			continue
		}
		if e.refs[t] > 1 {
			n := fmt.Sprintf("d!%d", t.id)
			s := t.node(pr)
			if len(s) < 12 {
				continue
			}
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, s)
			names2[t] = n
		}
	}
	for _, t := range extra {
		fmt.Fprintf(&b, "(assert %s)\n", pr(t))
	}
	for i, t := range hyps {
		if cores && names != nil && names[i] >= 0 {
			fmt.Fprintf(&b, "(assert (! %s :named c%d))\n", pr(t), names[i])
		} else {
			fmt.Fprintf(&b, "(assert %s)\n", pr(t))
		}
	}
	b.WriteString("(check-sat)\n")
	if cores {
		b.WriteString("(get-unsat-core)\n")
	}
	return constFuncs(b.String())
}

// constFuncs: cvc5 wants constant arrays over values, so where an array of nil functions occurs
// functions are integers (an uninterpreted sort has no literals) and nil is 0.
func constFuncs(s string) string {
	if !strings.Contains(s, "Func)) nil.func)") {
		return s
	}
	s = strings.Replace(s, "(declare-sort Func 0)", "(define-sort Func () Int)", 1)
	s = strings.Replace(s, "(declare-fun nil.func () Func)", "", 1)
	s = strings.ReplaceAll(s, "Func)) nil.func)", "Func)) 0)")
	return strings.Replace(s, "(declare-fun itag (Iface) Int)", "(define-fun nil.func () Int 0)\n(declare-fun itag (Iface) Int)", 1)
}

var unfoldCache = map[*Term]*Term{}

func (x *Exec) unfoldMemo(t *Term) *Term {
	if d, ok := unfoldCache[t]; ok {
		return d
	}
	d := x.unfold(t)
	unfoldCache[t] = d
	return d
}

func (x *Exec) sortedSyms(m map[*Term]bool) []*Term {
	var r []*Term
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func ctorAxioms(b *strings.Builder, n, proj, tag string, rs Sort, so []Sort, tg int64, e *emitter) []string {
	var ss, vs, as []string
	for i, s := range so {
		ss = append(ss, string(s))
		vs = append(vs, fmt.Sprintf("(a%d %s)", i, s))
		as = append(as, fmt.Sprintf("a%d", i))
	}
	fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", qname(n), strings.Join(ss, " "), rs)
	for i, s := range so {
		fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", qname(fmt.Sprintf("%s!%d", proj, i)), rs, s)
	}
	var out []string
	if len(so) == 0 {
		out = append(out, fmt.Sprintf("(assert (= (%s %s) %d))\n", tag, qname(n), tg))
		out = append(out, fmt.Sprintf("(assert (forall ((x %s)) (! (=> (= (%s x) %d) (= x %s)) :pattern ((%s x)))))\n", rs, tag, tg, qname(n), tag))
		return out
	}
	app := "(" + qname(n) + " " + strings.Join(as, " ") + ")"
	cs := fmt.Sprintf("(= (%s %s) %d)", tag, app, tg)
	var pj []string
	for i := range so {
		cs += fmt.Sprintf(" (= (%s %s) a%d)", qname(fmt.Sprintf("%s!%d", proj, i)), app, i)
		pj = append(pj, fmt.Sprintf("(%s x)", qname(fmt.Sprintf("%s!%d", proj, i))))
	}
	out = append(out, fmt.Sprintf("(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(vs, " "), cs, app))
	out = append(out, fmt.Sprintf("(assert (forall ((x %s)) (! (=> (= (%s x) %d) (= x (%s %s))) :pattern ((%s x)))))\n", rs, tag, tg, qname(n), strings.Join(pj, " "), tag))
	return out
}

func (x *Exec) heapAxioms(s *Term, h *heapInfo) []*Term {
	bound := heapBound[s]
	a := FreshBoundNamed("a", SAddr)
	sel := rawSelect(s, a)
	pat := []*Term{sel}
	var out []*Term
	q := func(t *Term) { out = append(out, Forall([]*Term{a}, t, pat)) }
	id := AddrID(a)
	q(Imp(Or(mk(Term{Op: OLe, Sort: SBool, Args: []*Term{bound, id}}), Eq(id, IntC(0))), Eq(sel, h.zero)))
	if k, _, ok := splitArr(h.valS); ok {
		// map rows
		if strings.HasPrefix(h.key, "map.val") {
			kb := FreshBoundNamed("k", k)
			s2 := rawSelect(sel, kb)
			q2 := func(t *Term) { out = append(out, Forall([]*Term{a, kb}, t, []*Term{s2})) }
			switch h.leaf.Kind {
			case "ptr", "arr":
				q2(Lt(AddrID(s2), bound))
			case "uint", "off", "len", "cap":
				q2(Le(IntC(0), s2))
			case "byte":
				q2(And(Le(IntC(0), s2), Le(s2, IntC(255))))
			}
			if h.leaf.Kind == "len" {
				c := x.base["_"]
				_ = c
			}
		}
		return out
	}
	switch h.leaf.Kind {
	case "ptr":
		q(Lt(AddrID(sel), bound))
		q(Imp(Eq(AddrID(sel), IntC(0)), Eq(AddrPath(sel), Root)))
	case "arr":
		q(Lt(AddrID(sel), bound))
	case "off", "len", "cap", "uint", "maplen":
		q(Le(IntC(0), sel))
	case "byte":
		q(And(Le(IntC(0), sel), Le(sel, IntC(255))))
	}
	return out
}

// sliceWF: len<=cap facts for slices loaded from heaps are added at load time
func FreshBoundNamed(n string, s Sort) *Term {
	return mk(Term{Op: OBound, Sort: s, Name: "hb." + n})
}

// ---------- solver processes

type result struct {
	res    string // unsat, sat, unknown
	solver string
	dur    time.Duration
	out    string
	core   []int
}

var (
	solverTime atomic.Int64
	solverRuns atomic.Int64
	sem        = make(chan struct{}, runtime.NumCPU())
	resCache   sync.Map
)

type solverCfg struct {
	name string
	args []string
}

var z3args = []string{"-in", "smt.mbqi=false", "smt.auto_config=false"}

func runSolver(ctx context.Context, cfg solverCfg, text string, to time.Duration) result {
	sem <- struct{}{}
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return result{res: "unknown", solver: cfg.name}
	}
	c2, cancel := context.WithTimeout(ctx, to+time.Second)
	defer cancel()
	args := append([]string(nil), cfg.args...)
	switch cfg.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-")
	default:
		args = append(args, fmt.Sprintf("-t:%d", to.Milliseconds()))
	}
	bin := cfg.name
	if i := strings.IndexByte(bin, '/'); i >= 0 {
		bin = bin[:i]
	}
	cmd := exec.CommandContext(c2, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t := time.Now()
	cmd.Run()
	d := time.Since(t)
	solverTime.Add(int64(d))
	solverRuns.Add(1)
	r := result{solver: cfg.name, dur: d, out: out.String(), res: "unknown"}
	line, rest, _ := strings.Cut(r.out, "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		r.res = "unsat"
		for _, f := range strings.FieldsFunc(rest, func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' }) {
			var k int
			if n, _ := fmt.Sscanf(f, "c%d", &k); n == 1 {
				r.core = append(r.core, k)
			}
		}
	case "sat":
		r.res = "sat"
	case "unknown", "timeout", "":
	default:
		if strings.Contains(r.out, "error") && !strings.Contains(r.out, "timeout") {
			r.res = "error"
			if os.Getenv("GOVER_DEBUG") != "" {
				f := fmt.Sprintf("/tmp/gover-err-%x.smt2", sha256.Sum256([]byte(text)))[:40] + ".smt2"
				os.WriteFile(f, []byte(text), 0o644)
				fmt.Fprintln(os.Stderr, "solver error:", line, f)
			}
		}
	}
	return r
}

func solve1(text string, to time.Duration) result {
	k := sha256.Sum256([]byte(text))
	if r, ok := resCache.Load(k); ok {
		return r.(result)
	}
	r := runSolver(context.Background(), solverCfg{"z3-new", z3args}, text, to)
	if r.res == "unsat" {
		resCache.Store(k, r)
	}
	return r
}

// solvePortfolio tries harder: the other solvers join after a second.
func solvePortfolio(text string, to time.Duration) result {
	k := sha256.Sum256([]byte(text))
	if r, ok := resCache.Load(k); ok {
		return r.(result)
	}
	cfgs := []solverCfg{
		{"z3-new", z3args},
		{"z3-new/mbqi", []string{"-in"}},
		{"cvc5", []string{"--lang=smt2", "--strings-exp", "--produce-models"}},
		{"z3/4.8", []string{"-in", "smt.mbqi=false", "smt.auto_config=false"}},
		{"z3-new/seed", []string{"-in", "smt.mbqi=false", "smt.auto_config=false", "smt.random_seed=7", "smt.qi.eager_threshold=50"}},
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan result, len(cfgs))
	first := make(chan bool, 1)
	go func() {
		r := runSolver(ctx, cfgs[0], text, to)
		first <- true
		ch <- r
	}()
	select {
	case <-first:
	case <-time.After(time.Second):
	}
	got := 0
	var best result
	take := func(q result) bool {
		got++
		if q.res == "unsat" || q.res == "error" {
			best = q
			return true
		}
		if got == 1 || q.res == "sat" {
			best = q
		}
		return false
	}
	select {
	case q := <-ch:
		if take(q) {
			if q.res == "unsat" {
				resCache.Store(k, q)
			}
			return q
		}
	default:
	}
	for _, c := range cfgs[1:] {
		go func() { ch <- runSolver(ctx, c, text, to) }()
	}
	for got < len(cfgs) {
		if take(<-ch) {
			if best.res == "unsat" {
				resCache.Store(k, best)
			}
			return best
		}
	}
	return best
}

// splitCond picks an if-then-else condition to case-split on: the earliest one
// the goal depends on, else the earliest one of the hypotheses' path conditions.
func splitCond(hs []*Term, tried map[*Term]bool) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OIte {
			c := t.Args[0]
			for c.Op == ONot {
				c = c.Args[0]
			}
			if !c.bound && !tried[c] && c != True && c != False && (best == nil || c.id < best.id) {
				best = c
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(hs[len(hs)-1])
	if best == nil {
		for _, h := range hs {
			if !h.bound && h.Op != OForall {
				rec(h)
			}
		}
	}
	return best
}

// splitSolve proves a query by case distinctions on if-then-else conditions.
func (x *Exec) splitSolve(hs []*Term, ns []int, to time.Duration, rounds int) result {
	type node struct {
		hs    []*Term
		tried map[*Term]bool
		r     result
		text  string
	}
	nodes := []*node{{hs: hs, tried: map[*Term]bool{}}}
	start := time.Now()
	total := time.Duration(0)
	for round := 0; round < rounds; round++ {
		var next []*node
		for _, n := range nodes {
			c := splitCond(n.hs, n.tried)
			if c == nil {
				return result{res: "unknown", solver: "split"}
			}
			for _, v := range []*Term{True, False} {
				m := &node{tried: map[*Term]bool{c: true}}
				for k := range n.tried {
					m.tried[k] = true
				}
				dead := false
				for _, h := range n.hs {
					q := Subst(h, map[*Term]*Term{c: v})
					if q == False {
						dead = true
						break
					}
					if q != True {
						m.hs = append(m.hs, conj(q)...)
					}
				}
				if dead {
					continue
				}
				lit := c
				if v == False {
					lit = Not(c)
				}
				// the goal stays last
				g := m.hs[len(m.hs)-1]
				m.hs = append(append(m.hs[:len(m.hs)-1:len(m.hs)-1], lit), g)
				nn := make([]int, len(m.hs))
				for i := range nn {
					nn[i] = -1
				}
				m.text = x.emit(m.hs, nn, false)
				next = append(next, m)
			}
		}
		done := make(chan int)
		for _, n := range next {
			go func() {
				if round >= rounds-2 {
					n.r = solvePortfolio(n.text, to)
				} else {
					n.r = solve1(n.text, 1500*time.Millisecond)
				}
				done <- 1
			}()
		}
		for range next {
			<-done
		}
		nodes = nil
		for _, n := range next {
			total += n.r.dur
			if n.r.res != "unsat" {
				nodes = append(nodes, n)
			}
		}
		if len(nodes) == 0 {
			return result{res: "unsat", solver: fmt.Sprintf("case split (%d rounds) + z3/cvc5", round+1), dur: total}
		}
		if len(nodes) > 32 || time.Since(start) > 90*time.Second {
			break
		}
	}
	return result{res: "unknown", solver: "split"}
}

// ---------- proving

func (x *Exec) hypsFor(nf int, rc, goal *Term, dead map[*Cand]bool) ([]*Term, []int) {
	type ent struct {
		t *Term
		c int
	}
	var all []ent
	for i := 0; i < nf; i++ {
		f := x.facts[i]
		if f.cand != nil && !f.cand.alive {
			continue
		}
		ci := -1
		if f.cand != nil {
			ci = f.cand.idx
		}
		all = append(all, ent{f.t, ci})
	}
	// cone of influence over non-hub symbols
	reach := map[*Term]bool{}
	add := func(t *Term) {
		for _, s := range x.symsOf(t) {
			reach[s] = true
		}
	}
	add(rc)
	add(goal)
	used := make([]bool, len(all))
	for ch := true; ch; {
		ch = false
		for i, e := range all {
			if used[i] {
				continue
			}
			ss := x.symsOf(e.t)
			hit := len(ss) == 0
			for _, s := range ss {
				if reach[s] && !x.hub(s) {
					hit = true
					break
				}
			}
			if !hit { // facts only about hubs
				only := true
				for _, s := range ss {
					if !x.hub(s) {
						only = false
						break
					}
				}
				hit = only
			}
			if hit {
				used[i] = true
				ch = true
				for _, s := range ss {
					reach[s] = true
				}
			}
		}
	}
	var hs []*Term
	var ns []int
	for i, e := range all {
		if used[i] {
			hs = append(hs, e.t)
			ns = append(ns, e.c)
		}
	}
	for _, c := range conj(rc) {
		if c != True {
			hs = append(hs, c)
			ns = append(ns, -1)
		}
	}
	hs = append(hs, Not(goal))
	ns = append(ns, -1)
	return hs, ns
}

func (x *Exec) hub(s *Term) bool { return allocSyms[s] || s == NilIface || s == NilFunc }

var symCache = map[*Term][]*Term{}
var symMu sync.Mutex

func (x *Exec) symsOf(t *Term) []*Term {
	if r, ok := symCache[t]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var r []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OSym {
			r = append(r, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	symCache[t] = r
	return r
}

// houdini drops candidate invariants until the rest is inductive.
func (x *Exec) houdini(to time.Duration, log func(string, ...any)) {
	t0 := time.Now()
	for i, c := range x.cands {
		c.idx = i
	}
	type job struct {
		c    *Cand
		o    candOb
		text string
		triv int // 1 true 2 false
		core map[int]bool
		done bool
	}
	var jobs []*job
	for _, c := range x.cands {
		for _, o := range c.obs {
			j := &job{c: c, o: o}
			if o.goal == True || o.rc == False {
				continue
			}
			if (c.desc == "unchanged" || c.desc == "unchanged cell") && o.kind == "back" {
				c.alive = false
				continue
			}
			jobs = append(jobs, j)
		}
	}
	rounds := 0
	for {
		rounds++
		var todo []*job
		for _, j := range jobs {
			if !j.c.alive || j.done {
				continue
			}
			todo = append(todo, j)
		}
		if len(todo) == 0 {
			break
		}
		// texts must be produced sequentially (shared term table)
		t1 := time.Now()
		for _, j := range todo {
			hs, ns := x.hypsFor(j.o.nf, j.o.rc, j.o.goal, nil)
			j.text = x.emit(hs, ns, true)
		}
		tEmit := time.Since(t1)
		var wg sync.WaitGroup
		res := make([]result, len(todo))
		for i, j := range todo {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i] = solve1(j.text, to)
			}()
		}
		wg.Wait()
		// user-supplied templates get a second, stronger attempt, once the
		// generated candidates have settled
		settled := true
		isT := func(j *job) bool { return strings.Contains(j.c.desc, "template") }
		for i, j := range todo {
			if res[i].res != "unsat" && !isT(j) {
				settled = false
			}
		}
		out := map[*Cand]bool{} // does not even hold on entry
		for _, kind := range []string{"entry", "back"} {
			for i, j := range todo {
				if !settled || res[i].res == "unsat" || res[i].res == "error" || !isT(j) || (j.o.kind == "entry") != (kind == "entry") || out[j.c] {
					continue
				}
				lim := 3 * time.Second
				if kind == "back" {
					lim = 12 * time.Second
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					res[i] = solvePortfolio(j.text, lim)
				}()
			}
			wg.Wait()
			for i, j := range todo {
				if isT(j) && j.o.kind == "entry" && res[i].res == "sat" {
					out[j.c] = true
				}
			}
		}
		splits := 0
		refuted := map[*Cand]bool{}
		var second []int
		for i, j := range todo {
			if j.o.kind == "entry" {
				second = append(second, i)
			}
		}
		for i, j := range todo {
			if j.o.kind != "entry" {
				second = append(second, i)
			}
		}
		for _, i := range second {
			j := todo[i]
			if !settled || res[i].res == "unsat" || res[i].res == "error" || !isT(j) || splits > 12 || refuted[j.c] || out[j.c] {
				continue
			}
			splits++
			hs, ns := x.hypsFor(j.o.nf, j.o.rc, j.o.goal, nil)
			lim, depth := 2*time.Second, 3
			if strings.HasPrefix(j.c.desc, "lemma") {
				lim, depth = 6*time.Second, 4
			}
			if r := x.splitSolve(hs, ns, lim, depth); r.res == "unsat" {
				for _, c := range x.cands {
					if c.alive {
						r.core = append(r.core, c.idx)
					}
				}
				res[i] = r
			} else {
				refuted[j.c] = true
			}
		}
		dropped := false
		slow := 0
		for i := range todo {
			if res[i].dur > time.Second {
				slow++
			}
		}
		log("  round %d: %d jobs, %d slow, emit %.1fs, total %.1fs", rounds, len(todo), slow, tEmit.Seconds(), time.Since(t0).Seconds())
		for i, j := range todo {
			if res[i].res == "unsat" {
				j.done = true
				j.core = map[int]bool{}
				for _, k := range res[i].core {
					j.core[k] = true
				}
			} else if !settled && isT(j) {
				// tried again in the next round
			} else {
				if j.c.alive {
					log("  drop [%s] %s (%s %s): %.200s", j.c.loop.pos, j.c.desc, j.o.kind, res[i].res, j.c.t)
					if isT(j) && os.Getenv("GOVER_DUMP") != "" {
						os.WriteFile(fmt.Sprintf("/tmp/dumpT%d.smt2", j.c.idx), []byte("; "+j.c.desc+" "+j.o.kind+"\n"+j.text), 0o644)
						log("    dumped as /tmp/dumpT%d.smt2", j.c.idx)
					}
				}
				j.c.alive = false
				dropped = true
			}
		}
		if !dropped {
			break
		}
		for _, j := range jobs {
			if j.done && j.c.alive {
				for k := range j.core {
					if !x.cands[k].alive {
						j.done = false
					}
				}
			}
		}
	}
	n := 0
	for _, c := range x.cands {
		if c.alive {
			n++
			log("  keep [%s] %s: %.300s", c.loop.pos, c.desc, c.t)
		}
	}
	log("  houdini: %d candidates, %d inductive, %d rounds, %.1fs", len(x.cands), n, rounds, time.Since(t0).Seconds())
}
