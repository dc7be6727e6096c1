package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---------- state

type State struct {
	rc     *Term
	heaps  map[string]*Term
	alloc  *Term
	iters  map[string]*Term
	defers []deferred
	final  map[*Term]Val // captured variables that are never assigned again, by address
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	fnv   Val
	args  []Val
	instr ssa.Instruction
	depth int
}

func (s *State) clone() *State {
	n := &State{rc: s.rc, alloc: s.alloc, heaps: make(map[string]*Term, len(s.heaps)), iters: make(map[string]*Term, len(s.iters))}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	n.final = make(map[*Term]Val, len(s.final))
	for k, v := range s.final {
		n.final[k] = v
	}
	return n
}

type Fact struct {
	t    *Term
	cand *Cand
}

type Oblig struct {
	name  string
	nf    int // number of facts visible
	rc    *Term
	goal  *Term
	pos   string
	fork  int
	cover bool // reachability: must be satisfiable
}

type Cand struct {
	t     *Term
	loop  *LoopInst
	desc  string
	alive bool
	idx   int
	// obligations
	obs []candOb
}
type candOb struct {
	nf   int
	rc   *Term
	goal *Term
	kind string
}

type LoopInst struct {
	key  string
	pos  string
	cand []*Cand
}

type panicRec struct {
	skip bool
	rc   *Term
	kind string
	pos  string
	st   *State
	nf   int
}

type heapInfo struct {
	key   string
	leaf  Leaf
	sort  Sort // full heap sort
	valS  Sort
	zero  *Term
	group string // slice group base
}

type Exec struct {
	ld                              *Loaded
	facts                           []Fact
	obs                             []*Oblig
	cands                           []*Cand
	loops                           []*LoopInst
	panics                          []panicRec
	tryLvl                          int
	hinfo                           map[string]*heapInfo
	base                            map[string]*Term // initial heap symbols
	A0                              *Term
	pure                            int // >0: inside quantifier body
	stack                           []*ssa.Function
	globals                         map[*ssa.Global]int64
	stubs                           map[string]*ssa.Function
	imodel                          map[string]*ssa.Function // interface method stubs
	recs                            map[string]*ssa.Function // recursion hooks
	dyncall                         []*ssa.Function
	logics                          map[*ssa.Function]bool
	invs                            map[string][]*ssa.Function // target fn -> invariant templates
	cAlloc                          *Term                      // allocation mark at the call a contract stands for
	invDepth                        map[*ssa.Function]int      // only for loops at this nesting depth
	invLemma                        map[*ssa.Function]bool     // kept even where the loop changes nothing in it
	contr                           map[string]*ssa.Function   // target -> contract fn (for use)
	useContr                        map[string]bool
	inUse                           map[string]bool
	verifying                       string                   // target whose contract is being verified
	clos                            map[string]*ssa.Function // clo name -> fn
	cloList                         []string
	cloIdx                          map[*ssa.Function]string
	boxIdx                          typeutil.Map
	boxT                            map[string]types.Type
	marks                           []*State
	loopHvs                         map[string]*loopHv
	disc                            int
	initMode                        bool
	baseCache                       map[*Term]bool
	appended                        map[appKey]*Term
	pureFuncs                       bool
	cmode, cdepth                   int
	ctarget, cpos                   string
	cmods                           []*Term
	sp                              *Spec
	gstubs                          map[string]*ssa.Function
	noInline, noInlinePkg, noEffect map[string]bool
	ghosts                          map[*ssa.Global]bool
	insts                           map[*ssa.Function][]*ssa.Function
	writes                          []write
	assume                          map[string]bool // assumptions used (externs etc.)
	inlined                         map[string]bool
	trusted                         map[string]bool
	usedC                           map[string]bool
	uf                              map[string]*ufDecl
	ufBound                         map[string]*Term
	forkN                           int
	callN                           int
	props                           string
	noPanic, lean                   bool
	curVis, curDom                  *Term // visited set of the map iteration a template is instantiated for
	wfSeen                          map[*Term]int
	labels                          map[string]int
	logicDefs                       map[string]*logicDef
	heapHist                        map[string][]*Term
	seedSeq                         int
	quantAx                         []*Term
	goDepth                         int
	trySt                           [][]*State
	rawPanic                        bool
	fieldHook                       map[string]bool
	curPos                          string
	depthLimit                      int
	theChan                         map[string]Val
	blur                            bool
	specFn                          map[*ssa.Function]bool
	ufAx                            map[string]bool
	factSink                        *[]*Term
}

type write struct {
	key  string
	addr *Term // nil: unknown
}

type ufDecl struct {
	name string
	args []Sort
	ret  Sort
}

func NewExec(ld *Loaded) *Exec {
	x := &Exec{ld: ld, wfSeen: map[*Term]int{}, hinfo: map[string]*heapInfo{}, base: map[string]*Term{}, globals: map[*ssa.Global]int64{},
		stubs: map[string]*ssa.Function{}, imodel: map[string]*ssa.Function{}, logics: map[*ssa.Function]bool{}, invs: map[string][]*ssa.Function{}, invDepth: map[*ssa.Function]int{}, invLemma: map[*ssa.Function]bool{},
		contr: map[string]*ssa.Function{}, useContr: map[string]bool{}, inUse: map[string]bool{}, clos: map[string]*ssa.Function{}, cloIdx: map[*ssa.Function]string{},
		boxT: map[string]types.Type{}, loopHvs: map[string]*loopHv{}, appended: map[appKey]*Term{}, gstubs: map[string]*ssa.Function{}, noInline: map[string]bool{}, noInlinePkg: map[string]bool{}, noEffect: map[string]bool{}, ghosts: map[*ssa.Global]bool{}, insts: map[*ssa.Function][]*ssa.Function{}, recs: map[string]*ssa.Function{}, assume: map[string]bool{}, inlined: map[string]bool{},
		trusted: map[string]bool{}, usedC: map[string]bool{}, uf: map[string]*ufDecl{}, labels: map[string]int{}, specFn: map[*ssa.Function]bool{}, ufAx: map[string]bool{}, theChan: map[string]Val{}, logicDefs: map[string]*logicDef{}, heapHist: map[string][]*Term{}, depthLimit: 60}
	x.A0 = NewAllocSym("A0", nil)
	extBound = x.A0
	x.fact(Lt(IntC(0), x.A0))
	return x
}

func (x *Exec) fact(t *Term) {
	if t == True {
		return
	}
	if x.factSink != nil {
		*x.factSink = append(*x.factSink, t)
		return
	}
	if t.bound {
		return // facts about bound variables are dropped (weaker)
	}
	x.facts = append(x.facts, Fact{t: t})
}
func (x *Exec) factG(st *State, t *Term) { x.fact(Imp(st.rc, t)) }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return x.curPos
	}
	q := x.ld.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- heaps

func (x *Exec) info(key string, l Leaf, mapSort Sort) *heapInfo {
	if h, ok := x.hinfo[key]; ok {
		return h
	}
	vs := l.Sort
	if mapSort != "" {
		vs = mapSort
	}
	h := &heapInfo{key: key, leaf: l, sort: SArr(SAddr, vs), valS: vs, zero: zeroOf(vs)}
	if l.Kind == "arr" || l.Kind == "off" || l.Kind == "len" || l.Kind == "cap" {
		h.group = key[:strings.LastIndexByte(key, '.')]
	}
	x.hinfo[key] = h
	return h
}

func (x *Exec) newHeapSym(h *heapInfo, tag string, bound *Term) *Term {
	s := Fresh("H."+tag+"."+h.key, h.sort)
	heapBound[s] = bound
	heapZero[s] = h.zero
	symHeap[s] = h
	return s
}

// symHeap: base heap symbols to info, for axioms at print time
var symHeap = map[*Term]*heapInfo{}

func (x *Exec) heap(st *State, h *heapInfo) *Term {
	if t, ok := st.heaps[h.key]; ok {
		return t
	}
	if t, ok := x.base[h.key]; ok {
		return t
	}
	t := x.newHeapSym(h, "0", x.A0)
	x.base[h.key] = t
	return t
}

func (x *Exec) loadLeaf(st *State, l Leaf, addr *Term) *Term {
	h := x.info(l.Key, l, "")
	return Select(x.heap(st, h), addr)
}
func (x *Exec) Load(st *State, t types.Type, addr *Term) Val {
	var v Val
	for _, l := range layout(t) {
		v = append(v, x.loadLeaf(st, l, addPath(addr, l.Path)))
	}
	x.wfLoaded(t, v)
	return v
}

// wfLoaded: every slice value in memory is well formed (a property of the type system).
func (x *Exec) wfLoaded(t types.Type, v Val) {
	for i, l := range layout(t) {
		if l.Kind != "arr" || v[i].bound || v[i+2].bound || v[i].Op != OSelect {
			continue
		}
		arr, off, ln, cp := v[i], v[i+1], v[i+2], v[i+3]
		wf := And(Le(IntC(0), off), Le(IntC(0), ln), Le(ln, cp))
		if k, ok := x.wfSeen[v[i]]; ok && k < len(x.facts) && x.facts[k].t == wf {
			continue
		}
		x.wfSeen[v[i]] = len(x.facts)
		x.fact(wf)
		x.fact(Imp(Eq(AddrID(arr), IntC(0)), And(Eq(cp, IntC(0)), Eq(off, IntC(0)))))
	}
}
func (x *Exec) setHeap(st *State, h *heapInfo, t *Term) { st.heaps[h.key] = t }
func (x *Exec) logWrite(key string, a *Term)            { x.writes = append(x.writes, write{key, a}) }
func (x *Exec) storeLeaf(st *State, l Leaf, addr, v *Term) {
	h := x.info(l.Key, l, "")
	x.logWrite(h.key, addr)
	x.setHeap(st, h, Store(x.heap(st, h), addr, v))
}
func (x *Exec) StoreVal(st *State, t types.Type, addr *Term, v Val) {
	ls := layout(t)
	if len(ls) != len(v) {
		fail("store layout mismatch for %s: %d vs %d", t, len(ls), len(v))
	}
	if _, ok := st.final[addr]; ok {
		fail("write to a variable declared constant")
	}
	for i, l := range ls {
		x.storeLeaf(st, l, addPath(addr, l.Path), v[i])
	}
}
func (x *Exec) newObj(st *State) *Term {
	id := st.alloc
	st.alloc = Add(st.alloc, IntC(1))
	return Addr(id, Root)
}

// map heaps
func (x *Exec) mapInfos(mt *types.Map) (dom, ln *heapInfo, vals []*heapInfo) {
	k := typeKey(mt)
	ks := keySort(mt.Key())
	dom = x.info("map.dom:"+k, Leaf{}, SArr(ks, SBool))
	ln = x.info("map.len:"+k, Leaf{Sort: SInt, Kind: "maplen"}, SInt)
	for i, l := range layout(mt.Elem()) {
		h := x.info(fmt.Sprintf("map.val%d:%s", i, k), l, SArr(ks, l.Sort))
		if h.group == "" || !strings.HasPrefix(h.group, "map") {
			if h.group != "" {
				h.group = "map:" + k + ":" + h.group
			}
		}
		vals = append(vals, h)
	}
	return
}

// ---------- fresh wf values

func (x *Exec) wf(st *State, t types.Type, v Val, bound *Term) {
	for i, l := range layout(t) {
		s := v[i]
		if s.Op == OSym && l.Sort == SAddr {
			symUpper[s] = bound
		}
		if s.Op == OSym && l.Sort == SIface {
			ifaceUpperSym[s] = bound
		}
		switch l.Kind {
		case "ptr":
			x.fact(Lt(AddrID(s), bound))
			x.fact(Imp(Eq(AddrID(s), IntC(0)), Eq(AddrPath(s), Root)))
		case "arr":
			arr, off, ln, cp := v[i], v[i+1], v[i+2], v[i+3]
			x.fact(Lt(AddrID(arr), bound))
			x.fact(Le(IntC(0), off))
			x.fact(Le(IntC(0), ln))
			x.fact(Le(ln, cp))
			x.fact(Imp(Eq(AddrID(arr), IntC(0)), And(Eq(cp, IntC(0)), Eq(off, IntC(0)), Eq(AddrPath(arr), Root))))
		case "uint":
			x.fact(Le(IntC(0), s))
		case "byte":
			x.fact(Le(IntC(0), s))
			x.fact(Le(s, IntC(255)))
		}
	}
}

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	var v Val
	for i, l := range layout(t) {
		n := name
		if len(layout(t)) > 1 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		v = append(v, Fresh(n, l.Sort))
	}
	x.wf(st, t, v, st.alloc)
	return v
}

// ---------- functions & closures

func (x *Exec) cloName(fn *ssa.Function) string {
	if n, ok := x.cloIdx[fn]; ok {
		return n
	}
	n := fmt.Sprintf("clo!%d.%s", len(x.cloIdx)+1, sanitize(fn.Name()))
	x.cloIdx[fn] = n
	x.clos[n] = fn
	x.cloList = append(x.cloList, n)
	cloTag[n] = int64(len(x.cloIdx))
	return n
}
func (x *Exec) mkClo(fn *ssa.Function, bind []Val) *Term {
	var as []*Term
	for _, b := range bind {
		as = append(as, b...)
	}
	return App(x.cloName(fn), SFunc, as...)
}
func (x *Exec) boxName(t types.Type) string {
	if n := x.boxIdx.At(t); n != nil {
		return n.(string)
	}
	n := fmt.Sprintf("box!%d.%s", x.boxIdx.Len()+1, sanitize(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	x.boxIdx.Set(t, n)
	x.boxT[n] = t
	boxTag[n] = int64(x.boxIdx.Len())
	return n
}
func (x *Exec) box(t types.Type, v Val) *Term { return App(x.boxName(t), SIface, v...) }
func (x *Exec) unbox(t types.Type, i *Term) Val {
	n := x.boxName(t)
	var v Val
	for k, l := range layout(t) {
		v = append(v, App(fmt.Sprintf("unbox!%s!%d", n[4:], k), l.Sort, i))
	}
	return v
}
func itag(i *Term) *Term { return App("itag", SInt, i) }
func ftag(i *Term) *Term { return App("ftag", SInt, i) }

// ---------- merging

func stripCommon(rcs []*Term) []*Term {
	if len(rcs) < 2 {
		return rcs
	}
	cnt := map[*Term]int{}
	for _, r := range rcs {
		for _, c := range conj(r) {
			cnt[c]++
		}
	}
	var out []*Term
	for _, r := range rcs {
		var cs []*Term
		for _, c := range conj(r) {
			if cnt[c] < len(rcs) {
				cs = append(cs, c)
			}
		}
		out = append(out, And(cs...))
	}
	return out
}

func mergeTerms(conds, ts []*Term) *Term {
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = Ite(conds[i], ts[i], r)
	}
	return r
}
func mergeVals(conds []*Term, vs []Val) Val {
	if len(vs) == 0 {
		return nil
	}
	r := make(Val, len(vs[0]))
	for i := range r {
		ts := make([]*Term, len(vs))
		for j := range vs {
			ts[j] = vs[j][i]
		}
		r[i] = mergeTerms(conds, ts)
	}
	return r
}

func live(sts []*State) []*State {
	var o []*State
	for _, s := range sts {
		if s != nil && s.rc != False {
			o = append(o, s)
		}
	}
	return o
}

func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	rcs := make([]*Term, len(sts))
	for i, s := range sts {
		rcs[i] = s.rc
	}
	conds := stripCommon(rcs)
	n := &State{heaps: map[string]*Term{}, iters: map[string]*Term{}}
	// rc: common & or(conds)
	n.rc = orAll(rcs, conds)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	for k := range keys {
		ts := make([]*Term, len(sts))
		for i, s := range sts {
			ts[i] = x.heap(s, x.hinfo[k])
		}
		n.heaps[k] = mergeTerms(conds, ts)
	}
	ik := map[string]bool{}
	for _, s := range sts {
		for k := range s.iters {
			ik[k] = true
		}
	}
	for k := range ik {
		var ts, cs []*Term
		for i, s := range sts {
			if t, ok := s.iters[k]; ok {
				ts = append(ts, t)
				cs = append(cs, conds[i])
			}
		}
		n.iters[k] = mergeTerms(cs, ts)
	}
	n.final = map[*Term]Val{}
	for k, v := range sts[0].final {
		all := true
		for _, s := range sts[1:] {
			w, ok := s.final[k]
			if !ok || len(w) != len(v) {
				all = false
				break
			}
			for i := range v {
				if v[i] != w[i] {
					all = false
				}
			}
		}
		if all {
			n.final[k] = v
		}
	}
	as := make([]*Term, len(sts))
	same := true
	for i, s := range sts {
		as[i] = s.alloc
		if s.alloc != as[0] {
			same = false
		}
	}
	if same {
		n.alloc = as[0]
	} else {
		// new allocation level above all of them; ids between are simply unused
		var lo *Term
		for _, a := range as {
			if lo == nil || allocGE(lo, a) {
				lo = a
			}
		}
		mx := as[0]
		ok := true
		for _, a := range as[1:] {
			if allocGE(a, mx) {
				mx = a
			} else if !allocGE(mx, a) {
				ok = false
			}
		}
		if ok {
			n.alloc = mx
		} else {
			prev := as[0]
			for _, a := range as {
				if s, _, k := asAlloc(a); k && s == x.A0 {
					prev = a
				}
			}
			s := NewAllocSym("A.m", prev)
			for _, a := range as {
				x.fact(Le(a, s))
			}
			n.alloc = s
		}
	}
	// defers: must agree as prefix; otherwise guard
	md := 0
	for _, s := range sts {
		if len(s.defers) > md {
			md = len(s.defers)
		}
	}
	for i := 0; i < md; i++ {
		var d *deferred
		var g []*Term
		for j, s := range sts {
			if i < len(s.defers) {
				if d == nil {
					c := s.defers[i]
					d = &c
				} else if d.instr != s.defers[i].instr {
					fail("incompatible defer stacks")
				} else {
					for k := range d.args {
						d.args[k] = mergeVals([]*Term{Not(conds[j])}, []Val{d.args[k], s.defers[i].args[k]})
					}
				}
				if s.defers[i].guard == True {
					g = append(g, conds[j])
				} else {
					g = append(g, And(conds[j], s.defers[i].guard))
				}
			}
		}
		if len(g) == len(sts) && allTrue(sts, i) {
			d.guard = True
		} else {
			d.guard = Or(g...)
		}
		n.defers = append(n.defers, *d)
	}
	return n, conds
}
func allTrue(sts []*State, i int) bool {
	for _, s := range sts {
		if s.defers[i].guard != True {
			return false
		}
	}
	return true
}
func orAll(rcs, conds []*Term) *Term {
	o := Or(conds...)
	if o == True {
		// common part only
		cnt := map[*Term]int{}
		for _, r := range rcs {
			for _, c := range conj(r) {
				cnt[c]++
			}
		}
		var cs []*Term
		for _, c := range conj(rcs[0]) {
			if cnt[c] == len(rcs) {
				cs = append(cs, c)
			}
		}
		return And(cs...)
	}
	cnt := map[*Term]int{}
	for _, r := range rcs {
		for _, c := range conj(r) {
			cnt[c]++
		}
	}
	cs := []*Term{}
	for _, c := range conj(rcs[0]) {
		if cnt[c] == len(rcs) {
			cs = append(cs, c)
		}
	}
	return And(append(cs, o)...)
}

// ---------- panics

// inSpec: is the code being executed contract code rather than /repo's?
func (x *Exec) inSpec() bool {
	f := x.stackTop()
	if f == nil {
		return false
	}
	if r, ok := x.specFn[f]; ok {
		return r
	}
	g := f
	if o := g.Origin(); o != nil {
		g = o
	}
	for g.Parent() != nil {
		g = g.Parent()
	}
	r := g.Pos().IsValid() && strings.HasPrefix(filepath.Base(x.ld.Fset.Position(g.Pos()).Filename), "zz_verif")
	x.specFn[f] = r
	return r
}

func (x *Exec) mayPanic(st *State, cond *Term, kind string, pos string) {
	c := And(st.rc, cond)
	if c == False {
		return
	}
	if x.pure > 0 || x.inSpec() {
		// inside a specification: an undefined term stands for an arbitrary value
		return
	}
	x.panics = append(x.panics, panicRec{rc: c, kind: kind, pos: pos, st: st.clone(), nf: len(x.facts), skip: x.blur})
	if x.tryLvl > 0 {
		st.rc = And(st.rc, Not(cond))
		return
	}
	if c == st.rc {
		st.rc = False
		return
	}
	// executions that panic here end here: the rest of the analysis is about the others
	x.factG(st, Not(cond))
}

// ---------- frames

type Frame struct {
	fn    *ssa.Function
	vals  map[ssa.Value]Val
	bind  []Val
	path  string
	iter  map[ssa.Value]*iterInfo
	rets  []*State
	retV  []Val
	dbase int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo   []*ssa.BasicBlock
	depth int
	entry *State
}

type iterInfo struct {
	key   string
	isStr bool
	str   *Term
	mt    *types.Map
	m     *Term
	dom0  *Term
}

type edge struct {
	pred int // index in Preds
	st   *State
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				if r[h] == nil {
					r[h] = map[*ssa.BasicBlock]bool{h: true}
				}
				var st []*ssa.BasicBlock
				if !r[h][b] {
					r[h][b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !r[h][p] {
							r[h][p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return r
}

// ---------- running a function body

func (x *Exec) runFunc(fn *ssa.Function, args []Val, bind []Val, st *State, path string) (Val, *State) {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	if len(x.stack) > x.depthLimit {
		fail("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, bind: bind, path: path, iter: map[ssa.Value]*iterInfo{}, dbase: len(st.defers), entry: st.clone()}
	for i, p := range fn.Params {
		if len(args[i]) != size(p.Type()) {
			fail("param layout mismatch %s of %s: %d vs %d", p, fn, len(args[i]), size(p.Type()))
		}
		fr.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.vals[p] = bind[i]
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if fn.Recover != nil {
		// functions with recover(): executed, the recover path itself is not modelled
		x.assume["recover in "+fn.String()+" is not modelled (panicking paths end)"] = true
	}
	fr.rpo = rpo(fn)
	fr.loops = findLoops(fn)
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{-1, st}}
	x.runBlocks(fr, fr.rpo, in, nil, nil)
	var ss []*State
	var vs []Val
	for i, s := range fr.rets {
		if s.rc != False {
			ss = append(ss, s)
			vs = append(vs, fr.retV[i])
		}
	}
	res := fn.Signature.Results()
	if len(ss) == 0 {
		d := st.clone()
		d.rc = False
		return zeroVal(res), d
	}
	ms, conds := x.mergeStates(ss)
	v := mergeVals(conds, vs)
	return v, ms
}

// runBlocks processes blocks (in RPO) that are in region (nil = all), edges in `in`.
// Edges leaving the region are put in out; back edges to `header` are put in back.
func (x *Exec) runBlocks(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, region map[*ssa.BasicBlock]bool, sink func(from, to *ssa.BasicBlock, e edge) bool) {
	done := map[*ssa.BasicBlock]bool{}
	emit := func(from, to *ssa.BasicBlock, succIdx int, st *State) {
		if st.rc == False {
			return
		}
		// pred index: nth occurrence
		n := 0
		for i := 0; i < succIdx; i++ {
			if from.Succs[i] == to {
				n++
			}
		}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				if n == 0 {
					pi = i
					break
				}
				n--
			}
		}
		e := edge{pi, st}
		if sink != nil && sink(from, to, e) {
			return
		}
		in[to] = append(in[to], e)
	}
	for _, b := range order {
		if done[b] || region != nil && !region[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if body := fr.loops[b]; body != nil && !(region != nil && regionHeader(region) == b) {
			x.runLoop(fr, b, body, es, order, emit)
			for q := range body {
				done[q] = true
			}
			continue
		}
		var sts []*State
		for _, e := range es {
			sts = append(sts, e.st)
		}
		st, conds := x.mergeStates(sts)
		x.doPhis(fr, b, es, conds)
		x.runBlock(fr, b, st, emit)
	}
}

func regionHeader(r map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	// the header is the unique block dominating all others
	for h := range r {
		ok := true
		for b := range r {
			if !h.Dominates(b) {
				ok = false
				break
			}
		}
		if ok {
			return h
		}
	}
	return nil
}

func (x *Exec) doPhis(fr *Frame, b *ssa.BasicBlock, es []edge, conds []*Term) {
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var out []pv
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, x.val(fr, p.Edges[e.pred], e.st))
		}
		out = append(out, pv{p, mergeVals(conds, vs)})
	}
	for _, o := range out {
		fr.vals[o.p] = o.v
	}
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, emit func(from, to *ssa.BasicBlock, i int, st *State)) {
	for _, ins := range b.Instrs {
		if st.rc == False {
			return
		}
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(fr, i.Cond, st)[0]
			t, f := st.clone(), st.clone()
			t.rc = And(st.rc, c)
			f.rc = And(st.rc, Not(c))
			if x.pure == 0 && !isConst(c) && t.rc != False && f.rc != False {
				// prune syntactically contradictory branches only; the solver sees the rest
			}
			emit(b, b.Succs[0], 0, t)
			emit(b, b.Succs[1], 1, f)
			return
		case *ssa.Jump:
			emit(b, b.Succs[0], 0, st)
			return
		case *ssa.Return:
			var v Val
			for _, r := range i.Results {
				v = append(v, x.val(fr, r, st)...)
			}
			fr.rets = append(fr.rets, st)
			fr.retV = append(fr.retV, v)
			return
		case *ssa.Panic:
			x.panics = append(x.panics, panicRec{rc: st.rc, kind: "explicit panic", pos: x.pos(i.Pos()), st: st.clone(), nf: len(x.facts), skip: x.blur})
			st.rc = False
			return
		default:
			if p := ins.Pos(); p.IsValid() {
				x.curPos = x.pos(p)
			}
			x.instr(fr, ins, st)
		}
	}
}

func (x *Exec) val(fr *Frame, v ssa.Value, st *State) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return Val{x.mkClo(c, nil)}
	case *ssa.Global:
		return Val{x.globalAddr(c)}
	case *ssa.Builtin:
		fail("builtin as value")
	}
	r, ok := fr.vals[v]
	if !ok {
		fail("no value for %s = %s in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) *Term {
	id, ok := x.globals[g]
	if !ok {
		id = -int64(len(x.globals) + 1)
		x.globals[g] = id
	}
	return Addr(IntC(id), Root)
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	l := layout(t)
	switch l[0].Sort {
	case SBool:
		return Val{BoolC(constant.BoolVal(c.Value))}
	case SStr:
		return Val{StrC(constant.StringVal(c.Value))}
	case SInt:
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			fail("const %s", c)
		}
		return Val{BigC(b)}
	case SBV32:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Val{BVC(u)}
		}
		i, _ := constant.Int64Val(v)
		return Val{BVC(uint64(i))}
	case SF64:
		f, _ := constant.Float64Val(c.Value)
		if f == 0 {
			return Val{zeroOf(SF64)}
		}
		return Val{Sym(fmt.Sprintf("f64.%v", f), SF64)}
	}
	fail("const %s of type %s", c, t)
	return nil
}

// eqVals compares two values of type t.
func eqVals(t types.Type, a, b Val) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok { // comparison with nil only
		if a[0] == NilAddr {
			return IsNil(b[0])
		}
		return IsNil(a[0])
	}
	r := True
	for i := range a {
		switch {
		case a[i].Sort == SAddr && a[i] == NilAddr:
			r = And(r, IsNil(b[i]))
		case a[i].Sort == SAddr && b[i] == NilAddr:
			r = And(r, IsNil(a[i]))
		case a[i].Sort == SIface && (a[i] == NilIface || b[i] == NilIface):
			o := a[i]
			if o == NilIface {
				o = b[i]
			}
			r = And(r, Eq(itag(o), IntC(0)))
		case a[i].Sort == SFunc && (a[i] == NilFunc || b[i] == NilFunc):
			o := a[i]
			if o == NilFunc {
				o = b[i]
			}
			r = And(r, Eq(ftag(o), IntC(0)))
		default:
			r = And(r, Eq(a[i], b[i]))
		}
	}
	return r
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func under(t types.Type) types.Type { return t.Underlying() }

// ---------- instructions

func (x *Exec) instr(fr *Frame, ins ssa.Instruction, st *State) {
	set := func(v ssa.Value, r Val) { fr.vals[v] = r }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(i, Val{x.newObj(st)})
		if _, isArr := under(deref(i.Type())).(*types.Array); !isArr {
			layout(deref(i.Type()))
		}
	case *ssa.BinOp:
		set(i, x.binop(i, x.val(fr, i.X, st), x.val(fr, i.Y, st), st))
	case *ssa.UnOp:
		x.unop(fr, i, st)
	case *ssa.ChangeType:
		set(i, x.val(fr, i.X, st))
	case *ssa.Convert:
		set(i, x.convert(i.X.Type(), i.Type(), x.val(fr, i.X, st), st))
	case *ssa.MultiConvert:
		set(i, x.convert(i.X.Type(), i.Type(), x.val(fr, i.X, st), st))
	case *ssa.ChangeInterface:
		set(i, x.val(fr, i.X, st))
	case *ssa.MakeInterface:
		set(i, Val{x.box(i.X.Type(), x.val(fr, i.X, st))})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.val(fr, v, st))
		}
		set(i, Val{x.mkClo(i.Fn.(*ssa.Function), b)})
	case *ssa.MakeMap:
		set(i, Val{x.newObj(st)})
		x.mapInfos(under(i.Type()).(*types.Map))
	case *ssa.MakeChan:
		c := Val{x.newObj(st)}
		set(i, c)
		x.theChan[types.TypeString(under(i.Type()).(*types.Chan).Elem(), nil)] = c
	case *ssa.MakeSlice:
		ln, cp := x.val(fr, i.Len, st)[0], x.val(fr, i.Cap, st)[0]
		x.mayPanic(st, Or(Lt(ln, IntC(0)), Lt(cp, ln)), "makeslice: len out of range", x.pos(i.Pos()))
		set(i, Val{x.newObj(st), IntC(0), ln, cp})
	case *ssa.FieldAddr:
		p := x.val(fr, i.X, st)[0]
		x.mayPanic(st, IsNil(p), "nil pointer dereference", x.pos(i.Pos()))
		s := under(deref(i.X.Type())).(*types.Struct)
		set(i, Val{AFld(p, fieldID(s, i.Field))})
	case *ssa.Field:
		s := under(i.X.Type()).(*types.Struct)
		lo, hi := fieldRange(s, i.Field)
		set(i, x.val(fr, i.X, st)[lo:hi])
	case *ssa.IndexAddr:
		idx := x.val(fr, i.Index, st)[0]
		switch t := under(i.X.Type()).(type) {
		case *types.Slice:
			s := x.val(fr, i.X, st)
			x.mayPanic(st, Or(Lt(idx, IntC(0)), Le(s[2], idx)), "index out of range", x.pos(i.Pos()))
			set(i, Val{AElm(s[0], Add(s[1], idx))})
		case *types.Pointer:
			p := x.val(fr, i.X, st)[0]
			n := under(t.Elem()).(*types.Array).Len()
			x.mayPanic(st, IsNil(p), "nil pointer dereference", x.pos(i.Pos()))
			x.mayPanic(st, Or(Lt(idx, IntC(0)), Le(IntC(n), idx)), "index out of range", x.pos(i.Pos()))
			set(i, Val{AElm(p, idx)})
		default:
			fail("IndexAddr on %s", i.X.Type())
		}
	case *ssa.Index:
		idx := x.val(fr, i.Index, st)[0]
		switch t := under(i.X.Type()).(type) {
		case *types.Basic:
			set(i, Val{x.strIndex(st, x.val(fr, i.X, st)[0], idx, x.pos(i.Pos()))})
		case *types.Array:
			a := x.val(fr, i.X, st)
			n := int(t.Len())
			x.mayPanic(st, Or(Lt(idx, IntC(0)), Le(IntC(int64(n)), idx)), "index out of range", x.pos(i.Pos()))
			es := size(t.Elem())
			if n == 0 {
				set(i, zeroVal(t.Elem()))
				return
			}
			r := append(Val(nil), a[(n-1)*es:n*es]...)
			for k := n - 2; k >= 0; k-- {
				for q := 0; q < es; q++ {
					r[q] = Ite(Eq(idx, IntC(int64(k))), a[k*es+q], r[q])
				}
			}
			set(i, r)
		default:
			fail("Index on %s", i.X.Type())
		}
	case *ssa.Lookup:
		x.lookup(fr, i, st)
	case *ssa.MapUpdate:
		m := x.val(fr, i.Map, st)[0]
		x.mayPanic(st, IsNil(m), "assignment to entry in nil map", x.pos(i.Pos()))
		mt := under(i.Map.Type()).(*types.Map)
		x.mapSet(st, mt, m, mkKey(mt.Key(), x.val(fr, i.Key, st)), x.val(fr, i.Value, st))
	case *ssa.Range:
		x.rangeInit(fr, i, st)
		set(i, nil)
	case *ssa.Next:
		set(i, x.rangeNext(fr, i, st))
	case *ssa.Extract:
		tp := i.Tuple.Type().(*types.Tuple)
		v := x.val(fr, i.Tuple, st)
		if nx, ok := i.Tuple.(*ssa.Next); ok {
			set(i, x.nextExtract(fr, nx, v, i.Index))
			return
		}
		lo, hi := tupleRange(tp, i.Index)
		set(i, v[lo:hi])
	case *ssa.Slice:
		set(i, x.slice(fr, i, st))
	case *ssa.Store:
		p := x.val(fr, i.Addr, st)[0]
		x.mayPanic(st, IsNil(p), "nil pointer dereference", x.pos(i.Pos()))
		v := x.val(fr, i.Val, st)
		x.StoreVal(st, deref(i.Addr.Type()), p, v)
		if a, ok := i.Addr.(*ssa.Alloc); ok && finalCell(a) {
			if st.final == nil {
				st.final = map[*Term]Val{}
			}
			st.final[p] = v
		}
	case *ssa.TypeAssert:
		set(i, x.typeAssert(i, x.val(fr, i.X, st)[0], st))
	case *ssa.Send:
		x.send(st, i.Chan.Type(), x.val(fr, i.Chan, st)[0], x.val(fr, i.X, st), fr.path+"/send", x.pos(i.Pos()))
	case *ssa.Select:
		x.selectStmt(fr, i, st)
	case *ssa.Go:
		x.goStmt(fr, i, st)
	case *ssa.Defer:
		if fr.inLoop(i.Block()) {
			fail("defer inside a loop in %s", fr.fn)
		}
		d := deferred{guard: True, call: &i.Call, instr: i, depth: len(x.stack)}
		if i.Call.IsInvoke() {
			d.fnv = x.val(fr, i.Call.Value, st)
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			d.fnv = x.val(fr, i.Call.Value, st)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(fr, a, st))
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		for len(st.defers) > fr.dbase {
			d := st.defers[len(st.defers)-1]
			st.defers = st.defers[:len(st.defers)-1]
			run := func(s *State) *State {
				_, s2 := x.doCall(fr, d.call, d.fnv, d.args, s, fr.path+"/defer", d.instr)
				return s2
			}
			if d.guard == True {
				*st = *run(st)
			} else {
				a, b := st.clone(), st.clone()
				a.rc = And(st.rc, d.guard)
				b.rc = And(st.rc, Not(d.guard))
				var out []*State
				if a.rc != False {
					out = append(out, run(a))
				}
				out = live(append(out, b))
				if len(out) == 0 {
					st.rc = False
					return
				}
				m, _ := x.mergeStates(out)
				*st = *m
			}
		}
	case *ssa.Call:
		var fnv Val
		if i.Call.IsInvoke() {
			fnv = x.val(fr, i.Call.Value, st)
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			if _, ok := i.Call.Value.(*ssa.Function); !ok {
				fnv = x.val(fr, i.Call.Value, st)
			}
		}
		var args []Val
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, a, st))
		}
		r, s2 := x.doCall(fr, &i.Call, fnv, args, st, fmt.Sprintf("%s/%d.%d", fr.path, i.Block().Index, instrIdx(i)), i)
		*st = *s2
		set(i, r)
	default:
		fail("instruction %T: %s in %s", ins, ins, fr.fn)
	}
}

func instrIdx(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if j == i {
			return k
		}
	}
	return -1
}
func (fr *Frame) inLoop(b *ssa.BasicBlock) bool {
	for _, body := range fr.loops {
		if body[b] {
			return true
		}
	}
	return false
}

func (x *Exec) goStmt(fr *Frame, i *ssa.Go, st *State) {
	x.assume[chanAssumption] = true
	f := st
	var fnv Val
	if i.Call.IsInvoke() {
		fnv = x.val(fr, i.Call.Value, st)
	} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
		fnv = x.val(fr, i.Call.Value, st)
	}
	var args []Val
	for _, a := range i.Call.Args {
		args = append(args, x.val(fr, a, st))
	}
	sv := f.defers
	if s := x.stubs["go"]; s != nil && len(args) == 0 && len(fnv) == 1 && !i.Call.IsInvoke() {
		x.trusted["stub for go statements"] = true
		_, r := x.runFunc(s, []Val{fnv}, nil, st, fr.path+"/go")
		*st = *r
		st.defers = sv
		return
	}
	_, r := x.doCall(fr, &i.Call, fnv, args, f, fr.path+"/go", i)
	*st = *r
	st.defers = sv
}

func isUnsigned(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 0, false
}
func pow2(n int) *Term { return BigC(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

func (x *Exec) wrap(t types.Type, r *Term) *Term {
	if n, ok := isUnsigned(t); ok && n < 64 && r.Sort == SInt {
		if r.isInt() {
			return EMod(r, pow2(n))
		}
		return EMod(r, pow2(n))
	}
	return r
}

func (x *Exec) binop(i *ssa.BinOp, a, b Val, st *State) Val {
	t := i.X.Type()
	switch i.Op {
	case token.EQL:
		return Val{eqVals(t, a, b)}
	case token.NEQ:
		return Val{Not(eqVals(t, a, b))}
	}
	l, r := a[0], b[0]
	switch l.Sort {
	case SStr:
		switch i.Op {
		case token.ADD:
			return Val{App("str.++", SStr, l, r)}
		case token.LSS:
			return Val{App("str.<", SBool, l, r)}
		case token.LEQ:
			return Val{App("str.<=", SBool, l, r)}
		case token.GTR:
			return Val{App("str.<", SBool, r, l)}
		case token.GEQ:
			return Val{App("str.<=", SBool, r, l)}
		}
	case SInt:
		switch i.Op {
		case token.ADD:
			return Val{x.wrap(i.Type(), Add(l, r))}
		case token.SUB:
			return Val{x.wrap(i.Type(), Sub(l, r))}
		case token.MUL:
			return Val{x.wrap(i.Type(), Mul(l, r))}
		case token.QUO:
			x.mayPanic(st, Eq(r, IntC(0)), "division by zero", x.pos(i.Pos()))
			return Val{GoDiv(l, r)}
		case token.REM:
			x.mayPanic(st, Eq(r, IntC(0)), "division by zero", x.pos(i.Pos()))
			return Val{GoMod(l, r)}
		case token.LSS:
			return Val{Lt(l, r)}
		case token.LEQ:
			return Val{Le(l, r)}
		case token.GTR:
			return Val{Lt(r, l)}
		case token.GEQ:
			return Val{Le(r, l)}
		case token.SHL:
			if r.isInt() {
				return Val{x.wrap(i.Type(), Mul(l, pow2(int(r.I.Int64()))))}
			}
		case token.SHR:
			if r.isInt() {
				return Val{EDiv(l, pow2(int(r.I.Int64())))}
			}
		case token.AND:
			if l.isInt() && !r.isInt() {
				l, r = r, l
			}
			if r.isInt() {
				if l.isInt() {
					return Val{BigC(new(big.Int).And(l.I, r.I))}
				}
				m := new(big.Int).Add(r.I, big.NewInt(1))
				if m.Sign() > 0 && new(big.Int).And(m, r.I).Sign() == 0 {
					return Val{EMod(l, BigC(m))}
				}
			}
			return Val{App("ext!iand", SInt, l, r)}
		case token.OR:
			if l.isInt() && r.isInt() {
				return Val{BigC(new(big.Int).Or(l.I, r.I))}
			}
			return Val{App("ext!ior", SInt, l, r)}
		case token.XOR:
			return Val{App("ext!ixor", SInt, l, r)}
		case token.AND_NOT:
			return Val{App("ext!iandnot", SInt, l, r)}
		}
		if i.Op == token.SHL || i.Op == token.SHR {
			return Val{App("ext!shift"+i.Op.String(), SInt, l, r)}
		}
	case SBV32:
		switch i.Op {
		case token.AND:
			return Val{App("bvand", SBV32, l, r)}
		case token.OR:
			return Val{App("bvor", SBV32, l, r)}
		case token.XOR:
			return Val{App("bvxor", SBV32, l, r)}
		case token.AND_NOT:
			return Val{App("bvand", SBV32, l, App("bvnot", SBV32, r))}
		case token.ADD:
			return Val{App("bvadd", SBV32, l, r)}
		case token.SUB:
			return Val{App("bvsub", SBV32, l, r)}
		case token.LSS:
			return Val{App("bvult", SBool, l, r)}
		case token.GTR:
			return Val{App("bvult", SBool, r, l)}
		case token.LEQ:
			return Val{App("bvule", SBool, l, r)}
		case token.GEQ:
			return Val{App("bvule", SBool, r, l)}
		case token.SHL:
			if r.isInt() {
				return Val{App("bvshl", SBV32, l, BVC(r.I.Uint64()))}
			}
		case token.SHR:
			if r.isInt() {
				return Val{App("bvlshr", SBV32, l, BVC(r.I.Uint64()))}
			}
		}
	case SF64:
		s := SF64
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			s = SBool
		}
		return Val{App("ext!f64"+sanitize(tokName(i.Op)), s, l, r)}
	case SBool:
		switch i.Op {
		case token.AND, token.LAND:
			return Val{And(l, r)}
		case token.OR, token.LOR:
			return Val{Or(l, r)}
		}
	}
	fail("binop %s on %s", i.Op, t)
	return nil
}
func tokName(t token.Token) string {
	return map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge", token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[t]
}

func (x *Exec) unop(fr *Frame, i *ssa.UnOp, st *State) {
	v := x.val(fr, i.X, st)
	switch i.Op {
	case token.MUL:
		x.mayPanic(st, IsNil(v[0]), "nil pointer dereference", x.pos(i.Pos()))
		if c, ok := st.final[v[0]]; ok {
			fr.vals[i] = c
			break
		}
		fr.vals[i] = x.Load(st, i.Type(), v[0])
	case token.NOT:
		fr.vals[i] = Val{Not(v[0])}
	case token.SUB:
		if v[0].Sort == SInt {
			fr.vals[i] = Val{Neg(v[0])}
		} else {
			fr.vals[i] = Val{App("ext!neg"+sanitize(string(v[0].Sort)), v[0].Sort, v[0])}
		}
	case token.XOR:
		if v[0].Sort == SBV32 {
			fr.vals[i] = Val{App("bvnot", SBV32, v[0])}
		} else {
			fr.vals[i] = Val{Sub(IntC(-1), v[0])}
		}
	case token.ARROW:
		r, ok := x.recv(st, i.X.Type(), v[0], fr.path+"/recv", x.pos(i.Pos()))
		if i.CommaOk {
			fr.vals[i] = append(append(Val{}, r...), ok)
		} else {
			fr.vals[i] = r
		}
	default:
		fail("unop %s", i.Op)
	}
}

// chanInfos: per-channel counters; the elements live at AElm(ch, i) like those of an array.
func (x *Exec) chanInfos(ct types.Type) (sent, recvd, closed *heapInfo) {
	k := typeKey(under(ct).(*types.Chan).Elem())
	sent = x.info("chan.sent:"+k, Leaf{Key: "chan.sent:" + k, Sort: SInt, Kind: "uint"}, "")
	recvd = x.info("chan.recvd:"+k, Leaf{Key: "chan.recvd:" + k, Sort: SInt, Kind: "uint"}, "")
	closed = x.info("chan.closed:"+k, Leaf{Key: "chan.closed:" + k, Sort: SBool}, "")
	return
}

func (x *Exec) chanCounts(st *State, ct types.Type, ch *Term) (sent, recvd, closed *Term) {
	hs, hr, hc := x.chanInfos(ct)
	sent, recvd, closed = Select(x.heap(st, hs), ch), Select(x.heap(st, hr), ch), Select(x.heap(st, hc), ch)
	x.fact(Le(IntC(0), recvd))
	x.fact(Le(recvd, sent))
	return
}

const chanAssumption = "channels: closed-world FIFO; goroutines are run at their go statement (or at Wait), which is exact when they share memory only through channels and WaitGroups; sends never block forever"

func (x *Exec) recv(st *State, ct types.Type, ch *Term, path, pos string) (Val, *Term) {
	x.assume[chanAssumption] = true
	et := under(ct).(*types.Chan).Elem()
	_, hr, _ := x.chanInfos(ct)
	sent, recvd, closed := x.chanCounts(st, ct, ch)
	avail := Lt(recvd, sent)
	x.mayPanic(st, And(Not(avail), Not(closed)), "receive blocks forever", pos)
	v := x.Load(st, et, AElm(ch, recvd))
	x.wf(st, et, v, st.alloc)
	z := zeroVal(et)
	for i := range v {
		v[i] = Ite(avail, v[i], z[i])
	}
	x.storeLeaf(st, hr.leaf, ch, Ite(avail, Add(recvd, IntC(1)), recvd))
	return v, avail
}
func (x *Exec) send(st *State, ct types.Type, ch *Term, v Val, path, pos string) {
	x.assume[chanAssumption] = true
	et := under(ct).(*types.Chan).Elem()
	hs, _, _ := x.chanInfos(ct)
	sent, _, closed := x.chanCounts(st, ct, ch)
	x.mayPanic(st, IsNil(ch), "send on nil channel", pos)
	x.mayPanic(st, closed, "send on closed channel", pos)
	x.StoreVal(st, et, AElm(ch, sent), v)
	x.storeLeaf(st, hs.leaf, ch, Add(sent, IntC(1)))
}

// selectStmt: any ready case may be taken, and with a default clause that one too.
func (x *Exec) selectStmt(fr *Frame, i *ssa.Select, st *State) {
	pick := x.freshVal(st, "select", types.Typ[types.Int])[0]
	type in struct {
		ch *Term
		v  Val
	}
	var ins []in
	ready := False
	for _, c := range i.States {
		e := in{ch: x.val(fr, c.Chan, st)[0]}
		if c.Dir == types.SendOnly {
			e.v = x.val(fr, c.Send, st)
			ready = Or(ready, Not(IsNil(e.ch)))
		} else {
			sent, recvd, closed := x.chanCounts(st, c.Chan.Type(), e.ch)
			ready = Or(ready, And(Not(IsNil(e.ch)), Or(Lt(recvd, sent), closed)))
		}
		ins = append(ins, e)
	}
	if i.Blocking {
		x.mayPanic(st, Not(ready), "select blocks forever", x.pos(i.Pos()))
	}
	n := len(ins)
	tp := i.Type().(*types.Tuple)
	result := func(k int, ok *Term, got Val) Val {
		r := Val{IntC(int64(k)), ok}
		at := 2
		for j, c := range i.States {
			if c.Dir == types.SendOnly {
				continue
			}
			if j == k {
				r = append(r, got...)
			} else {
				r = append(r, zeroVal(tp.At(at).Type())...)
			}
			at++
		}
		return r
	}
	var take func(k int, s *State) (Val, *State)
	take = func(k int, s *State) (Val, *State) {
		if k == n {
			if i.Blocking {
				s.rc = False
			}
			return result(-1, False, nil), s
		}
		return x.split(s, Eq(pick, IntC(int64(k))), func(s *State) (Val, *State) {
			c := i.States[k]
			if c.Dir == types.SendOnly {
				s.rc = And(s.rc, Not(IsNil(ins[k].ch)))
				x.send(s, c.Chan.Type(), ins[k].ch, ins[k].v, fr.path+"/send", x.pos(i.Pos()))
				return result(k, False, nil), s
			}
			sent, recvd, closed := x.chanCounts(s, c.Chan.Type(), ins[k].ch)
			s.rc = And(s.rc, Not(IsNil(ins[k].ch)), Or(Lt(recvd, sent), closed))
			v, ok := x.recv(s, c.Chan.Type(), ins[k].ch, fr.path+"/recv", x.pos(i.Pos()))
			return result(k, ok, v), s
		}, func(s *State) (Val, *State) { return take(k+1, s) })
	}
	v, s2 := take(0, st.clone())
	*st = *s2
	fr.vals[i] = v
}
func (x *Exec) closeChan(st *State, ct types.Type, ch *Term, pos string) {
	_, _, hc := x.chanInfos(ct)
	_, _, closed := x.chanCounts(st, ct, ch)
	x.mayPanic(st, Or(IsNil(ch), closed), "close of nil or closed channel", pos)
	x.storeLeaf(st, hc.leaf, ch, True)
}

func (x *Exec) assert(st *State, name string, c *Term) {
	if x.pure > 0 {
		fail("assert inside a pure context: %s", name)
	}
	x.obs = append(x.obs, &Oblig{name: name, nf: len(x.facts), rc: st.rc, goal: c, pos: x.curPos, fork: x.forkN})
}

// runPure runs a function in specification mode (no obligations) and returns its value.
func (x *Exec) runPure(f *ssa.Function, args []Val, st *State) (Val, *State) {
	x.pure++
	defer func() { x.pure-- }()
	s := st.clone()
	s.rc = True
	s.defers = nil
	w := len(x.writes)
	v, o := x.runFunc(f, args, nil, s, "pure:"+f.Name())
	x.writes = x.writes[:w]
	return v, o
}

func strLen(s *Term) *Term { return App("str.len", SInt, s) }
func byteAt(s, i *Term) *Term {
	if s.Op == OStrC && i.isInt() {
		k := i.I.Int64()
		if k >= 0 && int(k) < len(s.Name) {
			return IntC(int64(s.Name[k]))
		}
	}
	return App("str.to_code", SInt, App("str.at", SStr, s, i))
}

func (x *Exec) strIndex(st *State, s, idx *Term, pos string) *Term {
	x.mayPanic(st, Or(Lt(idx, IntC(0)), Le(strLen(s), idx)), "index out of range", pos)
	r := byteAt(s, idx)
	if !r.bound {
		x.factG(st, And(Le(IntC(0), r), Le(r, IntC(255))))
	}
	return r
}

func (x *Exec) convert(from, to types.Type, v Val, st *State) Val {
	fl, tl := layout(from), layout(to)
	fs, ts := fl[0].Sort, tl[0].Sort
	if len(fl) == 1 && len(tl) == 1 {
		switch {
		case fs == SInt && ts == SInt:
			fn, fu := isUnsigned(from)
			tn, tu := isUnsigned(to)
			if tu && tn < 64 && !(fu && fn <= tn) {
				return Val{EMod(v[0], pow2(tn))}
			}
			if tu && tn == 64 && !fu && v[0].isInt() && v[0].I.Sign() < 0 {
				return Val{EMod(v[0], pow2(64))}
			}
			return v
		case fs == SBV32 && ts == SBV32:
			return v
		case fs == SBV32 && ts == SInt:
			if v[0].Op == OBVC {
				return Val{BigC(v[0].I)}
			}
			return Val{App("bv2int", SInt, v[0])}
		case fs == SInt && ts == SBV32:
			if v[0].isInt() {
				return Val{BVC(new(big.Int).And(v[0].I, big.NewInt(0xffffffff)).Uint64())}
			}
			return Val{App("int2bv", SBV32, v[0])}
		case fs == SStr && ts == SStr:
			return v
		case fs == SInt && ts == SStr:
			if v[0].isInt() && v[0].I.IsInt64() {
				return Val{StrC(string(rune(v[0].I.Int64())))}
			}
			return Val{App("ext!rune2str", SStr, v[0])}
		case fs == SF64 && ts == SF64:
			return v
		case fs == SInt && ts == SF64, fs == SF64 && ts == SInt:
			return Val{App("ext!conv"+sanitize(from.String()+"_"+to.String()), ts, v[0])}
		case fs == SAddr && ts == SAddr:
			return v
		}
	}
	if fs == SStr && len(tl) == 4 { // []byte(s)
		return x.strToBytes(st, to, v[0])
	}
	if len(fl) == 4 && ts == SStr {
		return Val{x.bytesToStr(st, from, v)}
	}
	fail("convert %s -> %s", from, to)
	return nil
}

func (x *Exec) strToBytes(st *State, to types.Type, s *Term) Val {
	et := under(to).(*types.Slice).Elem()
	l := layout(et)[0]
	o := x.newObj(st)
	h := x.info(l.Key, l, "")
	old := x.heap(st, h)
	if s.Op == OStrC && len(s.Name) <= 64 {
		for i := 0; i < len(s.Name); i++ {
			x.storeLeaf(st, l, AElm(o, IntC(int64(i))), IntC(int64(s.Name[i])))
		}
		return Val{o, IntC(0), strLen(s), strLen(s)}
	}
	nh := x.newHeapSym(h, "s2b", st.alloc)
	a := FreshBound("a", SAddr)
	x.fact(Forall([]*Term{a}, Imp(Not(Eq(AddrID(a), AddrID(o))), Eq(Select(nh, a), Select(old, a))), []*Term{rawSelect(nh, a)}))
	j := FreshBound("j", SInt)
	x.fact(Forall([]*Term{j}, Imp(And(Le(IntC(0), j), Lt(j, strLen(s))), Eq(Select(nh, AElm(o, j)), byteAt(s, j))), []*Term{rawSelect(nh, AElm(o, j))}))
	x.logWrite(h.key, o)
	x.setHeap(st, h, nh)
	x.fact(Eq(x.bytesToStr(st, to, Val{o, IntC(0), strLen(s), strLen(s)}), s))
	return Val{o, IntC(0), strLen(s), strLen(s)}
}
func rawSelect(h, a *Term) *Term {
	_, vs, _ := splitArr(h.Sort)
	return mk(Term{Op: OSelect, Sort: vs, Args: []*Term{h, a}})
}

func (x *Exec) bytesToStr(st *State, from types.Type, v Val) *Term {
	et := under(from).(*types.Slice).Elem()
	l := layout(et)[0]
	h := x.info(l.Key, l, "")
	hh := x.heap(st, h)
	if v[2].isInt() && v[2].I.Int64() <= 8 && v[2].I.Sign() >= 0 && l.Kind == "byte" {
		var parts []*Term
		for i := int64(0); i < v[2].I.Int64(); i++ {
			c := Select(hh, AElm(v[0], Add(v[1], IntC(i))))
			if c.isInt() {
				parts = append(parts, StrC(string([]byte{byte(c.I.Int64())})))
			} else {
				parts = append(parts, App("str.from_code", SStr, c))
			}
		}
		return App("str.++", SStr, append(parts, StrC(""))...)
	}
	r := App("ext!b2s."+sanitize(l.Key), SStr, hh, v[0], v[1], v[2])
	if !r.bound && l.Kind == "byte" {
		x.fact(Eq(strLen(r), Ite(Le(IntC(0), v[2]), v[2], strLen(r))))
	}
	return r
}

// ---------- maps

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	dom, _, vals := x.mapInfos(mt)
	ok := Select(Select(x.heap(st, dom), m), k)
	var v Val
	for _, h := range vals {
		v = append(v, Select(Select(x.heap(st, h), m), k))
	}
	return v, ok
}
func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	dom, ln, _ := x.mapInfos(mt)
	n := Select(x.heap(st, ln), m)
	if n.bound || n.isInt() {
		return n
	}
	d := Select(x.heap(st, dom), m)
	x.fact(Le(IntC(0), n))
	ks := keySort(mt.Key())
	kb := FreshBound("k", ks)
	x.fact(Imp(Eq(n, IntC(0)), Forall([]*Term{kb}, Not(Select(d, kb)), []*Term{rawSelect(d, kb)})))
	w := Fresh("wit", ks)
	x.fact(Imp(Lt(IntC(0), n), Select(d, w)))
	return n
}
func (x *Exec) mapSet(st *State, mt *types.Map, m, k *Term, v Val) {
	dom, ln, vals := x.mapInfos(mt)
	d := x.heap(st, dom)
	dm := Select(d, m)
	had := Select(dm, k)
	n := Select(x.heap(st, ln), m)
	x.logWrite(dom.key, m)
	x.logWrite(ln.key, m)
	x.setHeap(st, dom, Store(d, m, Store(dm, k, True)))
	x.setHeap(st, ln, Store(x.heap(st, ln), m, Ite(had, n, Add(n, IntC(1)))))
	for i, h := range vals {
		hh := x.heap(st, h)
		x.logWrite(h.key, m)
		x.setHeap(st, h, Store(hh, m, Store(Select(hh, m), k, v[i])))
	}
}
func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	dom, ln, vals := x.mapInfos(mt)
	d := x.heap(st, dom)
	dm := Select(d, m)
	had := Select(dm, k)
	n := Select(x.heap(st, ln), m)
	isnil := IsNil(m)
	x.logWrite(dom.key, m)
	x.logWrite(ln.key, m)
	x.setHeap(st, dom, Ite(isnil, d, Store(d, m, Store(dm, k, False))))
	l := x.heap(st, ln)
	x.setHeap(st, ln, Ite(isnil, l, Store(l, m, Ite(had, Sub(n, IntC(1)), n))))
	_ = vals
	// values of absent keys are canonical zero
	for _, h := range vals {
		hh := x.heap(st, h)
		x.logWrite(h.key, m)
		x.setHeap(st, h, Ite(isnil, hh, Store(hh, m, Store(Select(hh, m), k, zeroElem(h)))))
	}
}
func zeroElem(h *heapInfo) *Term {
	_, vs, _ := splitArr(h.valS)
	return zeroOf(vs)
}
func (x *Exec) mapClear(st *State, mt *types.Map, m *Term) {
	dom, ln, vals := x.mapInfos(mt)
	for _, h := range append([]*heapInfo{dom, ln}, vals...) {
		hh := x.heap(st, h)
		x.logWrite(h.key, m)
		x.setHeap(st, h, Ite(IsNil(m), hh, Store(hh, m, h.zero)))
	}
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup, st *State) {
	if b, ok := under(i.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		fr.vals[i] = Val{x.strIndex(st, x.val(fr, i.X, st)[0], x.val(fr, i.Index, st)[0], x.pos(i.Pos()))}
		return
	}
	mt := under(i.X.Type()).(*types.Map)
	m := x.val(fr, i.X, st)[0]
	k := mkKey(mt.Key(), x.val(fr, i.Index, st))
	v, ok := x.mapGet(st, mt, m, k)
	z := zeroVal(mt.Elem())
	r := make(Val, len(v))
	for j := range v {
		r[j] = Ite(ok, v[j], z[j])
	}
	if i.CommaOk {
		r = append(r, ok)
	}
	fr.vals[i] = r
}

func (x *Exec) rangeInit(fr *Frame, i *ssa.Range, st *State) {
	key := fmt.Sprintf("%s|%s@%d.%d", fr.path, i.Name(), i.Block().Index, instrIdx(i))
	if mt, ok := under(i.X.Type()).(*types.Map); ok {
		m := x.val(fr, i.X, st)[0]
		dom, _, _ := x.mapInfos(mt)
		ks := keySort(mt.Key())
		fr.iter[i] = &iterInfo{key: key, mt: mt, m: m, dom0: Select(x.heap(st, dom), m)}
		st.iters[key] = ConstArr(SArr(ks, SBool), False)
		return
	}
	fr.iter[i] = &iterInfo{key: key, isStr: true, str: x.val(fr, i.X, st)[0]}
	st.iters[key] = IntC(0)
}

func (x *Exec) rangeNext(fr *Frame, i *ssa.Next, st *State) Val {
	it := fr.iter[i.Iter]
	if it == nil {
		fail("iterator")
	}
	if it.isStr {
		p := st.iters[it.key]
		ok := Lt(p, strLen(it.str))
		b := byteAt(it.str, p)
		r := Fresh("rune", SInt)
		w := Fresh("runew", SInt)
		// ASCII bytes decode to themselves with width one; anything else decodes to a
		// rune >= 0x80 covering one to four bytes.
		x.factG(st, Imp(ok, And(Le(IntC(0), b), Le(b, IntC(255)),
			Imp(Lt(b, IntC(128)), And(Eq(r, b), Eq(w, IntC(1)))),
			Imp(Le(IntC(128), b), And(Le(IntC(128), r), Le(r, IntC(0x10ffff)), Le(IntC(1), w), Le(w, IntC(4)), Le(Add(p, w), strLen(it.str)))))))
		x.factG(st, Imp(ok, Eq(w, App("ext!runewidth", SInt, it.str, p))))
		x.factG(st, Imp(ok, Eq(r, App("ext!runeat", SInt, it.str, p))))
		st.iters[it.key] = Ite(ok, Add(p, w), p)
		return Val{ok, p, r}
	}
	vis := st.iters[it.key]
	dom, _, vals := x.mapInfos(it.mt)
	d := Select(x.heap(st, dom), it.m)
	ok := Fresh("mapnext.ok", SBool)
	ks := keySort(it.mt.Key())
	k := Fresh("mapkey", ks)
	x.factG(st, Imp(ok, And(Select(d, k), Not(Select(vis, k)))))
	kb := FreshBound("k", ks)
	var pats [][]*Term
	pats = append(pats, []*Term{rawSelect(it.dom0, kb)})
	if d.Op == OSym || d.Op == OSelect || d.Op == OStore {
		pats = append(pats, []*Term{rawSelect(d, kb)})
	}
	if vis.Op == OSym || vis.Op == OSelect || vis.Op == OStore {
		pats = append(pats, []*Term{rawSelect(vis, kb)})
	}
	x.factG(st, Imp(Not(ok), Forall([]*Term{kb}, Imp(And(Select(it.dom0, kb), Select(d, kb)), Select(vis, kb)), pats...)))
	kv := unKey(it.mt.Key(), k)
	x.wfMapKey(st, it.mt, kv)
	r := Val{ok}
	r = append(r, kv...)
	for _, h := range vals {
		r = append(r, Select(Select(x.heap(st, h), it.m), k))
	}
	st.iters[it.key] = Ite(ok, Store(vis, k, True), vis)
	return r
}

func (x *Exec) wfMapKey(st *State, mt *types.Map, kv Val) { x.wf(st, mt.Key(), kv, st.alloc) }

func (x *Exec) nextExtract(fr *Frame, nx *ssa.Next, v Val, idx int) Val {
	it := fr.iter[nx.Iter]
	if idx == 0 {
		return v[:1]
	}
	if it.isStr {
		return v[idx : idx+1]
	}
	nk := size(it.mt.Key())
	if idx == 1 {
		return v[1 : 1+nk]
	}
	return v[1+nk:]
}

// ---------- slices

func (x *Exec) slice(fr *Frame, i *ssa.Slice, st *State) Val {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(fr, v, st)[0]
	}
	switch t := under(i.X.Type()).(type) {
	case *types.Basic:
		s := x.val(fr, i.X, st)[0]
		n := strLen(s)
		lo, hi := get(i.Low, IntC(0)), get(i.High, n)
		x.mayPanic(st, Or(Lt(lo, IntC(0)), Lt(hi, lo), Lt(n, hi)), "slice bounds out of range", x.pos(i.Pos()))
		return Val{App("str.substr", SStr, s, lo, Sub(hi, lo))}
	case *types.Slice:
		s := x.val(fr, i.X, st)
		lo, hi := get(i.Low, IntC(0)), get(i.High, s[2])
		mx := get(i.Max, s[3])
		x.mayPanic(st, Or(Lt(lo, IntC(0)), Lt(hi, lo), Lt(mx, hi), Lt(s[3], mx)), "slice bounds out of range", x.pos(i.Pos()))
		return Val{s[0], Add(s[1], lo), Sub(hi, lo), Sub(mx, lo)}
	case *types.Pointer:
		p := x.val(fr, i.X, st)[0]
		x.mayPanic(st, IsNil(p), "nil pointer dereference", x.pos(i.Pos()))
		n := IntC(under(t.Elem()).(*types.Array).Len())
		lo, hi := get(i.Low, IntC(0)), get(i.High, n)
		mx := get(i.Max, n)
		x.mayPanic(st, Or(Lt(lo, IntC(0)), Lt(hi, lo), Lt(mx, hi), Lt(n, mx)), "slice bounds out of range", x.pos(i.Pos()))
		return Val{p, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	fail("slice of %s", i.X.Type())
	return nil
}

// appendVals appends the elements of slice b to a (element type et).
func (x *Exec) appendSlices(st *State, et types.Type, a, b Val) (ret Val) {
	ls := layout(et)
	n := b[2]
	if n.isInt() && n.I.Sign() == 0 {
		return a
	}
	newLen := Add(a[2], n)
	fits := Le(newLen, a[3])
	small := int64(-1)
	if n.isInt() && n.I.Int64() <= 8 {
		small = n.I.Int64()
	}
	// read source elements first (small case)
	var elems []Val
	for j := int64(0); j < small; j++ {
		var v Val
		for _, l := range ls {
			v = append(v, x.loadLeaf(st, l, addPath(AElm(b[0], Add(b[1], IntC(j))), l.Path)))
		}
		elems = append(elems, v)
	}
	if small == 1 {
		defer func() {
			if len(ret) == 4 {
				for i, l := range ls {
					x.appended[appKey{ret[0], l.Key, fmt.Sprint(l.Path)}] = elems[0][i]
				}
			}
		}()
	}
	emptyA := a[2].isInt() && a[2].I.Sign() == 0
	if a[3].isInt() && a[3].I.Sign() == 0 && !n.isInt() {
		fits = Le(n, IntC(0))
	}
	o := Addr(st.alloc, Root)
	oldAlloc := st.alloc
	st.alloc = Add(st.alloc, IntC(1))
	_ = oldAlloc
	newCap := Fresh("cap", SInt)
	x.fact(Le(newLen, newCap))
	byKey := map[string][]Leaf{}
	var keys []string
	for _, l := range ls {
		if _, ok := byKey[l.Key]; !ok {
			keys = append(keys, l.Key)
		}
		byKey[l.Key] = append(byKey[l.Key], l)
	}
	leafIdx := func(l Leaf) int {
		for i := range ls {
			if fmt.Sprint(ls[i].Path) == fmt.Sprint(l.Path) && ls[i].Key == l.Key {
				return i
			}
		}
		return -1
	}
	for _, k := range keys {
		h := x.info(k, byKey[k][0], "")
		old := x.heap(st, h)
		inPlace, moved := old, old
		if fits != False {
			if small >= 0 {
				for j := int64(0); j < small; j++ {
					for _, l := range byKey[k] {
						ad := addPath(AElm(a[0], Add(a[1], Add(a[2], IntC(j)))), l.Path)
						x.logWrite(k, ad)
						inPlace = Store(inPlace, ad, elems[j][leafIdx(l)])
					}
				}
			} else {
				x.logWrite(k, mk(Term{Op: OApp, Sort: SAddr, Name: "mk", Args: []*Term{AddrID(a[0]), mk(Term{Op: OApp, Sort: SPath, Name: "elm", Args: []*Term{AddrPath(a[0]), Fresh("anyidx", SInt)}})}}))
				nh := x.newHeapSym(h, "app", st.alloc)
				ad := FreshBound("a", SAddr)
				j := FreshBound("j", SInt)
				cond := True
				// unchanged outside the written window
				for _, l := range byKey[k] {
					_ = l
				}
				_ = cond
				x.fact(Forall([]*Term{ad}, Imp(Not(Eq(AddrID(ad), AddrID(a[0]))), Eq(Select(nh, ad), Select(old, ad))), []*Term{rawSelect(nh, ad)}))
				for _, l := range byKey[k] {
					at := addPath(AElm(a[0], j), l.Path)
					src := addPath(AElm(b[0], Add(b[1], Sub(j, Add(a[1], a[2])))), l.Path)
					lo := Add(a[1], a[2])
					inW := And(Le(lo, j), Lt(j, Add(lo, n)))
					x.fact(Forall([]*Term{j}, Eq(Select(nh, at), Ite(inW, Select(old, src), Select(old, at))), []*Term{rawSelect(nh, at)}))
				}
				inPlace = nh
			}
		}
		if fits != True {
			if emptyA {
				if small >= 0 {
					for j := int64(0); j < small; j++ {
						for _, l := range byKey[k] {
							ad := addPath(AElm(o, IntC(j)), l.Path)
							x.logWrite(k, ad)
							moved = Store(moved, ad, elems[j][leafIdx(l)])
						}
					}
				}
			}
			if !(emptyA && small >= 0) {
				x.logWrite(k, AElm(o, IntC(0)))
				nh := x.newHeapSym(h, "mov", st.alloc)
				ad := FreshBound("a", SAddr)
				j := FreshBound("j", SInt)
				x.fact(Forall([]*Term{ad}, Imp(Not(Eq(AddrID(ad), AddrID(o))), Eq(Select(nh, ad), Select(old, ad))), []*Term{rawSelect(nh, ad)}))
				for _, l := range byKey[k] {
					at := addPath(AElm(o, j), l.Path)
					srcA := addPath(AElm(a[0], Add(a[1], j)), l.Path)
					x.fact(Forall([]*Term{j}, Imp(And(Le(IntC(0), j), Lt(j, a[2])), Eq(Select(nh, at), Select(old, srcA))), []*Term{rawSelect(nh, at)}, []*Term{rawSelect2(old, srcA)}))
					if small >= 0 {
						for q := int64(0); q < small; q++ {
							x.fact(Eq(Select(nh, addPath(AElm(o, Add(a[2], IntC(q))), l.Path)), elems[q][leafIdx(l)]))
						}
					} else {
						srcB := addPath(AElm(b[0], Add(b[1], Sub(j, a[2]))), l.Path)
						x.fact(Forall([]*Term{j}, Imp(And(Le(a[2], j), Lt(j, newLen)), Eq(Select(nh, at), Select(old, srcB))), []*Term{rawSelect(nh, at)}))
					}
					z := zeroOf(l.Sort)
					x.fact(Forall([]*Term{j}, Imp(Or(Lt(j, IntC(0)), Le(newLen, j)), Eq(Select(nh, at), z)), []*Term{rawSelect(nh, at)}))
				}
				moved = nh
			}
		}
		x.setHeap(st, h, Ite(fits, inPlace, moved))
	}
	if emptyA && small >= 0 && a[3].isInt() && a[3].I.Sign() == 0 {
		return Val{o, IntC(0), newLen, newCap}
	}
	// append of zero elements returns the slice itself
	return Val{Ite(fits, a[0], o), Ite(fits, a[1], IntC(0)), newLen, Ite(fits, a[3], newCap)}
}

// rawSelect2 makes a pattern-usable select (heap must not be an ite)
func rawSelect2(h, a *Term) *Term { return rawSelect(h, a) }

// copySlices models copy(dst, src).
func (x *Exec) copySlices(st *State, et types.Type, d, s Val) *Term {
	n := Ite(Le(d[2], s[2]), d[2], s[2])
	ls := layout(et)
	byKey := map[string][]Leaf{}
	var keys []string
	for _, l := range ls {
		if _, ok := byKey[l.Key]; !ok {
			keys = append(keys, l.Key)
		}
		byKey[l.Key] = append(byKey[l.Key], l)
	}
	for _, k := range keys {
		h := x.info(k, byKey[k][0], "")
		old := x.heap(st, h)
		nh := x.newHeapSym(h, "cpy", st.alloc)
		ad := FreshBound("a", SAddr)
		j := FreshBound("j", SInt)
		x.fact(Forall([]*Term{ad}, Imp(Not(Eq(AddrID(ad), AddrID(d[0]))), Eq(Select(nh, ad), Select(old, ad))), []*Term{rawSelect(nh, ad)}))
		for _, l := range byKey[k] {
			at := addPath(AElm(d[0], j), l.Path)
			src := addPath(AElm(s[0], Add(s[1], Sub(j, d[1]))), l.Path)
			inW := And(Le(d[1], j), Lt(j, Add(d[1], n)))
			x.fact(Forall([]*Term{j}, Eq(Select(nh, at), Ite(inW, Select(old, src), Select(old, at))), []*Term{rawSelect(nh, at)}))
		}
		x.logWrite(k, mk(Term{Op: OApp, Sort: SAddr, Name: "mk", Args: []*Term{AddrID(d[0]), mk(Term{Op: OApp, Sort: SPath, Name: "elm", Args: []*Term{AddrPath(d[0]), Fresh("anyidx", SInt)}})}}))
		x.setHeap(st, h, nh)
	}
	return n
}

func (x *Exec) typeAssert(i *ssa.TypeAssert, v *Term, st *State) Val {
	t := i.AssertedType
	var ok *Term
	var r Val
	if types.IsInterface(t) {
		ok = x.implements(v, t)
		r = Val{v}
	} else {
		ok = Eq(itag(v), IntC(boxTag[x.boxName(t)]))
		r = x.unbox(t, v)
	}
	if !i.CommaOk {
		x.mayPanic(st, Not(ok), "interface conversion", x.pos(i.Pos()))
		return r
	}
	z := zeroVal(t)
	o := make(Val, len(r))
	for k := range r {
		o[k] = Ite(ok, r[k], z[k])
	}
	return append(o, ok)
}

func (x *Exec) implements(v *Term, it types.Type) *Term {
	iface := under(it).(*types.Interface)
	if v == NilIface {
		return False
	}
	if isBox(v) {
		return BoolC(types.Implements(x.boxT[v.Name], iface))
	}
	if v.Op == OIte {
		return Ite(v.Args[0], x.implements(v.Args[1], it), x.implements(v.Args[2], it))
	}
	if iface.Empty() {
		return Not(Eq(itag(v), IntC(0)))
	}
	return And(Not(Eq(itag(v), IntC(0))), App("ext!impl."+sanitize(typeKey(it)), SBool, itag(v)))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
