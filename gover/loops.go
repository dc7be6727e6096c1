package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hvInfo struct {
	level int // 1 cells, 2 framed, 3 free
	addrs []*Term
	ids   []*Term
}

type loopVar struct {
	name  string
	t     types.Type
	cur   Val // header value
	entry Val
	back  Val
	phi   bool
}

func (x *Exec) invariantTerm(t *Term, mark int) bool {
	base := x.baseSet()
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OSym && t.id > mark && strings.Contains(t.Name, "!") && !base[t] && !strings.HasPrefix(t.Name, "ext!") && !strings.HasPrefix(t.Name, "logic!") {
			ok = false
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return ok
}
func (x *Exec) baseSet() map[*Term]bool {
	if len(x.baseCache) != len(x.base) {
		x.baseCache = map[*Term]bool{}
		for _, b := range x.base {
			x.baseCache[b] = true
		}
	}
	return x.baseCache
}

type loopRun struct {
	hdr    *State
	phiV   map[*ssa.Phi]Val
	backs  []edge
	syms   map[string]*Term // key -> heap symbol S
	allocS *Term
	iters  map[string]*Term
	nfHdr  int
}

func (x *Exec) runLoop(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, es []edge, order []*ssa.BasicBlock, emit func(from, to *ssa.BasicBlock, i int, st *State)) {
	for _, ins := range header.Instrs {
		_ = ins
	}
	key := fmt.Sprintf("%s@%s.L%d", fr.path, fr.fn.Name(), header.Index)
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	entry, conds := x.mergeStates(sts)
	if x.pure > 0 {
		fail("loop in a specification-only context: %s", fr.fn)
	}
	var phis []*ssa.Phi
	entryPhi := map[*ssa.Phi]Val{}
	for _, ins := range header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, x.val(fr, p.Edges[e.pred], e.st))
		}
		entryPhi[p] = mergeVals(conds, vs)
		phis = append(phis, p)
	}
	markT := termSeq
	hv := x.loopHvs[key]
	if hv == nil {
		hv = &loopHv{keys: map[string]*hvInfo{}, iters: map[string]bool{}}
		x.loopHvs[key] = hv
	}
	// addresses in a cached hv belong to an earlier entry state: recompute them
	for _, i := range hv.keys {
		i.addrs, i.ids = nil, nil
	}

	mkHeader := func() *loopRun {
		r := &loopRun{hdr: entry.clone(), phiV: map[*ssa.Phi]Val{}, syms: map[string]*Term{}, iters: map[string]*Term{}}
		if hv.alloc {
			r.allocS = NewAllocSym("A.l", entry.alloc)
			r.hdr.alloc = r.allocS
		}
		for _, k := range sortedKeys(hv.keys) {
			i := hv.keys[k]
			h := x.hinfo[k]
			s := x.newHeapSym(h, "l", r.hdr.alloc)
			r.syms[k] = s
			if i.level == 1 {
				t := x.heap(entry, h)
				for _, a := range i.addrs {
					t = Store(t, a, rawSelect(s, a))
				}
				r.hdr.heaps[k] = t
			} else {
				if i.level == 2 {
					heapFrame[s] = &frameInfo{x.heap(entry, h), append([]*Term(nil), i.ids...), append([]*Term(nil), i.addrs...), entry.alloc}
				}
				r.hdr.heaps[k] = s
			}
		}
		for _, k := range sortedKeys(hv.iters) {
			if e, ok := entry.iters[k]; ok {
				r.iters[k] = Fresh("it", e.Sort)
				r.hdr.iters[k] = r.iters[k]
			}
		}
		for _, p := range phis {
			var v Val
			for _, l := range layout(p.Type()) {
				n := p.Comment
				if n == "" {
					n = p.Name()
				}
				v = append(v, Fresh("v."+n, l.Sort))
			}
			r.phiV[p] = v
		}
		return r
	}
	headerFacts := func(r *loopRun) {
		if r.allocS != nil {
			x.fact(Le(entry.alloc, r.allocS))
		}
		for _, p := range phis {
			x.wf(r.hdr, p.Type(), r.phiV[p], r.hdr.alloc)
		}
		for _, k := range sortedKeys(hv.keys) {
			i := hv.keys[k]
			if i.level == 2 {
				h := x.hinfo[k]
				s := r.syms[k]
				a := FreshBound("a", SAddr)
				x.fact(Forall([]*Term{a}, Imp(x.frameCond(a, i, entry), Eq(Select(s, a), Select(x.heap(entry, h), a))), []*Term{rawSelect(s, a)}))
			}
		}
		for _, k := range sortedKeys(r.iters) {
			if r.iters[k].Sort == SInt {
				x.fact(Le(IntC(0), r.iters[k]))
			}
		}
	}
	runBody := func(r *loopRun, real bool) {
		for _, p := range phis {
			fr.vals[p] = r.phiV[p]
		}
		in := map[*ssa.BasicBlock][]edge{}
		st := r.hdr.clone()
		sink := func(from, to *ssa.BasicBlock, e edge) bool {
			if to == header {
				r.backs = append(r.backs, e)
				return true
			}
			if !body[to] {
				if real {
					// find succ index again
					n := 0
					for k, s := range from.Succs {
						if s == to {
							for pi, p := range to.Preds {
								_ = p
								if pi == e.pred {
									n = k
								}
							}
						}
					}
					emitExit(emit, from, to, n, e)
				}
				return true
			}
			return false
		}
		// header block first: run it directly (phis are already set)
		emit2 := func(from, to *ssa.BasicBlock, i int, s *State) {
			if s.rc == False {
				return
			}
			pi := predIndex(from, to, i)
			e := edge{pi, s}
			if sink(from, to, e) {
				return
			}
			in[to] = append(in[to], e)
		}
		x.runBlock(fr, header, st, emit2)
		var ord []*ssa.BasicBlock
		for _, b := range order {
			if b != header && body[b] {
				ord = append(ord, b)
			}
		}
		x.runBlocks(fr, ord, in, body, sink)
	}
	backVals := func(r *loopRun) (*State, map[*ssa.Phi]Val) {
		var bs []*State
		for _, e := range r.backs {
			bs = append(bs, e.st)
		}
		if len(bs) == 0 {
			return nil, nil
		}
		m, cs := x.mergeStates(bs)
		pv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			var vs []Val
			for _, e := range r.backs {
				vs = append(vs, x.val(fr, p.Edges[e.pred], e.st))
			}
			pv[p] = mergeVals(cs, vs)
		}
		return m, pv
	}

	// ---- discovery
	var r *loopRun
	for pass := 0; ; pass++ {
		if pass > 40 {
			fail("loop modification discovery does not converge in %s", fr.fn)
		}
		sv := x.save(fr)
		x.disc++
		r = mkHeader()
		headerFacts(r)
		w0 := len(x.writes)
		runBody(r, false)
		ws := append([]write(nil), x.writes[w0:]...)
		x.writes = x.writes[:w0]
		changed := false
		for _, w := range ws {
			if x.coverWrite(hv, w, entry, markT) {
				changed = true
			}
		}
		for _, e := range r.backs {
			if !hv.alloc && e.st.alloc != r.hdr.alloc {
				hv.alloc = true
				changed = true
			}
			for k, v := range e.st.iters {
				if ev, ok := r.hdr.iters[k]; ok && ev != v && !hv.iters[k] {
					hv.iters[k] = true
					changed = true
				}
			}
		}
		x.disc--
		if changed {
			x.restore(fr, sv)
			continue
		}
		if len(r.backs) == 0 {
			// no back edge is feasible: body runs at most once from entry
		}
		x.restore(fr, sv)
		break
	}
	// propagate writes to enclosing discovery
	for _, k := range sortedKeys(hv.keys) {
		i := hv.keys[k]
		for _, a := range i.addrs {
			x.logWrite(k, a)
		}
		for _, id := range i.ids {
			x.logWrite(k, Addr(id, Fresh("anypath", SPath)))
		}
		if i.level >= 2 {
			x.logWrite(k, Addr(entry.alloc, Root))
		}
		if i.level == 3 {
			x.logWrite(k, Addr(Fresh("anyid", SInt), Fresh("anypath", SPath)))
		}
	}
	lastBack, lastPhi := backVals(r)

	// ---- real pass with invariant candidates
	r2 := &loopRun{hdr: r.hdr, phiV: r.phiV, syms: r.syms, allocS: r.allocS, iters: r.iters}
	nfEntry := len(x.facts)
	headerFacts(r2)
	li := &LoopInst{key: key, pos: x.pos(header.Instrs[len(header.Instrs)-1].Pos())}
	var cands []*Cand
	if x.disc == 0 && lastBack != nil && !x.blur {
		mk := func(desc string, t *Term) {
			if t == True || t.bound || x.lean && !strings.Contains(desc, "template") && !strings.HasPrefix(desc, "unchanged") && !strings.HasPrefix(desc, "frame") && desc != "upper" && desc != "lower" {
				return
			}
			for _, c := range cands {
				if c.t == t {
					return
				}
			}
			c := &Cand{t: t, loop: li, desc: desc, alive: true}
			cands = append(cands, c)
		}
		for _, p := range phis {
			fr.vals[p] = r.phiV[p]
		}
		x.genCands(fr, header, body, entry, entryPhi, r2, lastBack, lastPhi, hv, phis, markT, mk)
		sub0 := x.headerSubst(r2, hv, entryPhi, entry)
		var keep []*Cand
		for _, c := range cands {
			g := Subst(c.t, sub0)
			if g == False && entry.rc == True || g == c.t && !strings.HasPrefix(c.desc, "lemma") {
				continue // false on entry, or nothing the loop changes
			}
			c.obs = append(c.obs, candOb{nfEntry, entry.rc, g, "entry"})
			keep = append(keep, c)
		}
		cands = keep
		for _, c := range cands {
			x.facts = append(x.facts, Fact{t: Imp(r2.hdr.rc, c.t), cand: c})
		}
	}
	runBody(r2, true)
	bst, bphi := backVals(r2)
	if bst != nil && len(cands) > 0 {
		sub := x.headerSubst(r2, hv, bphi, bst)
		for _, c := range cands {
			if b := Subst(c.t, sub); b != c.t {
				c.obs = append(c.obs, candOb{len(x.facts), bst.rc, b, "back"})
			}
		}
	}
	if x.disc == 0 {
		x.cands = append(x.cands, cands...)
		li.cand = cands
		x.loops = append(x.loops, li)
	}
}

// advances: v adds elements to the visited set vis
func advances(v, vis *Term) bool {
	if v == nil {
		return false
	}
	if v.Op == OStore && v.Args[0] == vis {
		return true
	}
	for _, a := range v.Args {
		if a.Sort == v.Sort && advances(a, vis) {
			return true
		}
	}
	return false
}

func emitExit(emit func(from, to *ssa.BasicBlock, i int, st *State), from, to *ssa.BasicBlock, n int, e edge) {
	// choose the successor index whose predecessor slot is e.pred
	for k, s := range from.Succs {
		if s == to && predIndex(from, to, k) == e.pred {
			emit(from, to, k, e.st)
			return
		}
	}
	emit(from, to, n, e.st)
}

func predIndex(from, to *ssa.BasicBlock, succIdx int) int {
	n := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

type loopHv struct {
	keys  map[string]*hvInfo
	iters map[string]bool
	alloc bool
}

type saved struct {
	obs, panics, cands, facts, loops, rets, marks int
}

func (x *Exec) save(fr *Frame) saved {
	return saved{len(x.obs), len(x.panics), len(x.cands), len(x.facts), len(x.loops), len(fr.rets), len(x.marks)}
}
func (x *Exec) restore(fr *Frame, s saved) {
	x.obs, x.panics, x.cands, x.facts, x.loops = x.obs[:s.obs], x.panics[:s.panics], x.cands[:s.cands], x.facts[:s.facts], x.loops[:s.loops]
	fr.rets, fr.retV = fr.rets[:s.rets], fr.retV[:s.rets]
	x.marks = x.marks[:s.marks]
}

func contains(ts []*Term, t *Term) bool {
	for _, q := range ts {
		if q == t {
			return true
		}
	}
	return false
}

// coverWrite makes hv cover write w; reports whether hv changed.
func (x *Exec) coverWrite(hv *loopHv, w write, entry *State, mark int) bool {
	i := hv.keys[w.key]
	if i == nil {
		i = &hvInfo{level: 1}
		hv.keys[w.key] = i
	}
	a := w.addr
	switch i.level {
	case 1:
		if contains(i.addrs, a) {
			return false
		}
		if x.invariantTerm(a, mark) {
			i.addrs = append(i.addrs, a)
			return true
		}
		i.level = 2
		x.coverWrite(hv, w, entry, mark)
		return true
	case 2:
		if contains(i.addrs, a) {
			return false
		}
		if x.invariantTerm(a, mark) {
			i.addrs = append(i.addrs, a)
			return true
		}
		return x.coverID(i, AddrID(a), entry, mark)
	}
	return false
}
func (x *Exec) coverID(i *hvInfo, id *Term, entry *State, mark int) bool {
	if id.Op == OIte {
		a := x.coverID(i, id.Args[1], entry, mark)
		b := x.coverID(i, id.Args[2], entry, mark)
		return a || b
	}
	if contains(i.ids, id) || allocGE(id, entry.alloc) {
		return false
	}
	if x.invariantTerm(id, mark) {
		i.ids = append(i.ids, id)
		return true
	}
	i.level = 3
	return true
}

func (x *Exec) frameCond(a *Term, i *hvInfo, entry *State) *Term {
	cs := []*Term{Lt(AddrID(a), entry.alloc)}
	for _, id := range i.ids {
		cs = append(cs, Not(Eq(AddrID(a), id)))
	}
	for _, ad := range i.addrs {
		if !contains(i.ids, AddrID(ad)) {
			cs = append(cs, Not(Eq(a, ad)))
		}
	}
	return And(cs...)
}

func (x *Exec) headerSubst(r *loopRun, hv *loopHv, phi map[*ssa.Phi]Val, st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for p, v := range r.phiV {
		nv := phi[p]
		for i := range v {
			m[v[i]] = nv[i]
		}
	}
	for k, s := range r.syms {
		i := hv.keys[k]
		now := x.heap(st, x.hinfo[k])
		if i.level == 1 {
			for _, a := range i.addrs {
				m[rawSelect(s, a)] = Select(now, a)
			}
		} else {
			m[s] = now
		}
	}
	if r.allocS != nil {
		m[r.allocS] = st.alloc
	}
	for k, t := range r.iters {
		if v, ok := st.iters[k]; ok {
			m[t] = v
		}
	}
	return m
}

// ---------- candidate generation

func (x *Exec) genCands(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State, entryPhi map[*ssa.Phi]Val, r *loopRun, back *State, backPhi map[*ssa.Phi]Val, hv *loopHv, phis []*ssa.Phi, mark int, mk func(string, *Term)) {
	var vars []loopVar
	for _, p := range phis {
		vars = append(vars, loopVar{name: p.Comment, t: p.Type(), cur: r.phiV[p], entry: entryPhi[p], back: backPhi[p], phi: true})
	}
	// cells written at loop-invariant addresses: single leaves
	type intv struct{ cur, entry, back *Term }
	var ints []intv
	var slices []loopVar
	hsyms := map[*Term]bool{}
	for _, s := range r.syms {
		hsyms[s] = true
	}
	for _, v := range vars {
		for i, l := range layout(v.t) {
			if l.Sort == SInt {
				ints = append(ints, intv{v.cur[i], v.entry[i], v.back[i]})
			}
			if l.Kind == "arr" {
				slices = append(slices, loopVar{cur: v.cur[i : i+4], entry: v.entry[i : i+4], back: v.back[i : i+4], t: l.T})
			}
		}
	}
	var cells []intv
	for _, k := range sortedKeys(hv.keys) {
		i := hv.keys[k]
		h := x.hinfo[k]
		for _, a := range i.addrs {
			c := intv{Select(x.heap(r.hdr, h), a), Select(x.heap(entry, h), a), Select(x.heap(back, h), a)}
			cells = append(cells, c)
			if c.cur.Sort == SInt {
				ints = append(ints, c)
			}
			if h.leaf.Kind == "arr" && h.group != "" && !strings.HasPrefix(h.group, "map") {
				sl := loopVar{t: h.leaf.T}
				ok := true
				for _, sfx := range []string{".arr", ".off", ".len", ".cap"} {
					h2 := x.hinfo[h.group+sfx]
					if h2 == nil {
						ok = false
						break
					}
					sl.cur = append(sl.cur, Select(x.heap(r.hdr, h2), a))
					sl.entry = append(sl.entry, Select(x.heap(entry, h2), a))
					sl.back = append(sl.back, Select(x.heap(back, h2), a))
				}
				if ok {
					slices = append(slices, sl)
				}
			}
		}
	}
	// unchanged variables
	for _, v := range vars {
		for i := range v.cur {
			if v.back[i] == v.cur[i] {
				mk("unchanged", Eq(v.cur[i], v.entry[i]))
			}
		}
	}
	for _, c := range cells {
		if c.back == c.cur {
			mk("unchanged cell", Eq(c.cur, c.entry))
		}
	}
	// integers
	delta := func(v intv) (lo, hi *Term) { // constant delta range
		var rec func(t *Term) (int64, int64, bool)
		rec = func(t *Term) (int64, int64, bool) {
			if t.Op == OIte {
				a, b, ok := rec(t.Args[1])
				c, d, ok2 := rec(t.Args[2])
				if !ok || !ok2 {
					return 0, 0, false
				}
				return min(a, c), max(b, d), true
			}
			d := Sub(t, v.cur)
			if d.isInt() && d.I.IsInt64() {
				return d.I.Int64(), d.I.Int64(), true
			}
			return 0, 0, false
		}
		a, b, ok := rec(v.back)
		if !ok {
			return nil, nil
		}
		return IntC(a), IntC(b)
	}
	var dvs []ivar
	for _, v := range ints {
		lo, hi := delta(v)
		if lo == nil {
			mk("lower", Le(v.entry, v.cur))
			continue
		}
		l, h := lo.I.Int64(), hi.I.Int64()
		dvs = append(dvs, ivar{v.cur, v.entry, v.back, l, h})
		if l == 0 && h == 0 {
			continue
		}
		if l >= 0 {
			mk("lower", Le(v.entry, v.cur))
		}
		if h <= 0 {
			mk("upper", Le(v.cur, v.entry))
		}
	}
	for i, a := range dvs {
		for j, b := range dvs {
			if i == j || a.lo == 0 && a.hi == 0 || b.lo == 0 && b.hi == 0 {
				continue
			}
			// a-ea vs b-eb when both have fixed step
			if a.lo == a.hi && b.lo == b.hi && i < j {
				mk("lockstep", Eq(Mul(IntC(b.lo), Sub(a.cur, a.entry)), Mul(IntC(a.lo), Sub(b.cur, b.entry))))
			}
			if a.lo >= 0 && b.lo == b.hi && a.hi > a.lo && a.hi <= b.lo && b.lo == 1 {
				mk("slower", Le(Sub(a.cur, a.entry), Sub(b.cur, b.entry)))
			}
		}
	}
	// bounds from conditions in the loop
	var conds []*Term
	for _, b := range order(body, fr.rpo) {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := fr.vals[iff.Cond]; ok {
				conds = append(conds, v[0])
			}
		}
	}
	intSet := map[*Term]bool{}
	for _, v := range ints {
		intSet[v.cur] = true
	}
	phiSet := map[*Term]bool{}
	for _, v := range vars {
		for _, t := range v.cur {
			phiSet[t] = true
		}
	}
	for _, c := range cells {
		phiSet[c.cur] = true
	}
	for _, c := range conds {
		for _, at := range atoms(c) {
			if at.Op != OLe && at.Op != OLt {
				continue
			}
			if !x.loopStable(at, mark, phiSet, hsyms) {
				continue
			}
			if at.Op == OLt {
				mk("bound", Le(at.Args[0], at.Args[1]))
				mk("bound", at)
				mk("bound", Le(at.Args[1], at.Args[0]))
			} else {
				mk("bound", Le(at.Args[0], Add(at.Args[1], IntC(1))))
				mk("bound", at)
				mk("bound", Le(at.Args[1], Add(at.Args[0], IntC(1))))
			}
		}
	}
	for _, v := range ints {
		mk("nonneg", Le(IntC(0), v.cur))
	}
	// slices: ownership
	for _, s := range slices {
		if s.cur[0] == s.back[0] {
			continue
		}
		own := Le(entry.alloc, AddrID(s.cur[0]))
		empty := Eq(s.cur[3], IntC(0))
		same := Eq(s.cur[0], s.entry[0])
		mk("own", Or(own, empty))
		mk("own", Or(own, empty, same))
		mk("own", Or(own, same))
		mk("off0", Eq(s.cur[1], s.entry[1]))
		mk("off0", Or(Eq(s.cur[1], IntC(0)), And(same, Eq(s.cur[1], s.entry[1]))))
		mk("nonnil", Not(IsNil(s.cur[0])))
		mk("lencap", Le(s.cur[2], s.cur[3]))
		mk("rootpath", Or(Eq(AddrPath(s.cur[0]), Root), same))
	}
	// frames of freely modified heaps
	for _, k := range sortedKeys(hv.keys) {
		i := hv.keys[k]
		if i.level != 3 {
			continue
		}
		h := x.hinfo[k]
		now, old := x.heap(r.hdr, h), x.heap(entry, h)
		frame := func(desc string, extra []*Term, lo *Term) {
			a := FreshBound("a", SAddr)
			cs := []*Term{}
			if lo != nil {
				cs = append(cs, Lt(AddrID(a), lo))
			}
			for _, id := range i.ids {
				cs = append(cs, Not(Eq(AddrID(a), id)))
			}
			for _, ad := range i.addrs {
				cs = append(cs, Not(Eq(a, ad)))
			}
			for _, e := range extra {
				cs = append(cs, Not(Eq(AddrID(a), e)))
			}
			mk(desc, Forall([]*Term{a}, Imp(And(cs...), Eq(Select(now, a), Select(old, a))), []*Term{rawSelect(now, a)}))
		}
		frame("frame", nil, entry.alloc)
		// objects older than the enclosing call or the contract
		older := append([]*State{fr.entry}, x.marks...)
		for _, m := range older {
			if m.alloc == entry.alloc {
				continue
			}
			a := FreshBound("a", SAddr)
			mk("frame older", Forall([]*Term{a}, Imp(Lt(AddrID(a), m.alloc), Eq(Select(now, a), Select(x.heap(m, h), a))), []*Term{rawSelect(now, a)}))
		}
		var ex []*Term
		for _, s := range slices {
			id := AddrID(s.entry[0])
			if !contains(ex, id) && !(id.isInt() && id.I.Sign() == 0) {
				ex = append(ex, id)
			}
		}
		if len(ex) > 0 {
			frame("frame\\slices", ex, entry.alloc)
		}
		// prefix of entry slices preserved
		for _, s := range slices {
			if s.t == nil {
				continue
			}
			et := under(s.t).(*types.Slice).Elem()
			for _, l := range layout(et) {
				if l.Key != k {
					continue
				}
				j := FreshBound("j", SInt)
				at := addPath(AElm(s.cur[0], Add(s.cur[1], j)), l.Path)
				at0 := addPath(AElm(s.entry[0], Add(s.entry[1], j)), l.Path)
				if !(s.entry[2].isInt() && s.entry[2].I.Sign() == 0) {
					mk("prefix", Forall([]*Term{j}, Imp(And(Le(IntC(0), j), Lt(j, s.entry[2])), Eq(Select(now, at), Select(old, at0))), []*Term{rawSelect(now, at)}))
				}
			}
		}
	}
	// stores generalised over the index: H[addr(p)] = val(p) for all earlier p
	x.genStores(fr, entry, r, back, hv, dvs, phiSet, hsyms, mark, slices, mk)
	// conditions that held in every completed iteration
	hc := map[*Term]bool{}
	for _, c := range conj(r.hdr.rc) {
		hc[c] = true
	}
	for _, d := range dvs {
		if d.lo != d.hi || (d.lo != 1 && d.lo != -1) {
			continue
		}
		for _, c := range conj(back.rc) {
			if hc[c] || !containsAny(c, map[*Term]bool{d.cur: true}) {
				continue
			}
			if !x.loopStable(c, mark, map[*Term]bool{d.cur: true}, hsyms) {
				continue
			}
			j := FreshBound("j", SInt)
			body := Subst(c, map[*Term]*Term{d.cur: j})
			var rng *Term
			if d.lo == 1 {
				rng = And(Le(d.entry, j), Lt(j, d.cur))
			} else {
				rng = And(Lt(d.cur, j), Le(j, d.entry))
			}
			mk("history", Forall([]*Term{j}, Imp(rng, body)))
		}
	}
	// map iteration
	for _, it := range fr.iter {
		vis, ok := r.iters[it.key]
		if !ok || it.isStr {
			continue
		}
		ks := keySort(it.mt.Key())
		kb := FreshBound("k", ks)
		mk("visited in domain", Forall([]*Term{kb}, Imp(Select(vis, kb), Select(it.dom0, kb)), []*Term{rawSelect(vis, kb)}))
		bv := back.iters[it.key]
		var key *Term
		var find func(t *Term)
		find = func(t *Term) {
			if t.Op == OStore && t.Args[0] == vis {
				key = t.Args[1]
			}
			for _, a := range t.Args {
				find(a)
			}
		}
		if bv != nil {
			find(bv)
		}
		if key == nil {
			continue
		}
		for _, c := range conj(back.rc) {
			if hc[c] || !containsAny(c, map[*Term]bool{key: true}) || !x.loopStable(c, mark, map[*Term]bool{key: true}, hsyms) {
				continue
			}
			if containsAny(c, map[*Term]bool{vis: true}) {
				continue
			}
			k2 := FreshBound("k", ks)
			mk("history", Forall([]*Term{k2}, Imp(Select(vis, k2), Subst(c, map[*Term]*Term{key: k2})), []*Term{rawSelect(vis, k2)}))
		}
		// cells written per key: generalise H[addr(key)] = val(key)
		x.genMapStores(fr, r, back, hv, vis, key, ks, mark, hsyms, mk)
	}
	// templates
	x.templates(fr, header, r, back, vars, mark, mk)
}

type ivar struct {
	cur, entry, back *Term
	lo, hi           int64
}

// storesOver collects the (guard, addr, value) updates from base to now.
type upd struct{ g, a, v *Term }

func updates(now, base *Term, g *Term, out *[]upd) bool {
	if now == base {
		return true
	}
	switch now.Op {
	case OStore:
		*out = append(*out, upd{g, now.Args[1], now.Args[2]})
		return updates(now.Args[0], base, g, out)
	case OIte:
		a := updates(now.Args[1], base, And(g, now.Args[0]), out)
		b := updates(now.Args[2], base, And(g, Not(now.Args[0])), out)
		return a && b
	}
	return false
}

func (x *Exec) genStores(fr *Frame, entry *State, r *loopRun, back *State, hv *loopHv, dvs []ivar, phiSet map[*Term]bool, hsyms map[*Term]bool, mark int, slices []loopVar, mk func(string, *Term)) {
	for _, k := range sortedKeys(hv.keys) {
		i := hv.keys[k]
		if i.level < 2 {
			continue
		}
		h := x.hinfo[k]
		hdr := r.syms[k]
		var us []upd
		updates(x.heap(back, h), hdr, True, &us)
		for _, u := range us {
			for _, d := range dvs {
				if d.lo != d.hi || d.lo != 1 {
					continue
				}
				only := map[*Term]bool{d.cur: true}
				if !containsAny(u.a, only) {
					continue
				}
				// value may read the current heaps at entry-stable places
				val := u.v
				if !x.loopStable(u.a, mark, phiSet, hsyms) || !x.loopStable(val, mark, phiSet, hsyms) || !x.loopStable(u.g, mark, phiSet, hsyms) {
					continue
				}
				j := FreshBound("j", SInt)
				sub := map[*Term]*Term{d.cur: j}
				at := Subst(u.a, sub)
				sv := Subst(val, sub)
				g := Subst(u.g, sub)
				rng := And(Le(d.entry, j), Lt(j, d.cur))
				mk("stored", Forall([]*Term{j}, Imp(And(rng, g), Eq(Select(hdr, at), sv)), []*Term{rawSelect(hdr, at)}))
				// with the value read from the entry heap
				se := map[*Term]*Term{d.cur: j}
				for kk, s := range r.syms {
					if hv.keys[kk].level >= 2 {
						se[s] = x.heap(entry, x.hinfo[kk])
					}
				}
				sv2 := Subst(val, se)
				if sv2 != sv {
					mk("stored(entry)", Forall([]*Term{j}, Imp(And(rng, g), Eq(Select(hdr, at), sv2)), []*Term{rawSelect(hdr, at)}))
				}
				// cells not yet reached keep their entry value
				mk("untouched", Forall([]*Term{j}, Imp(Le(d.cur, j), Eq(Select(hdr, at), Select(x.heap(entry, h), at))), []*Term{rawSelect(hdr, at)}))
			}
		}
	}
	// appended elements: s' = append(s, v(p)) once per iteration
	for _, s := range slices {
		if s.t == nil || s.back[0] == s.cur[0] && s.back[2] == s.cur[2] {
			continue
		}
		grow := Sub(s.back[2], s.cur[2])
		if !grow.isInt() || grow.I.Int64() != 1 {
			continue
		}
		et := under(s.t).(*types.Slice).Elem()
		for _, d := range dvs {
			if d.lo != 1 || d.hi != 1 {
				continue
			}
			for _, l := range layout(et) {
				h := x.hinfo[l.Key]
				if h == nil || r.syms[l.Key] == nil {
					continue
				}
				nv := x.appended[appKey{s.back[0], l.Key, fmt.Sprint(l.Path)}]
				if nv == nil || !x.loopStable(nv, mark, phiSet, hsyms) {
					continue
				}
				j := FreshBound("j", SInt)
				hdr := x.heap(r.hdr, h)
				at := addPath(AElm(s.cur[0], Add(s.cur[1], Add(s.entry[2], Sub(j, d.entry)))), l.Path)
				rng := And(Le(d.entry, j), Lt(j, d.cur))
				for _, useEntry := range []bool{false, true} {
					sub := map[*Term]*Term{d.cur: j}
					if useEntry {
						for kk, sy := range r.syms {
							if hv.keys[kk].level >= 2 {
								sub[sy] = x.heap(entry, x.hinfo[kk])
							}
						}
					}
					mk("appended", Forall([]*Term{j}, Imp(rng, Eq(Select(hdr, at), Subst(nv, sub)))))
				}
			}
		}
	}
}

type appKey struct {
	arr *Term
	key string
	pth string
}

func (x *Exec) genMapStores(fr *Frame, r *loopRun, back *State, hv *loopHv, vis, key *Term, ks Sort, mark int, hsyms map[*Term]bool, mk func(string, *Term)) {
	only := map[*Term]bool{key: true}
	for _, k := range sortedKeys(hv.keys) {
		i := hv.keys[k]
		h := x.hinfo[k]
		for _, a := range i.addrs {
			// map row at a: store(row, key, v)
			if _, _, ok := splitArr(h.valS); !ok {
				continue
			}
			cur := Select(x.heap(r.hdr, h), a)
			now := Select(x.heap(back, h), a)
			var us []upd
			if !updates(now, cur, True, &us) {
				continue
			}
			for _, u := range us {
				if u.a != key || !x.loopStable(u.v, mark, only, hsyms) || !x.loopStable(u.g, mark, only, hsyms) {
					continue
				}
				kb := FreshBound("k", ks)
				sub := map[*Term]*Term{key: kb}
				mk("map stored", Forall([]*Term{kb}, Imp(And(Select(vis, kb), Subst(u.g, sub)), Eq(Select(cur, kb), Subst(u.v, sub))), []*Term{rawSelect(vis, kb)}))
				mk("map untouched", Forall([]*Term{kb}, Imp(Not(Select(vis, kb)), Eq(Select(cur, kb), Select(Subst(cur, nil), kb))), []*Term{rawSelect(vis, kb)}))
			}
		}
	}
}

func order(body map[*ssa.BasicBlock]bool, rpo []*ssa.BasicBlock) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, b := range rpo {
		if body[b] {
			r = append(r, b)
		}
	}
	return r
}

func atoms(c *Term) []*Term {
	switch c.Op {
	case OAnd, OOr, ONot:
		var r []*Term
		for _, a := range c.Args {
			r = append(r, atoms(a)...)
		}
		return r
	case OIte:
		if c.Sort == SBool {
			var r []*Term
			for _, a := range c.Args {
				r = append(r, atoms(a)...)
			}
			return r
		}
	}
	return []*Term{c}
}

// loopStable: all symbols of t predate the loop or are in allow (or header heaps)
func (x *Exec) loopStable(t *Term, mark int, allow, hs map[*Term]bool) bool {
	base := x.baseSet()
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if allow[t] || hs[t] {
			return
		}
		if t.Op == OSym && t.id > mark && strings.Contains(t.Name, "!") && !base[t] && !strings.HasPrefix(t.Name, "ext!") && !strings.HasPrefix(t.Name, "logic!") {
			ok = false
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return ok
}

// ---------- templates: user-supplied invariants

func (x *Exec) templates(fr *Frame, header *ssa.BasicBlock, r *loopRun, back *State, vars []loopVar, mark int, mk func(string, *Term)) {
	key := fnKey(fr.fn)
	ts := append(append([]*ssa.Function{}, x.invs["*"]...), x.invs[key]...)
	p := fr.fn
	for p.Parent() != nil {
		p = p.Parent()
		ts = append(ts, x.invs[fnKey(p)]...)
	}
	if len(ts) == 0 {
		return
	}
	type lv struct {
		name string
		t    types.Type
		v    Val
	}
	var live []lv
	for _, v := range vars {
		live = append(live, lv{v.name, v.t, v.cur})
	}
	for _, p := range fr.fn.Params {
		live = append(live, lv{p.Name(), p.Type(), fr.vals[p]})
	}
	// values captured by closures and address-taken locals: current contents
	addCell := func(name string, pt types.Type, a *Term) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok {
					panic(e)
				}
			}
		}()
		t := deref(pt)
		if c, ok := r.hdr.final[a]; ok {
			live = append(live, lv{name, t, c})
			return
		}
		live = append(live, lv{name, t, x.Load(r.hdr, t, a)})
	}
	for _, fv := range fr.fn.FreeVars {
		live = append(live, lv{fv.Name(), fv.Type(), fr.vals[fv]})
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			addCell(fv.Name(), fv.Type(), fr.vals[fv][0])
		}
	}
	for _, b := range fr.rpo {
		if b == header || !b.Dominates(header) {
			continue
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Alloc:
				if v, ok := fr.vals[i]; ok && i.Comment != "" {
					addCell(i.Comment, i.Type(), v[0])
					live = append(live, lv{i.Comment, i.Type(), v})
				}
			case *ssa.Phi:
				if v, ok := fr.vals[i]; ok {
					live = append(live, lv{i.Comment, i.Type(), v})
				}
			case *ssa.Call:
				if v, ok := fr.vals[i]; ok {
					if _, tup := i.Type().(*types.Tuple); !tup {
						live = append(live, lv{"", i.Type(), v})
					}
				}
			case *ssa.Extract:
				if v, ok := fr.vals[i]; ok {
					live = append(live, lv{"", i.Type(), v})
				}
			case *ssa.UnOp:
				if v, ok := fr.vals[i]; ok && i.Op == token.MUL {
					if _, sl := i.Type().Underlying().(*types.Slice); sl {
						live = append(live, lv{"", i.Type(), v})
					}
				}
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Slice:
				if v, ok := fr.vals[ins.(ssa.Value)]; ok {
					live = append(live, lv{"", ins.(ssa.Value).Type(), v})
				}
			}
		}
	}
	depth := 0
	for _, body := range fr.loops {
		if body[header] {
			depth++
		}
	}
	for _, tf := range ts {
		if d := x.invDepth[tf]; d != 0 && d != depth {
			continue
		}
		fn := tf
		if fn.Signature.TypeParams() != nil && fr.fn.Origin() != nil {
			fn = x.instance(tf, fr.fn.TypeArgs())
			if fn == nil {
				continue
			}
		}
		var opts [][]Val
		total := 1
		for _, p := range fn.Params {
			var named, all []Val
			seen := map[string]bool{}
			for _, l := range live {
				if !sameType(l.t, p.Type()) {
					continue
				}
				k := fmt.Sprint(l.v)
				if l.name == p.Name() {
					named = append(named, l.v)
				}
				if !seen[k] {
					all = append(all, l.v)
					seen[k] = true
				}
			}
			o := all
			if len(named) > 0 {
				o = named[:1]
			}
			if on, ok := strings.CutPrefix(p.Name(), "outer_"); ok {
				// the loop variable of that name of the innermost enclosing loop
				o = nil
				for _, b := range fr.rpo {
					if b == header || !fr.loops[b][header] {
						continue
					}
					for _, ins := range b.Instrs {
						if i, ok := ins.(*ssa.Phi); ok && i.Comment == on && sameType(i.Type(), p.Type()) {
							o = []Val{fr.vals[i]}
						}
					}
				}
			}
			opts = append(opts, o)
			total *= len(o)
		}
		if os.Getenv("GOVER_TPL") != "" {
			n := []int{}
			for _, o := range opts {
				n = append(n, len(o))
			}
			fmt.Fprintln(os.Stderr, "template", fn.Name(), key, depth, n)
		}
		if total == 0 || total > 400 {
			continue
		}
		idx := make([]int, len(opts))
		x.curVis = nil
		for _, it := range fr.iter {
			if vis, ok := r.iters[it.key]; ok && !it.isStr && advances(back.iters[it.key], vis) {
				x.curVis, x.curDom = vis, it.dom0
			}
		}
		for {
			var args []Val
			for i := range opts {
				args = append(args, opts[i][idx[i]])
			}
			v, _ := x.runPure(fn, args, r.hdr)
			for _, c := range conj(v[0]) {
				if x.invLemma[fn] {
					mk("lemma template "+fn.Name(), c)
				} else {
					mk("template "+fn.Name(), c)
				}
			}
			k := 0
			for k < len(idx) {
				idx[k]++
				if idx[k] < len(opts[k]) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == len(idx) {
				break
			}
		}
	}
}

func (x *Exec) runInit(ini *ssa.Function, st *State, path string) (Val, *State, bool) {
	if ini == nil {
		fail("no init function")
	}
	x.initMode = true
	defer func() { x.initMode = false }()
	// the init guard starts false
	if g, ok := ini.Pkg.Members["init$guard"].(*ssa.Global); ok {
		x.StoreVal(st, types.Typ[types.Bool], x.globalAddr(g), Val{False})
	}
	_, s := x.runFunc(ini, nil, nil, st, path+"/init")
	return nil, s, true
}

// allInst lists the instantiations of generic function g known to the program.
func (x *Exec) allInst(g *ssa.Function) []*ssa.Function {
	if r, ok := x.insts[g]; ok {
		return r
	}
	var r []*ssa.Function
	for f := range allFunctions(x.ld) {
		if f.Origin() == g {
			r = append(r, f)
		}
	}
	x.insts[g] = r
	return r
}
