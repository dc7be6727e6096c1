package main

import (
	"fmt"
	"os"
	"slices"
	"strings"
	"time"
)

type splitNode struct {
	hs    []*Term
	rc    []int // which hypotheses describe the path
	tried map[*Term]bool
	r     result
	text  string
}

func (n *splitNode) isRC(i int) bool { return slices.Contains(n.rc, i) }

// flatConj lists the conjuncts of t.
func flatConj(t *Term) []*Term {
	switch {
	case t.Op == OAnd:
		var r []*Term
		for _, a := range t.Args {
			r = append(r, flatConj(a)...)
		}
		return r
	case t.Op == ONot && t.Args[0].Op == OOr:
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, flatConj(Not(a))...)
		}
		return r
	}
	return []*Term{t}
}

// pathSplit proves a query by case distinctions on the paths that lead to it,
// on boundaries of its bound variables, and on if-then-else conditions.
func (x *Exec) pathSplit(hs []*Term, ns []int, nrc int, to, bto time.Duration, rounds int) result {
	type node = splitNode
	rc0 := []int{}
	for i := max(0, len(hs)-1-nrc); i < len(hs)-1; i++ {
		rc0 = append(rc0, i)
	}
	nodes := []*node{{hs: hs, rc: rc0, tried: map[*Term]bool{}}}
	start := time.Now()
	total := time.Duration(0)
	if bs := boundarySplit(hs, nrc); len(bs) > 1 {
		done := make(chan int)
		nodes = nil
		for _, h := range bs {
			n := &node{hs: h, rc: rc0, tried: map[*Term]bool{}}
			nn := make([]int, len(h))
			for i := range nn {
				nn[i] = -1
			}
			n.text = x.emit(h, nn, false)
			nodes = append(nodes, n)
		}
		for _, n := range nodes {
			go func() {
				n.r = solvePortfolio(n.text, bto)
				done <- 1
			}()
		}
		for range nodes {
			<-done
		}
		var left []*node
		for i, n := range nodes {
			if os.Getenv("GOVER_DUMP") != "" && n.r.res != "unsat" {
				fmt.Fprintf(os.Stderr, "boundary case %d of %d: %s\n", i, len(nodes), n.r.res)
				os.WriteFile(fmt.Sprintf("/tmp/bnd%d_%d.smt2", len(hs), i), []byte(n.text), 0o644)
			}
			total += n.r.dur
			if n.r.res != "unsat" {
				left = append(left, n)
			}
		}
		if len(left) == 0 {
			return result{res: "unsat", solver: "boundary split + z3/cvc5", dur: total}
		}
		nodes = left
	}
	for round := 0; round < rounds; round++ {
		var next []*node
		for _, n := range nodes {
			if len(next) > 40 || time.Since(start) > 60*time.Second {
				return result{res: "unknown", solver: "split"}
			}
			// alternatives: the paths that lead here, else an if-then-else condition
			var alts [][]*Term
			drop := -1
			for i := len(n.hs) - 2; i >= 0 && i >= len(n.hs)-40; i-- {
				if h := n.hs[i]; h.Op == OOr && !hasQuant(h) && n.isRC(i) {
					for _, d := range h.Args {
						alts = append(alts, flatConj(d))
					}
					drop = i
				}
			}
			if alts == nil {
				c := splitCond(n.hs, n.tried)
				if c == nil {
					return result{res: "unknown", solver: "split"}
				}
				n.tried[c] = true
				alts = [][]*Term{{c}, {Not(c)}}
			}
			for _, lits := range alts {
				m := &node{tried: map[*Term]bool{}}
				for k := range n.tried {
					m.tried[k] = true
				}
				sub := map[*Term]*Term{}
				for _, l := range lits {
					if l.Op == ONot {
						sub[l.Args[0]] = False
					} else {
						sub[l] = True
						if nl := Not(l); nl.Op != ONot {
							sub[nl] = False
						}
					}
				}
				dead := false
				for i, h := range n.hs {
					if i == drop {
						continue
					}
					q := Subst(h, sub)
					if q == False {
						dead = true
						break
					}
					if i == len(n.hs)-1 {
						// the goal stays last
						for _, l := range lits {
							m.hs = append(m.hs, l)
							m.rc = append(m.rc, len(m.hs)-1)
						}
						if q == True {
							q = Not(False)
						}
					}
					if q != True || i == len(n.hs)-1 {
						for _, c := range conj(q) {
							m.hs = append(m.hs, c)
							if i < len(n.hs)-1 && n.isRC(i) {
								m.rc = append(m.rc, len(m.hs)-1)
							}
						}
					}
				}
				if dead {
					continue
				}
				nn := make([]int, len(m.hs))
				for i := range nn {
					nn[i] = -1
				}
				m.text = x.emit(m.hs, nn, false)
				next = append(next, m)
			}
		}
		done := make(chan int)
		for _, n := range next {
			go func() {
				if round >= rounds-2 {
					n.r = solvePortfolio(n.text, to)
				} else {
					n.r = solve1(n.text, 1500*time.Millisecond)
				}
				done <- 1
			}()
		}
		for range next {
			<-done
		}
		nodes = nil
		for _, n := range next {
			total += n.r.dur
			if n.r.res != "unsat" {
				nodes = append(nodes, n)
			}
		}
		if len(nodes) == 0 {
			return result{res: "unsat", solver: fmt.Sprintf("case split (%d rounds) + z3/cvc5", round+1), dur: total}
		}
		if len(nodes) > 48 || time.Since(start) > 90*time.Second {
			break
		}
	}
	return result{res: "unknown", solver: "split"}
}

// boundarySplit: a universally quantified goal over an integer with an upper
// bound is proved for the bound and for everything below it separately (the
// element a loop iteration has just added, and the earlier ones).
func boundarySplit(hs []*Term, nrc int) [][]*Term {
	g := hs[len(hs)-1]
	if g.Op == ONot && g.Args[0].Op == OForall {
		g = Exists(g.Args[0].Vars, Not(g.Args[0].Args[0]))
	}
	var sk, lits []*Term
	var cases [][]*Term
	if g.Op == OExists {
		sub := map[*Term]*Term{}
		for _, v := range g.Vars {
			s := Fresh("sk", v.Sort)
			sub[v] = s
			if v.Sort == SInt {
				sk = append(sk, s)
			}
		}
		lits = flatConj(Subst(g.Args[0], sub))
		cases = [][]*Term{append(append([]*Term{}, hs[:len(hs)-1]...), lits...)}
	} else {
		// an arbitrary constant of the specification
		lits = hs[len(hs)-1-nrc:]
		cases = [][]*Term{hs}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OSym && t.Sort == SInt && strings.HasPrefix(t.Name, "ext!uf.") {
				sk = append(sk, t)
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(g)
	}
	mentions := func(t *Term) bool {
		seen := map[*Term]bool{}
		var rec func(t *Term) bool
		rec = func(t *Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			for _, s := range sk {
				if t == s {
					return true
				}
			}
			for _, a := range t.Args {
				if rec(a) {
					return true
				}
			}
			return false
		}
		return rec(t)
	}
	for _, s := range sk {
		var b *Term
		for _, l := range lits {
			neg := l.Op == ONot
			if neg {
				l = l.Args[0]
			}
			if l.Op != OLe {
				continue
			}
			d := Sub(l.Args[1], l.Args[0])
			var up *Term
			if r := Add(d, s); !neg && !mentions(r) {
				up = r // d = r - s >= 0
			} else if r := Sub(d, s); neg && !mentions(r) {
				up = Sub(IntC(-1), r) // s + r <= -1
			}
			if up != nil && !up.isInt() && (b == nil || up.id < b.id) {
				b = up
			}
		}
		if b == nil {
			continue
		}
		var next [][]*Term
		for _, c := range cases {
			var at, below []*Term
			dead := false
			for _, h := range c {
				q := Subst(h, map[*Term]*Term{s: b})
				if q == False {
					dead = true
				}
				if q != True {
					at = append(at, conj(q)...)
				}
			}
			below = append(append(append(below, c[:len(c)-1]...), Le(s, Sub(b, IntC(1)))), c[len(c)-1])
			if !dead {
				next = append(next, at)
			}
			next = append(next, below)
		}
		cases = next
	}
	return cases
}

func (x *Exec) hypsForPath(nf int, rc, goal *Term, dead map[*Cand]bool) ([]*Term, []int, int) {
	type ent struct {
		t *Term
		c int
	}
	var all []ent
	for i := 0; i < nf; i++ {
		f := x.facts[i]
		if f.cand != nil && !f.cand.alive {
			continue
		}
		ci := -1
		if f.cand != nil {
			ci = f.cand.idx
		}
		all = append(all, ent{f.t, ci})
	}
	// cone of influence over non-hub symbols
	reach := map[*Term]bool{}
	add := func(t *Term) {
		for _, s := range x.symsOf(t) {
			reach[s] = true
		}
	}
	add(rc)
	add(goal)
	used := make([]bool, len(all))
	for ch := true; ch; {
		ch = false
		for i, e := range all {
			if used[i] {
				continue
			}
			ss := x.symsOf(e.t)
			hit := len(ss) == 0
			for _, s := range ss {
				if reach[s] && !x.hub(s) {
					hit = true
					break
				}
			}
			if !hit { // facts only about hubs
				only := true
				for _, s := range ss {
					if !x.hub(s) {
						only = false
						break
					}
				}
				hit = only
			}
			if hit {
				used[i] = true
				ch = true
				for _, s := range ss {
					reach[s] = true
				}
			}
		}
	}
	var hs []*Term
	var ns []int
	for i, e := range all {
		if used[i] {
			hs = append(hs, e.t)
			ns = append(ns, e.c)
		}
	}
	nrc := 0
	for _, c := range flatConj(rc) {
		if c != True {
			hs = append(hs, c)
			ns = append(ns, -1)
			nrc++
		}
	}
	var quant []*Term
	for _, c := range flatConj(Not(goal)) {
		if hasQuant(c) || goal.Op != OOr {
			quant = append(quant, c)
			continue
		}
		hs = append(hs, c)
		ns = append(ns, -1)
		nrc++
	}
	for _, c := range quant {
		hs = append(hs, c)
		ns = append(ns, -1)
	}
	if len(quant) == 0 {
		nrc-- // the last one counts as the goal
	}
	nrc += max(0, len(quant)-1)
	return hs, ns, nrc
}
