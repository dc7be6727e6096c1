package main

import "strings"

// trigger normalises a hypothesis before it is printed: quantifiers end up in
// universal position with explicit instantiation patterns whose integer
// variables occur bare (so that matching does not depend on arithmetic).

type trigKey struct {
	t   *Term
	pos bool
}

var trigMemo = map[trigKey]*Term{}
var hasQMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.Op == OForall || t.Op == OExists {
		return true
	}
	if len(t.Args) == 0 || t.Sort != SBool {
		return false
	}
	if r, ok := hasQMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	hasQMemo[t] = r
	return r
}

// trigger returns a term equivalent to t (pos) or to not t.
func trigger(t *Term, pos bool) *Term {
	if !hasQuant(t) {
		if pos {
			return t
		}
		return Not(t)
	}
	k := trigKey{t, pos}
	if r, ok := trigMemo[k]; ok {
		return r
	}
	var r *Term
	switch t.Op {
	case ONot:
		r = trigger(t.Args[0], !pos)
	case OAnd, OOr:
		var as []*Term
		for _, a := range t.Args {
			as = append(as, trigger(a, pos))
		}
		if (t.Op == OAnd) == pos {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case OEq:
		a, b := t.Args[0], t.Args[1]
		if a.Sort != SBool {
			r = t
			if !pos {
				r = Not(t)
			}
			break
		}
		if pos {
			r = And(Or(trigger(a, false), trigger(b, true)), Or(trigger(a, true), trigger(b, false)))
		} else {
			r = And(Or(trigger(a, true), trigger(b, true)), Or(trigger(a, false), trigger(b, false)))
		}
	case OIte:
		c := t.Args[0]
		r = And(Or(trigger(c, false), trigger(t.Args[1], pos)), Or(trigger(c, true), trigger(t.Args[2], pos)))
	case OForall, OExists:
		body := trigger(t.Args[0], pos)
		if (t.Op == OForall) == pos {
			r = universal(t.Vars, body, t.Pats)
		} else {
			r = Quant(OExists, t.Vars, body)
		}
	default:
		r = t
		if !pos {
			r = Not(t)
		}
	}
	trigMemo[k] = r
	return r
}

func dropFree(vars []*Term, body *Term) []*Term {
	var vs []*Term
	for _, v := range vars {
		if body.fv[v.id] != nil {
			vs = append(vs, v)
		}
	}
	return vs
}

type patCand struct {
	t     *Term
	shift map[*Term]*Term // var -> replacement making t's occurrences bare
	key   string
}

func universal(vars []*Term, body *Term, given [][]*Term) *Term {
	vars = dropFree(vars, body)
	if len(vars) == 0 {
		return body
	}
	vset := map[int]*Term{}
	for _, v := range vars {
		vset[v.id] = v
	}
	covers := func(t *Term) int {
		n := 0
		for i := range t.fv {
			if vset[i] != nil {
				n++
			}
		}
		return n
	}
	// other free bound variables (of enclosing quantifiers) are allowed as constants
	analyse := func(t *Term) *patCand {
		sh := map[*Term]*Term{}
		if !patOK(t, vset, sh) {
			return nil
		}
		pc := &patCand{t: t, shift: sh}
		var ks []string
		for _, v := range vars {
			if s := sh[v]; s != nil {
				ks = append(ks, s.String())
			} else {
				ks = append(ks, "-")
			}
		}
		pc.key = strings.Join(ks, "|")
		return pc
	}
	var cands []*patCand
	seen := map[*Term]bool{}
	var collect0, collect func(t *Term) bool // reports whether a candidate was found inside
	collect = func(t *Term) bool {
		if !t.bound || covers(t) == 0 {
			return false
		}
		if r, ok := seen[t]; ok {
			return r
		}
		r := collect0(t)
		seen[t] = r
		return r
	}
	collect0 = func(t *Term) bool {
		if t.Op == OForall || t.Op == OExists {
			collect(t.Args[0])
			return true
		}
		found := false
		full := covers(t) == len(vars)
		inner := false
		for _, a := range t.Args {
			if collect(a) {
				found = true
				if covers(a) == len(vars) {
					inner = true
				}
			}
		}
		if (t.Op == OSelect || t.Op == OApp && (!builtinApps[t.Name] || t.Name == "aid" || t.Name == "itag" || t.Name == "ftag") && !strings.HasPrefix(t.Name, "mkTup_")) && t.Sort != SBool || t.Op == OApp && !builtinApps[t.Name] || t.Op == OSelect {
			if full && inner {
				return true
			}
			// nested quantifier variables must not occur
			for i := range t.fv {
				if vset[i] == nil && !outerOK(t.fv[i], body) {
					return found
				}
			}
			if pc := analyse(t); pc != nil {
				cands = append(cands, pc)
				return true
			}
		}
		return found
	}
	if len(given) > 0 {
		ok := false
		for _, p := range given {
			if len(p) != 1 {
				return Quant(OForall, vars, body, given...)
			}
			if covers(p[0]) != len(vars) {
				continue
			}
			if pc := analyse(p[0]); pc != nil {
				cands = append(cands, pc)
				ok = true
			}
		}
		if !ok {
			collect(body)
		}
	} else {
		collect(body)
	}
	var full []*patCand
	for _, c := range cands {
		if covers(c.t) == len(vars) {
			full = append(full, c)
		}
	}
	weak := func(c *patCand) bool {
		return c.t.Op == OApp && (c.t.Name == "aid" || c.t.Name == "itag" || c.t.Name == "ftag") && vset[c.t.Args[0].id] != nil
	}
	var strong []*patCand
	for _, c := range full {
		if !weak(c) {
			strong = append(strong, c)
		}
	}
	if len(strong) > 0 {
		full = strong
	}
	if len(full) == 0 {
		if len(vars) == 1 {
			return Quant(OForall, vars, body)
		}
		// multi-pattern: greedy cover
		var pick []*Term
		cov := map[int]bool{}
		sh := map[*Term]*Term{}
		for _, c := range cands {
			nw := false
			for i := range c.t.fv {
				if vset[i] != nil && !cov[i] {
					nw = true
				}
			}
			if !nw {
				continue
			}
			bad := false
			for v, s := range c.shift {
				if o, ok := sh[v]; ok && o != s {
					bad = true
				}
			}
			for _, p := range pick {
				for i := range p.fv {
					if v := vset[i]; v != nil && c.t.fv[i] != nil && sh[v] != c.shift[v] {
						bad = true
					}
				}
			}
			if bad {
				continue
			}
			pick = append(pick, c.t)
			for v, s := range c.shift {
				sh[v] = s
			}
			for i := range c.t.fv {
				if vset[i] != nil {
					cov[i] = true
				}
			}
		}
		if len(cov) < len(vars) {
			return Quant(OForall, vars, body)
		}
		b := body
		var ps []*Term
		ps = append(ps, pick...)
		if len(sh) > 0 {
			b = Subst(body, sh)
			for i := range ps {
				ps[i] = Subst(ps[i], sh)
			}
		}
		return Quant(OForall, vars, b, ps)
	}
	// group by shift
	groups := map[string][]*patCand{}
	var order []string
	for _, c := range full {
		if groups[c.key] == nil {
			order = append(order, c.key)
		}
		groups[c.key] = append(groups[c.key], c)
	}
	var out []*Term
	for gi, k := range order {
		if gi >= 6 {
			break
		}
		g := groups[k]
		sh := g[0].shift
		b := body
		if len(sh) > 0 {
			b = Subst(body, sh)
		}
		var ps [][]*Term
		dup := map[*Term]bool{}
		for _, c := range g {
			p := c.t
			if len(sh) > 0 {
				p = Subst(p, sh)
			}
			if dup[p] || covers(p) != len(vars) || len(ps) >= 6 {
				continue
			}
			if !patOK(p, vset, map[*Term]*Term{}) {
				continue
			}
			dup[p] = true
			ps = append(ps, []*Term{p})
		}
		if len(ps) == 0 {
			continue
		}
		out = append(out, Quant(OForall, vars, b, ps...))
	}
	if len(out) == 0 {
		return Quant(OForall, vars, body)
	}
	return And(out...)
}

func outerOK(v *Term, body *Term) bool { return body.fv[v.id] != nil }

// patOK checks that t is usable as a pattern; arithmetic v+c at argument
// positions is recorded as a shift of v.
func patOK(t *Term, vset map[int]*Term, sh map[*Term]*Term) bool {
	has := false
	for i := range t.fv {
		if vset[i] != nil {
			has = true
		}
	}
	if !has {
		return patGround(t, map[*Term]bool{})
	}
	switch t.Op {
	case OBound:
		if s, ok := sh[t]; ok && s != t {
			return false
		}
		sh[t] = t
		return true
	case OSelect, OStore:
	case OApp:
		if builtinApps[t.Name] {
			switch t.Name {
			case "mk", "aid", "apath", "fld", "elm", "itag", "ftag", "root":
			default:
				return false
			}
		}
	case OAdd:
		var v *Term
		neg := false
		for i, a := range t.Args {
			if a.Op == OBound && vset[a.id] != nil {
				if v != nil {
					return false
				}
				c := t.Coef[i]
				if !c.IsInt64() || c.Int64() != 1 && c.Int64() != -1 {
					return false
				}
				neg = c.Int64() == -1
				v = a
			} else {
				for i := range a.fv {
					if vset[i] != nil {
						return false
					}
				}
			}
		}
		if v == nil {
			return false
		}
		var s *Term
		if neg { // t = c - v  =>  v := c - v'
			s = Sub(Add(t, v), v)
		} else {
			s = Sub(v, Sub(t, v))
		}
		if o, ok := sh[v]; ok && o != s {
			return false
		}
		sh[v] = s
		return true
	default:
		return false
	}
	for _, a := range t.Args {
		if !patOK(a, vset, sh) {
			return false
		}
	}
	return true
}

func patGround(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Op {
	case OIte, OForall, OExists, OAnd, OOr, ONot, OEq, OLe, OLt:
		return false
	}
	for _, a := range t.Args {
		if !patGround(a, seen) {
			return false
		}
	}
	return true
}
