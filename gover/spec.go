package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Directive struct {
	kind string
	arg  string
	opts map[string]string
	fn   *ssa.Function
	pkg  string
	pos  string
}

type Spec struct {
	ld     *Loaded
	dirs   []*Directive
	byK    map[string]*ssa.Function // full and short keys
	keyErr []string
	only   string // the property being checked: assertions tagged for others are left out
}

func shortKey(fn *ssa.Function) string {
	s := fnKey(fn)
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		s = strings.ReplaceAll(s, f.Pkg.Pkg.Path()+".", f.Pkg.Pkg.Name()+".")
	}
	return s
}

func LoadSpec(ld *Loaded) (*Spec, error) {
	sp := &Spec{ld: ld, byK: map[string]*ssa.Function{}}
	for path, p := range ld.Pkgs {
		if !p.Body {
			continue
		}
		for _, f := range p.Files {
			fn := ld.Fset.Position(f.Package).Filename
			base := filepath.Base(fn)
			if !strings.HasPrefix(base, "zz_verif") && path != vsPath {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//gover:") {
						continue
					}
					rest := strings.TrimSpace(c.Text[len("//gover:"):])
					kind, arg, _ := strings.Cut(rest, " ")
					dr := &Directive{kind: kind, arg: strings.TrimSpace(arg), opts: map[string]string{}, pkg: path, pos: ld.Fset.Position(fd.Pos()).String()}
					sf := ld.SSA[path].Func(fd.Name.Name)
					if sf == nil {
						return nil, fmt.Errorf("%s: directive on method or missing function %s", dr.pos, fd.Name.Name)
					}
					dr.fn = sf
					sp.dirs = append(sp.dirs, dr)
				}
			}
		}
	}
	sort.Slice(sp.dirs, func(i, j int) bool {
		a, b := sp.dirs[i], sp.dirs[j]
		if a.pkg != b.pkg {
			return a.pkg < b.pkg
		}
		return a.fn.Pos() < b.fn.Pos()
	})
	return sp, nil
}

// parse "a b=c d" where the first words without '=' are flags
func parseOpts(s string) (words []string, opts map[string]string) {
	opts = map[string]string{}
	for _, w := range strings.Fields(s) {
		if k, v, ok := strings.Cut(w, "="); ok && !strings.ContainsAny(k, "(.") {
			opts[k] = v
		} else {
			words = append(words, w)
		}
	}
	return
}

type ProveFn struct {
	fn       *ssa.Function
	pkg      string
	props    []string
	flags    map[string]bool
	use      []string
	opts     map[string]string
	contract string // target key when a contract
}

func (sp *Spec) resolve(key string) string {
	short := map[string]bool{}
	for f := range allFunctions(sp.ld) {
		if fnKey(f) == key {
			return key
		}
		if shortKey(f) == key {
			short[fnKey(f)] = true
		}
	}
	if len(short) > 1 {
		fail("ambiguous function name %s: %v", key, sortedKeys(short))
	}
	for k := range short {
		return k
	}
	return ""
}

func (sp *Spec) Proves() []*ProveFn {
	var r []*ProveFn
	for _, d := range sp.dirs {
		if d.kind != "prove" && d.kind != "contract" {
			continue
		}
		words, opts := parseOpts(d.arg)
		p := &ProveFn{fn: d.fn, pkg: d.pkg, flags: map[string]bool{}, opts: opts}
		if u := opts["use"]; u != "" {
			p.use = strings.Split(u, ",")
		}
		if d.kind == "prove" {
			p.props = strings.Split(words[0], ",")
			words = words[1:]
		} else {
			p.contract = words[0]
			words = words[1:]
			if pr := opts["props"]; pr != "" {
				p.props = strings.Split(pr, ",")
			}
		}
		for _, w := range words {
			p.flags[w] = true
		}
		r = append(r, p)
	}
	return r
}

var resolveCache = map[string]string{}

func (sp *Spec) key(k string) string {
	if r, ok := resolveCache[k]; ok {
		return r
	}
	r := sp.resolve(k)
	if r == "" {
		r = k
	}
	resolveCache[k] = r
	return r
}

func (sp *Spec) NewExec(p *ProveFn) *Exec {
	x := NewExec(sp.ld)
	x.sp = sp
	applies := func(d *Directive) bool {
		_, o := parseOpts(d.arg)
		f := o["for"]
		if f == "" {
			return true
		}
		for _, n := range strings.Split(f, ",") {
			if pre, ok := strings.CutSuffix(n, "*"); ok && strings.HasPrefix(p.fn.Name(), pre) {
				return true
			}
			if p.fn.Name() == n || d.pkg == p.pkg && n == "pkg" {
				return true
			}
		}
		return false
	}
	strip := func(d *Directive) string {
		var w []string
		for _, f := range strings.Fields(d.arg) {
			if !strings.HasPrefix(f, "for=") && !strings.HasPrefix(f, "props=") && !strings.HasPrefix(f, "use=") && !strings.HasPrefix(f, "depth=") && !strings.HasPrefix(f, "lemma=") {
				w = append(w, f)
			}
		}
		return strings.Join(w, " ")
	}
	for _, d := range sp.dirs {
		if !applies(d) {
			continue
		}
		arg := strip(d)
		switch d.kind {
		case "stub":
			if d.fn.Signature.TypeParams() != nil {
				x.gstubs[sp.key(arg)] = d.fn
			} else {
				k := sp.key(arg)
				if o := x.stubs[k]; o != nil && d.pkg != p.pkg {
					continue
				}
				x.stubs[k] = d.fn
				const ti, tsh = "github.com/microsoft/typescript-go/internal/", "github.com/microsoft/typescript-go/shim/"
				if r, ok := strings.CutPrefix(k, ti); ok {
					x.stubs[tsh+r] = d.fn
				} else if r, ok := strings.CutPrefix(k, tsh); ok {
					x.stubs[ti+r] = d.fn
				}
			}
		case "inv":
			k := sp.key(arg)
			x.invs[k] = append(x.invs[k], d.fn)
			if _, o := parseOpts(d.arg); o["depth"] != "" {
				x.invDepth[d.fn], _ = strconv.Atoi(o["depth"])
			}
			if _, o := parseOpts(d.arg); o["lemma"] != "" {
				x.invLemma[d.fn] = true
			}
		case "recursive":
			if d.pkg == p.pkg {
				x.recs[sp.key(arg)] = d.fn
			}
		case "dyncall":
			if d.pkg == p.pkg {
				x.dyncall = append(x.dyncall, d.fn)
			}
		case "logic":
			x.logics[d.fn] = true
			for _, f := range x.allInst(d.fn) {
				x.logics[f] = true
			}
		case "noeffect":
			x.noEffect[sp.key(arg)] = true
		case "noinline":
			x.noInline[sp.key(arg)] = true
		case "contract":
			w := strings.Fields(arg)
			// several contracts of one function: the one to be used, or being verified
			if k := sp.key(w[0]); x.contr[k] == nil || slices.Contains(p.use, d.fn.Name()) || d.fn == p.fn {
				x.contr[k] = d.fn
			}
		}
	}
	for _, u := range p.use {
		x.useContr[u] = true
	}
	if n := p.opts["noinline"]; n != "" {
		for _, k := range strings.Split(n, ",") {
			x.noInline[sp.key(k)] = true
		}
	}
	x.pureFuncs = p.flags["purefuncs"]
	x.noPanic = p.flags["nopanic"]
	x.lean = p.flags["lean"]
	return x
}

type ObRes struct {
	Name   string  `json:"name"`
	Pos    string  `json:"pos"`
	Res    string  `json:"result"`
	Solver string  `json:"solver"`
	Sec    float64 `json:"seconds"`
	File   string  `json:"file,omitempty"`
	text   string
}

type ProveRes struct {
	Fn      string
	Obs     []ObRes
	Err     string
	Kept    int
	Cands   int
	Assume  []string
	Trusted []string
	Inlined []string
	Used    []string
	Wall    float64
}

func (sp *Spec) Run(p *ProveFn, tier string, log func(string, ...any)) (res *ProveRes) {
	t0 := time.Now()
	res = &ProveRes{Fn: p.fn.Name()}
	x := sp.NewExec(p)
	defer func() {
		res.Wall = time.Since(t0).Seconds()
		res.Assume, res.Trusted, res.Inlined, res.Used = sortedKeys(x.assume), sortedKeys(x.trusted), sortedKeys(x.inlined), sortedKeys(x.usedC)
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				res.Err = fmt.Sprintf("%s (near %s)", u.msg, x.curPos)
				if os.Getenv("GOVER_DEBUG") != "" {
					var st []string
					for _, f := range x.stack {
						st = append(st, f.String())
					}
					log("  stack: %v", st)
				}
				return
			}
			if os.Getenv("GOVER_DEBUG") != "" {
				panic(e)
			}
			res.Err = fmt.Sprintf("internal error: %v (near %s)", e, x.curPos)
		}
	}()
	st := &State{rc: True, heaps: map[string]*Term{}, iters: map[string]*Term{}, alloc: x.A0}
	var args []Val
	for _, q := range p.fn.Params {
		args = append(args, x.freshVal(st, q.Name(), q.Type()))
	}
	if p.contract != "" {
		x.cmode, x.ctarget, x.cdepth = cmProve, sp.key(p.contract), 0
		if sp.resolve(p.contract) == "" {
			fail("contract target %s not found", p.contract)
		}
	}
	x.marks = append(x.marks, st.clone())
	_, end := x.runFunc(p.fn, args, nil, st, p.fn.Name())
	if x.noPanic {
		for _, r := range x.panics {
			if r.skip {
				continue
			}
			x.obs = append(x.obs, &Oblig{name: "no panic: " + r.kind, nf: r.nf, rc: r.rc, goal: False, pos: r.pos})
		}
	}
	log("%s: %d facts, %d obligations, %d candidates, %d terms, exec %.2fs", p.fn.Name(), len(x.facts), len(x.obs), len(x.cands), termSeq, time.Since(t0).Seconds())
	hto := 1500 * time.Millisecond
	if len(x.cands) > 0 {
		x.houdini(hto, log)
	}
	res.Cands = len(x.cands)
	for _, c := range x.cands {
		if c.alive {
			res.Kept++
		}
	}
	if len(x.obs) == 0 {
		res.Err = "no obligations generated"
		return
	}
	type job struct {
		o    *Oblig
		name string
		text string
		r    result
		hs   []*Term
		ns   []int
		g    *Term
	}
	var jobs []*job
	names := map[string]int{}
	trivial := map[string]bool{}
	for _, o := range x.obs {
		if o.cover || !forProp(o.name, sp.only) {
			continue
		}
		gs := []*Term{o.goal}
		if o.goal.Op == OAnd {
			gs = o.goal.Args
		}
		for gi, g := range gs {
			n := p.fn.Name() + ": " + o.name
			if len(gs) > 1 {
				n = fmt.Sprintf("%s /%d", n, gi+1)
			}
			names[n]++
			if names[n] > 1 {
				n = fmt.Sprintf("%s #%d", n, names[n])
			}
			j := &job{o: o, name: n, g: g}
			if g == True || o.rc == False {
				j.r = result{res: "unsat", solver: "simplifier"}
				trivial[n] = true
			} else {
				hs, ns := x.hypsFor(o.nf, o.rc, g, nil)
				j.text = x.emit(hs, ns, false)
				j.hs, j.ns = hs, ns
			}
			jobs = append(jobs, j)
		}
	}
	// vacuity: the end of the contract must be reachable under the assumptions
	var vac string
	if end.rc != False {
		hs, ns := x.hypsFor(len(x.facts), end.rc, False, nil)
		vac = x.emit(hs, ns, false)
	}
	to := 8 * time.Second
	if tier == "thorough" {
		to = 40 * time.Second
	}
	done := make(chan int)
	for _, j := range jobs {
		go func() {
			if j.text != "" {
				j.r = solvePortfolio(j.text, to)
			}
			done <- 1
		}()
	}
	vr := result{res: "unknown"}
	go func() {
		if vac != "" {
			vr = solve1(vac, 2*time.Second)
		}
		done <- 1
	}()
	for range len(jobs) + 1 {
		<-done
	}
	budget := time.Now().Add(150 * time.Second)
	for _, j := range jobs {
		if j.r.res != "unsat" && j.r.res != "error" && time.Now().Before(budget) {
			if r := x.splitSolve(j.hs, j.ns, to/2, 6); r.res == "unsat" {
				j.r = r
			}
		}
	}
	for _, j := range jobs {
		if j.text != "" && j.r.res != "unsat" && j.r.res != "error" && time.Now().Before(budget) {
			hs, ns, nrc := x.hypsForPath(j.o.nf, j.o.rc, j.g, nil)
			if r := x.pathSplit(hs, ns, nrc, to/2, to, 6); r.res == "unsat" {
				j.r = r
			}
		}
	}
	// a last, longer attempt before an obligation counts as failed
	retry := time.Now().Add(90 * time.Second)
	for _, j := range jobs {
		if j.text != "" && j.r.res != "unsat" && j.r.res != "error" && time.Now().Before(retry) {
			if r := solvePortfolio(j.text, 30*time.Second); r.res == "unsat" {
				j.r = r
			}
		}
	}
	if end.rc == False || vr.res == "unsat" {
		if !p.flags["maynotreturn"] {
			res.Err = "vacuous: the end of the contract is unreachable under its assumptions"
		}
	}
	for _, j := range jobs {
		r := ObRes{Name: j.name, Pos: j.o.pos, Res: "discharged", Solver: j.r.solver, Sec: j.r.dur.Seconds(), text: j.text}
		if j.r.res != "unsat" {
			r.Res = j.r.res
			if r.Res == "error" {
				r.Res = "solver error: " + firstLine(j.r.out)
			}
		}
		res.Obs = append(res.Obs, r)
	}
	return
}

// forProp: does an assertion label ("P05: text", or without a tag) concern prop?
func forProp(label, prop string) bool {
	tag, _, ok := strings.Cut(label, ": ")
	if !ok || prop == "" || len(tag) != 3 || tag[0] != 'P' || tag[1] < '0' || tag[1] > '9' {
		return true
	}
	return tag == prop
}

func firstLine(s string) string {
	a, _, _ := strings.Cut(s, "\n")
	return a
}
