package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type logicDef struct {
	fn   *ssa.Function
	name string
	st   *State
}

// ---------- calls

func (x *Exec) split(st *State, c *Term, f, g func(*State) (Val, *State)) (Val, *State) {
	a, b := st.clone(), st.clone()
	a.rc, b.rc = And(st.rc, c), And(st.rc, Not(c))
	if a.rc == False {
		return g(b)
	}
	if b.rc == False {
		return f(a)
	}
	va, sa := f(a)
	vb, sb := g(b)
	if sa.rc == False {
		return vb, sb
	}
	if sb.rc == False {
		return va, sa
	}
	m, conds := x.mergeStates([]*State{sa, sb})
	return mergeVals(conds, []Val{va, vb}), m
}

func (x *Exec) doCall(fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, st *State, path string, instr ssa.Instruction) (Val, *State) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, args, st), st
	}
	pos := x.pos(instr.Pos())
	x.curPos = pos
	if c.IsInvoke() {
		return x.invoke(c.Method, c.Value.Type(), fnv[0], args, st, path, pos)
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return x.callFn(fn, args, nil, st, path, pos)
	}
	return x.callVal(c.Signature(), fnv[0], args, st, path, pos)
}

func splitBinds(fn *ssa.Function, as []*Term) []Val {
	var b []Val
	k := 0
	for _, fv := range fn.FreeVars {
		n := size(fv.Type())
		b = append(b, Val(as[k:k+n]))
		k += n
	}
	return b
}

func (x *Exec) callVal(sig *types.Signature, f *Term, args []Val, st *State, path, pos string) (Val, *State) {
	if f == NilFunc {
		x.panics = append(x.panics, panicRec{rc: st.rc, kind: "nil pointer dereference", pos: pos, st: st.clone(), nf: len(x.facts), skip: x.blur})
		st.rc = False
		return zeroVal(sig.Results()), st
	}
	if isClo(f) {
		fn := x.clos[f.Name]
		return x.callFn(fn, args, splitBinds(fn, f.Args), st, path, pos)
	}
	if f.Op == OIte {
		return x.split(st, f.Args[0], func(s *State) (Val, *State) {
			return x.callVal(sig, f.Args[1], args, s, path+"t", pos)
		}, func(s *State) (Val, *State) {
			return x.callVal(sig, f.Args[2], args, s, path+"f", pos)
		})
	}
	x.mayPanic(st, Eq(ftag(f), IntC(0)), "nil function call", pos)
	for _, h := range x.dyncall {
		// hook: func(f F, args...) results
		hs := h.Signature
		if hs.Params().Len() == sig.Params().Len()+1 && types.Identical(hs.Params().At(0).Type().Underlying(), sigNoRecv(sig)) {
			as := append([]Val{{f}}, args...)
			x.trusted["unknown function values of type "+sig.String()+" behave as modelled by "+h.Name()] = true
			return x.runFunc(h, as, nil, st, path+"/hook")
		}
	}
	if x.pureFuncs || x.pure > 0 {
		x.assume["function values passed in by the caller are pure and deterministic ("+sig.String()+")"] = true
		if sig.Results().Len() == 0 {
			return nil, st
		}
		ts := []*Term{f}
		for _, a := range args {
			ts = append(ts, a...)
		}
		return x.ufVal(st, "dyn!"+sanitize(sigNoRecv(sig).String()), sig.Results(), ts), st
	}
	fail("call of unknown function value of type %s at %s", sig, pos)
	return nil, nil
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func mentions(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, s) {
			return true
		}
	}
	return false
}

// ufVal: uninterpreted results
func (x *Exec) ufVal(st *State, name string, res types.Type, args []*Term) Val {
	var v Val
	ls := layout(res)
	nm := "ext!" + name
	for i, l := range ls {
		n := nm
		if len(ls) > 1 {
			n = fmt.Sprintf("%s~%d", nm, i)
		}
		if len(args) == 0 {
			s := Sym(n, l.Sort)
			v = append(v, s)
			continue
		}
		v = append(v, App(n, l.Sort, args...))
	}
	bd := False
	for _, t := range v {
		if t.bound {
			bd = True
		}
	}
	if bd == True && !x.ufAx[nm] {
		// well-formedness for all arguments, as axioms
		x.ufAx[nm] = true
		var bs []*Term
		for _, a := range args {
			bs = append(bs, FreshBound("u", a.Sort))
		}
		var w Val
		for i, l := range ls {
			n := nm
			if len(ls) > 1 {
				n = fmt.Sprintf("%s~%d", nm, i)
			}
			w = append(w, App(n, l.Sort, bs...))
		}
		sink := []*Term{}
		x.factSink = &sink
		x.wf(st, res, w, x.A0)
		x.factSink = nil
		for _, f := range sink {
			for _, t := range w {
				if mentions(f, t) {
					x.facts = append(x.facts, Fact{t: Forall(bs, f, []*Term{t})})
					break
				}
			}
		}
	}
	if bd == False {
		x.wf(st, res, v, x.A0)
		if tp, ok := res.(*types.Tuple); ok {
			off := 0
			for i := 0; i < tp.Len(); i++ {
				n := size(tp.At(i).Type())
				_ = off
				off += n
			}
		}
	}
	return v
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) callFn(fn *ssa.Function, args []Val, bind []Val, st *State, path, pos string) (Val, *State) {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vsPath || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == vsPath {
		if v, s, ok := x.intrinsic(fn, args, st, path, pos); ok {
			return v, s
		}
	}
	key := fnKey(fn)
	if x.logics[fn] {
		return x.logicApp(fn, args, st), st
	}
	if x.cmode == cmUse && x.ctarget == key && x.cdepth == len(x.stack)-1 {
		return x.havocCall(fn, args, st)
	}
	if s := x.stubs[key]; s != nil && !x.onStack(s) {
		if s.Signature.TypeParams() == nil {
			x.trusted["stub for "+key] = true
			return x.runFunc(s, args, bind, st, path+"/stub")
		}
	}
	if fn.Origin() != nil {
		if s := x.gstubs[key]; s != nil {
			// generic stub: pick the instance with identical type arguments
			if inst := x.instance(s, fn.TypeArgs()); inst != nil {
				x.trusted["stub for "+key] = true
				return x.runFunc(inst, args, bind, st, path+"/stub")
			}
			fail("no instance of generic stub %s for %s", s, fn)
		}
	}
	if x.cmode == cmProve && x.ctarget == key && len(x.stack) == 1 && x.pure == 0 {
		// the body of the contracted function, then its frame condition
		pre := st.clone()
		mods := x.cmods
		x.cmods = nil
		x.cmode = cmNone
		v, s := x.runFunc(fn, args, bind, st, path+"/"+fn.Name())
		x.cmode = cmProve
		if s.rc != False {
			x.assertAt(s, "frame: "+key+" modifies only what its contract names", x.onlyModified(pre, s, mods), pos)
		}
		return v, s
	}
	if ct := x.contr[key]; ct != nil && x.useContr[ct.Name()] && x.stackTop() != ct {
		return x.useContract(ct, key, args, bind, st, path, pos)
	}
	for _, s := range x.stack {
		if s == fn || s.Origin() != nil && s.Origin() == fn.Origin() && fn.Origin() != nil {
			if h := x.recs[key]; h != nil {
				x.usedC[h.Name()] = true
				return x.runFunc(h, args, nil, st, path+"/rec")
			}
			if fn.Origin() == nil || s == fn {
				fail("recursive call of %s without a contract", fn)
			}
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return x.runFunc(fn, args, bind, st, path+"/"+fn.Name())
	}
	if len(fn.Blocks) > 0 && x.inlinable(fn) {
		x.inlined[key] = true
		return x.runFunc(fn, args, bind, st, path+"/"+fn.Name())
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "github.com/microsoft/typescript-go/shim/core" && len(fn.Blocks) == 0 {
		// a link-named shim of a function whose body is known
		if p := x.ld.SSA[tsCore]; p != nil {
			if t, ok := p.Members[fn.Name()].(*ssa.Function); ok && len(t.Blocks) > 0 && x.inlinable(t) && types.Identical(t.Signature, fn.Signature) {
				return x.callFn(t, args, bind, st, path, pos)
			}
		}
	}
	switch key {
	case "strings.HasPrefix":
		return Val{App("str.prefixof", SBool, args[1][0], args[0][0])}, st
	case "strings.HasSuffix":
		return Val{App("str.suffixof", SBool, args[1][0], args[0][0])}, st
	case "strings.Contains":
		return Val{App("str.contains", SBool, args[0][0], args[1][0])}, st
	}
	return x.extern(fn.Signature, key, args, st, pos)
}

func (x *Exec) stackTop() *ssa.Function {
	if len(x.stack) == 0 {
		return nil
	}
	return x.stack[len(x.stack)-1]
}
func (x *Exec) onStack(f *ssa.Function) bool {
	for _, s := range x.stack {
		if s == f {
			return true
		}
	}
	return false
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return true
	}
	p := f.Pkg.Pkg.Path()
	if x.noInline[fnKey(fn)] || x.noInlinePkg[p] {
		return false
	}
	if strings.HasPrefix(p, modPath) {
		return !strings.HasPrefix(p, modPath+"/shim/")
	}
	if p == tsCore {
		o := f.Object()
		return o != nil && strings.HasSuffix(x.ld.Fset.Position(o.Pos()).Filename, "/core/text.go")
	}
	return true // only allow-listed packages have bodies
}

// instance finds an instantiation of generic function g with the given type arguments.
func (x *Exec) instance(g *ssa.Function, ta []types.Type) *ssa.Function {
	for _, f := range x.allInst(g) {
		ok := len(f.TypeArgs()) == len(ta)
		for i := range ta {
			if ok && !types.Identical(f.TypeArgs()[i], ta[i]) {
				ok = false
			}
		}
		if ok {
			return f
		}
	}
	return nil
}

func (x *Exec) hasFreshMutable(t types.Type, v Val) bool {
	for i, l := range layout(t) {
		switch l.Kind {
		case "ptr":
			id := AddrID(v[i])
			if x.mayBeFresh(id) {
				return true
			}
		}
		if l.Sort == SFunc && isClo(v[i]) && len(v[i].Args) > 0 {
			return true
		}
		if l.Sort == SIface && isBox(v[i]) {
			if x.hasFreshMutable(x.boxT[v[i].Name], Val(v[i].Args)) {
				return true
			}
		}
	}
	return false
}
func (x *Exec) mayBeFresh(id *Term) bool {
	if id.Op == OIte {
		return x.mayBeFresh(id.Args[1]) || x.mayBeFresh(id.Args[2])
	}
	if id.isInt() {
		return false
	}
	if s, _, ok := asAlloc(id); ok {
		_ = s
		return true
	}
	return false
}

func (x *Exec) extern(sig *types.Signature, key string, args []Val, st *State, pos string) (Val, *State) {
	var ts []*Term
	var pts []types.Type
	if r := sig.Recv(); r != nil {
		pts = append(pts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	if len(pts) != len(args) {
		fail("extern arity %s", key)
	}
	name := sanitize(key)
	if x.noEffect[key] {
		x.trusted["external "+key+" has no effect on modelled state"] = true
		if sig.Results().Len() == 0 {
			return nil, st
		}
		return x.freshVal(st, "ne."+name, sig.Results()), st
	}
	if sideEffecting(key) {
		fail("external function %s has effects and no stub at %s", key, pos)
	}
	for i, a := range args {
		t := pts[i]
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if a[2].isInt() && a[2].I.Int64() <= 16 {
				name += fmt.Sprintf("_n%d", a[2].I.Int64())
				for j := int64(0); j < a[2].I.Int64(); j++ {
					ev := x.Load(st, sl.Elem(), AElm(a[0], Add(a[1], IntC(j))))
					if x.hasFreshMutable(sl.Elem(), ev) {
						fail("external function %s gets a reference to fresh memory at %s (needs a stub)", key, pos)
					}
					ts = append(ts, ev...)
				}
				continue
			}
			for _, l := range layout(sl.Elem()) {
				ts = append(ts, x.heap(st, x.info(l.Key, l, "")))
			}
			ts = append(ts, a[0], a[1], a[2])
			continue
		}
		if x.hasFreshMutable(t, a) {
			fail("external function %s gets a reference to fresh memory at %s (needs a stub)", key, pos)
		}
		ts = append(ts, a...)
	}
	if sig.Results().Len() == 0 {
		fail("external function %s has no result and no stub at %s", key, pos)
	}
	x.trusted["external "+key+": deterministic, side-effect-free, does not panic"] = true
	return x.ufVal(st, name, sig.Results(), ts), st
}

// sideEffecting: external functions whose calls must be modelled explicitly
func sideEffecting(key string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "(*os.File).Write", "(*os.File).Close", "(*os.File).Sync", "io.WriteString", "io.Copy", "os.Exit", "os.Remove", "os.Write", "os.Create", "os.Mkdir", "os.Rename", "(*bufio.", "bufio.", "(*bytes.Buffer).", "(*strings.Builder).", "(*sync.", "(*sync/atomic.", "sync/atomic.", "time.Sleep", "log.", "(*log."} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func (x *Exec) invoke(m *types.Func, it types.Type, recv *Term, args []Val, st *State, path, pos string) (Val, *State) {
	sig := m.Type().(*types.Signature)
	if recv == NilIface {
		x.panics = append(x.panics, panicRec{rc: st.rc, kind: "nil pointer dereference", pos: pos, st: st.clone(), nf: len(x.facts), skip: x.blur})
		st.rc = False
		return zeroVal(sig.Results()), st
	}
	if isBox(recv) {
		t := x.boxT[recv.Name]
		fn := x.ld.Prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			fail("no method %s on %s", m, t)
		}
		return x.callFn(fn, append([]Val{Val(recv.Args)}, args...), nil, st, path, pos)
	}
	if recv.Op == OIte {
		return x.split(st, recv.Args[0], func(s *State) (Val, *State) {
			return x.invoke(m, it, recv.Args[1], args, s, path+"t", pos)
		}, func(s *State) (Val, *State) {
			return x.invoke(m, it, recv.Args[2], args, s, path+"f", pos)
		})
	}
	x.mayPanic(st, Eq(itag(recv), IntC(0)), "nil pointer dereference", pos)
	rn := ""
	if r := sig.Recv(); r != nil {
		rn = typeKey(r.Type())
	}
	key := "(" + rn + ")." + m.Name()
	key2 := "(" + typeKey(it) + ")." + m.Name()
	for _, k := range []string{key2, key} {
		if s := x.stubs[k]; s != nil {
			x.trusted["stub for "+k] = true
			return x.runFunc(s, append([]Val{{recv}}, args...), nil, st, path+"/stub")
		}
	}
	ts := []*Term{recv}
	for i, a := range args {
		if x.hasFreshMutable(sig.Params().At(i).Type(), a) {
			fail("interface method %s gets a reference to fresh memory at %s (needs a stub)", key, pos)
		}
		ts = append(ts, a...)
	}
	if sig.Results().Len() == 0 {
		fail("interface method %s without result needs a stub at %s", key, pos)
	}
	x.trusted["interface method "+key+" on an unknown receiver: deterministic, side-effect-free"] = true
	return x.ufVal(st, "inv."+sanitize(key), sig.Results(), ts), st
}

// ---------- contracts at call sites

const (
	cmNone = iota
	cmProve
	cmUse
)

func (x *Exec) useContract(ct *ssa.Function, key string, args, bind []Val, st *State, path, pos string) (Val, *State) {
	x.usedC[ct.Name()] = true
	om, ot, od, op, oa := x.cmode, x.ctarget, x.cdepth, x.cpos, x.cAlloc
	x.cAlloc = st.alloc
	x.cmode, x.ctarget, x.cdepth, x.cpos = cmUse, key, len(x.stack), pos
	defer func() { x.cmode, x.ctarget, x.cdepth, x.cpos, x.cAlloc = om, ot, od, op, oa }()
	ct2 := ct
	return x.runFunc(ct2, args, nil, st, path+"/contract")
}

// havocCall: the effect of the contracted call: arbitrary results; memory that
// existed before is unchanged except objects named by vs.Modifies.
func (x *Exec) havocCall(fn *ssa.Function, args []Val, st *State) (Val, *State) {
	keys := x.contractWrites(fnKey(fn))
	old := st.clone()
	na := NewAllocSym("A.c", st.alloc)
	x.fact(Le(st.alloc, na))
	mods := x.cmods
	x.cmods = nil
	for _, k := range sortedKeys(keys) {
		h := x.hinfo[k]
		if h == nil {
			continue
		}
		nh := x.newHeapSym(h, "c", na)
		a := FreshBound("a", SAddr)
		conds := []*Term{Lt(AddrID(a), old.alloc)}
		for _, m := range mods {
			conds = append(conds, Not(Eq(AddrID(a), m)))
		}
		x.fact(Forall([]*Term{a}, Imp(And(conds...), Eq(Select(nh, a), Select(x.heap(old, h), a))), []*Term{rawSelect(nh, a)}))
		for _, m := range mods {
			x.logWrite(k, Addr(m, Root))
		}
		x.logWrite(k, Addr(st.alloc, Root))
		st.heaps[k] = nh
	}
	st.alloc = na
	return x.freshVal(st, "r."+fn.Name(), fn.Signature.Results()), st
}

var contrWritesMemo = map[string]map[string]*heapInfo{}

// contractWrites lists the memory cells kinds the contracted function may
// write, found by executing its body once symbolically.
func (x *Exec) contractWrites(key string) map[string]*heapInfo {
	if r, ok := contrWritesMemo[key]; ok {
		return x.adopt(r)
	}
	contrWritesMemo[key] = map[string]*heapInfo{}
	ct := x.contr[key]
	var p *ProveFn
	for _, q := range x.sp.Proves() {
		if q.fn == ct {
			p = q
		}
	}
	y := x.sp.NewExec(p)
	st := &State{rc: True, heaps: map[string]*Term{}, iters: map[string]*Term{}, alloc: y.A0}
	var args []Val
	for _, q := range p.fn.Params {
		args = append(args, y.freshVal(st, q.Name(), q.Type()))
	}
	y.cmode, y.ctarget = cmProve, key
	y.marks = append(y.marks, st.clone())
	y.disc++
	y.runFunc(p.fn, args, nil, st, p.fn.Name())
	r := map[string]*heapInfo{}
	for _, w := range y.writes {
		r[w.key] = y.hinfo[w.key]
	}
	contrWritesMemo[key] = r
	return x.adopt(r)
}
func (x *Exec) adopt(m map[string]*heapInfo) map[string]*heapInfo {
	for _, k := range sortedKeys(m) {
		h := m[k]
		if x.hinfo[k] == nil && h != nil {
			x.hinfo[k] = h
		}
	}
	return m
}

// ---------- builtins

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State) Val {
	switch b.Name() {
	case "len":
		switch t := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			return Val{args[0][2]}
		case *types.Basic:
			return Val{strLen(args[0][0])}
		case *types.Map:
			return Val{x.mapLen(st, t, args[0][0])}
		case *types.Array:
			return Val{IntC(t.Len())}
		case *types.Pointer:
			return Val{IntC(under(t.Elem()).(*types.Array).Len())}
		case *types.Chan:
			sent, recvd, _ := x.chanCounts(st, c.Args[0].Type(), args[0][0])
			return Val{Sub(sent, recvd)}
		}
	case "cap":
		if _, ok := under(c.Args[0].Type()).(*types.Slice); ok {
			return Val{args[0][3]}
		}
		if _, ok := under(c.Args[0].Type()).(*types.Chan); ok {
			return Val{App("ext!chancap", SInt, args[0][0])}
		}
	case "append":
		at := c.Args[0].Type()
		et := under(at).(*types.Slice).Elem()
		bv := args[1]
		if bt, ok := under(c.Args[1].Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			bv = x.strToBytes(st, at, args[1][0])
		}
		return x.appendSlices(st, et, args[0], bv)
	case "copy":
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		bv := args[1]
		if bt, ok := under(c.Args[1].Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			bv = x.strToBytes(st, c.Args[0].Type(), args[1][0])
		}
		return Val{x.copySlices(st, et, args[0], bv)}
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		x.mapDelete(st, mt, args[0][0], mkKey(mt.Key(), args[1]))
		return nil
	case "clear":
		switch t := under(c.Args[0].Type()).(type) {
		case *types.Map:
			x.mapClear(st, t, args[0][0])
			return nil
		case *types.Slice:
			x.clearSlice(st, t.Elem(), args[0])
			return nil
		}
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			if r.Sort != SInt {
				fail("min/max of %s", r.Sort)
			}
			if b.Name() == "min" {
				r = Ite(Le(r, a[0]), r, a[0])
			} else {
				r = Ite(Le(r, a[0]), a[0], r)
			}
		}
		return Val{r}
	case "close":
		x.closeChan(st, c.Args[0].Type(), args[0][0], x.curPos)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		x.mayPanic(st, IsNil(args[0][0]), "nil pointer dereference", x.curPos)
		return args[0]
	case "recover":
		return Val{NilIface}
	}
	fail("builtin %s", b.Name())
	return nil
}

func (x *Exec) clearSlice(st *State, et types.Type, s Val) {
	for _, l := range layout(et) {
		h := x.info(l.Key, l, "")
		old := x.heap(st, h)
		nh := x.newHeapSym(h, "clr", st.alloc)
		ad, j := FreshBound("a", SAddr), FreshBound("j", SInt)
		x.fact(Forall([]*Term{ad}, Imp(Not(Eq(AddrID(ad), AddrID(s[0]))), Eq(Select(nh, ad), Select(old, ad))), []*Term{rawSelect(nh, ad)}))
		at := addPath(AElm(s[0], j), l.Path)
		x.fact(Forall([]*Term{j}, Eq(Select(nh, at), Ite(And(Le(s[1], j), Lt(j, Add(s[1], s[2]))), zeroOf(l.Sort), Select(old, at))), []*Term{rawSelect(nh, at)}))
		x.logWrite(l.Key, anyElm(s[0]))
		x.setHeap(st, h, nh)
	}
}
func anyElm(a *Term) *Term {
	return mk(Term{Op: OApp, Sort: SAddr, Name: "mk", Args: []*Term{AddrID(a), mk(Term{Op: OApp, Sort: SPath, Name: "elm", Args: []*Term{AddrPath(a), Fresh("anyidx", SInt)}})}})
}

// ---------- intrinsics (package vs)

func (x *Exec) strArg(v Val) string {
	if v[0].Op == OStrC {
		return v[0].Name
	}
	return "?"
}

func (x *Exec) callClo(f *Term, args []Val, st *State, path string) (Val, *State) {
	if !isClo(f) {
		fail("intrinsic needs a function literal")
	}
	fn := x.clos[f.Name]
	return x.runFunc(fn, args, splitBinds(fn, f.Args), st, path)
}

func (x *Exec) pureClo(f *Term, args []Val, st *State) Val {
	x.pure++
	defer func() { x.pure-- }()
	s := st.clone()
	s.defers = nil
	s.rc = True
	w := len(x.writes)
	v, _ := x.callClo(f, args, s, "pure")
	x.writes = x.writes[:w]
	return v
}

func (x *Exec) intrinsic(fn *ssa.Function, args []Val, st *State, path, pos string) (Val, *State, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.Name()
	if r := o.Signature.Recv(); r != nil {
		rt := r.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		name = types.Unalias(rt).(*types.Named).Obj().Name() + "." + name
	}
	ta := fn.TypeArgs()
	sig := fn.Signature
	switch name {
	case "Assume":
		if x.pure == 0 {
			x.factG(st, args[0][0])
		}
		return nil, st, true
	case "Requires":
		if x.cmode == cmUse && x.cdepth == len(x.stack)-1 {
			x.assertAt(st, "precondition of "+x.ctarget, args[0][0], x.cpos)
		} else {
			x.factG(st, args[0][0])
		}
		return nil, st, true
	case "Ensures":
		if x.cmode == cmUse && x.cdepth == len(x.stack)-1 {
			x.factG(st, args[1][0])
		} else {
			x.assertAt(st, x.strArg(args[0]), args[1][0], pos)
		}
		return nil, st, true
	case "Modifies":
		if x.cmode == cmUse || x.cmode == cmProve {
			x.cmods = append(x.cmods, x.anyIDs(st, args[0])...)
		}
		return nil, st, true
	case "Assert":
		x.assertAt(st, x.strArg(args[0]), args[1][0], pos)
		return nil, st, true
	case "Lemma": // assert then assume
		x.assertAt(st, x.strArg(args[0]), args[1][0], pos)
		x.factG(st, args[1][0])
		return nil, st, true
	case "Reach":
		x.obs = append(x.obs, &Oblig{name: "reach: " + x.strArg(args[0]), nf: len(x.facts), rc: st.rc, goal: False, pos: pos, cover: true})
		return nil, st, true
	case "Unreachable":
		x.assertAt(st, x.strArg(args[0]), False, pos)
		return nil, st, true
	case "Imp":
		return Val{Imp(args[0][0], args[1][0])}, st, true
	case "Iff":
		return Val{Eq(args[0][0], args[1][0])}, st, true
	case "Ite":
		var r Val
		for i := range args[1] {
			r = append(r, Ite(args[0][0], args[1][i], args[2][i]))
		}
		return r, st, true
	case "Any":
		return x.freshVal(st, "any."+x.strArg(args[0]), ta[0]), st, true
	case "Forall", "Exists", "Forall2", "Exists2", "Forall3":
		return Val{x.quantIntr(name, args[0][0], ta, st)}, st, true
	case "Eq":
		r := True
		for i := range args[0] {
			r = And(r, Eq(args[0][i], args[1][i]))
		}
		return Val{r}, st, true
	case "Fresh": // allocated since entry
		a0 := x.A0
		if x.cmode == cmUse {
			a0 = x.cAlloc
		}
		return Val{Le(a0, AddrID(args[0][0]))}, st, true
	case "FreshSlice": // allocated since the contract's entry
		a0 := x.A0
		if x.cmode == cmUse {
			a0 = x.cAlloc
		}
		return Val{Or(Le(a0, AddrID(args[0][0])), Eq(args[0][2], IntC(0)))}, st, true
	case "Whole": // p points to a whole variable, not into one
		return Val{Eq(AddrPath(args[0][0]), Root)}, st, true
	case "ID":
		return Val{AddrID(args[0][0])}, st, true
	case "ArrID":
		return Val{AddrID(args[0][0])}, st, true
	case "Fork":
		f := st.clone()
		f.defers = nil
		x.callClo(args[0][0], nil, f, path+"/fork")
		return nil, st, true
	case "Try":
		n := len(x.panics)
		x.tryLvl++
		s2 := st.clone()
		_, s2 = x.callClo(args[0][0], nil, s2, path+"/try")
		x.tryLvl--
		recs := append([]panicRec(nil), x.panics[n:]...)
		x.panics = x.panics[:n]
		sts := []*State{s2}
		vs := []Val{{False}}
		for _, r := range recs {
			r.st.rc = r.rc
			r.st.defers = r.st.defers[:len(st.defers)]
			sts = append(sts, r.st)
			vs = append(vs, Val{True})
		}
		var ls []*State
		var lv []Val
		for i, s := range sts {
			if s.rc != False {
				ls = append(ls, s)
				lv = append(lv, vs[i])
			}
		}
		if len(ls) == 0 {
			s2.rc = False
			return Val{False}, s2, true
		}
		m, conds := x.mergeStates(ls)
		return mergeVals(conds, lv), m, true
	case "Mark":
		x.marks = append(x.marks, st.clone())
		return Val{IntC(int64(len(x.marks) - 1))}, st, true
	case "At":
		m := x.mark(args[0][0])
		ms := m.clone()
		ms.rc = st.rc
		// variables captured by the closure that did not exist at the mark keep their current value
		if f := args[1][0]; isClo(f) {
			cf := x.clos[f.Name]
			for i, b := range splitBinds(cf, f.Args) {
				pt, ok := under(cf.FreeVars[i].Type()).(*types.Pointer)
				if ok && allocGE(AddrID(b[0]), m.alloc) {
					t := pt.Elem()
					v := x.Load(st, t, b[0])
					w := len(x.writes)
					x.StoreVal(ms, t, b[0], v)
					x.writes = x.writes[:w]
				}
			}
			ms.alloc = st.alloc
		}
		return x.pureClo(args[1][0], nil, ms), st, true
	case "OnlyModified":
		m := x.mark(args[0][0])
		ids := x.anyIDs(st, args[1])
		return Val{x.onlyModified(m, st, ids)}, st, true
	case "SameMap": // the map m is unchanged since mark
		m := x.mark(args[0][0])
		mt := under(ta[len(ta)-1]).(*types.Map)
		dom, ln, vals := x.mapInfos(mt)
		r := True
		for _, h := range append([]*heapInfo{dom, ln}, vals...) {
			r = And(r, Eq(Select(x.heap(st, h), args[1][0]), Select(x.heap(m, h), args[1][0])))
		}
		return Val{r}, st, true
	case "Snap":
		return x.snap(st, ta[0], args[0]), st, true
	case "SnapMap":
		mt := types.NewMap(ta[0], ta[1])
		dom, _, vals := x.mapInfos(mt)
		r := Val{Select(x.heap(st, dom), args[0][0])}
		for _, h := range vals {
			r = append(r, Select(Select2(x.heap(st, h)), args[0][0]))
		}
		return append(r, x.mapLen(st, mt, args[0][0])), st, true
	case "Seq.Len":
		return Val{args[0][len(args[0])-1]}, st, true
	case "Seq.At":
		var r Val
		for _, a := range args[0][:len(args[0])-1] {
			r = append(r, Select(a, args[1][0]))
		}
		return r, st, true
	case "Seq.Push":
		v := append(Val(nil), args[0]...)
		n := v[len(v)-1]
		for i := range v[:len(v)-1] {
			v[i] = Store(v[i], n, args[1][i])
		}
		v[len(v)-1] = Add(n, IntC(1))
		return v, st, true
	case "Seq.Set":
		v := append(Val(nil), args[0]...)
		for i := range v[:len(v)-1] {
			v[i] = Store(v[i], args[1][0], args[2][i])
		}
		return v, st, true
	case "Seq.Take":
		v := append(Val(nil), args[0]...)
		v[len(v)-1] = args[1][0]
		return v, st, true
	case "EmptySeq":
		return zeroVal(sig.Results().At(0).Type()), st, true
	case "MapVal.Has":
		nt, _ := isSeqType(sig.Recv().Type())
		return Val{Select(args[0][0], mkKey(nt.TypeArgs().At(0), args[1]))}, st, true
	case "MapVal.At":
		nt, _ := isSeqType(sig.Recv().Type())
		k := mkKey(nt.TypeArgs().At(0), args[1])
		var r Val
		for _, a := range args[0][1 : len(args[0])-1] {
			r = append(r, Select(a, k))
		}
		return r, st, true
	case "MapVal.Len":
		return Val{args[0][len(args[0])-1]}, st, true
	case "UF": // uninterpreted function result by name: UF[T](name, args ...any)
		nm := x.strArg(args[0])
		var ts []*Term
		s := args[1]
		if !s[2].isInt() {
			fail("vs.UF needs literal arguments")
		}
		at := types.NewInterfaceType(nil, nil)
		for j := int64(0); j < s[2].I.Int64(); j++ {
			ev := x.Load(st, at, AElm(s[0], Add(s[1], IntC(j))))
			if !isBox(ev[0]) {
				ts = append(ts, ev[0])
				continue
			}
			ts = append(ts, ev[0].Args...)
		}
		return x.ufVal(st, "uf."+nm, ta[0], ts), st, true
	case "Init":
		// run the initialiser of the contract's own package
		top := x.stack[0]
		p := top.Pkg
		ini := p.Func("init")
		return x.runInit(ini, st, path)
	case "NoPanicHere":
		return nil, st, true
	case "Has": // map membership by key type
		mt := types.NewMap(ta[0], ta[1])
		dom, _, _ := x.mapInfos(mt)
		return Val{Select(Select(x.heap(st, dom), args[0][0]), mkKey(ta[0], args[1]))}, st, true
	case "TypeIs": // TypeIs[T](v any)
		return Val{Eq(itag(args[0][0]), IntC(boxTag[x.boxName(ta[0])]))}, st, true
	case "Byte":
		return Val{byteAt(args[0][0], args[1][0])}, st, true
	case "ChanSent", "ChanRecvd", "ChanClosed":
		a, b, c := x.chanCounts(st, types.NewChan(types.SendRecv, ta[0]), args[0][0])
		return Val{map[string]*Term{"ChanSent": a, "ChanRecvd": b, "ChanClosed": c}[name]}, st, true
	case "Focus":
		x.blur = args[0][0] == False
		if x.blur {
			x.assume["this contract looks only at part of the run: panics and loop invariants outside it are the subject of other contracts"] = true
		}
		return nil, st, true
	case "Ranged": // Ranged[K](k): the map had k when the iteration of the loop at hand began
		k := mkKey(ta[0], args[0])
		if x.curVis == nil || x.curVis.Sort != SArr(k.Sort, SBool) {
			return Val{True}, st, true
		}
		return Val{Select(x.curDom, k)}, st, true
	case "Visited": // Visited[K](k): the map iteration of the loop at hand has been at k
		k := mkKey(ta[0], args[0])
		if x.curVis == nil || x.curVis.Sort != SArr(k.Sort, SBool) {
			return Val{False}, st, true
		}
		return Val{Select(x.curVis, k)}, st, true
	case "Base": // Base[T](s []T) int: identifies the array s lies in
		return Val{AddrID(args[0][0])}, st, true
	case "Off": // Off[T](s []T) int: where s begins in its array
		return Val{args[0][1]}, st, true
	case "Abs": // Abs[T](s []T, j int) T: element j of the array s lies in
		return x.Load(st, ta[0], AElm(args[0][0], args[1][0])), st, true
	case "Const": // Const[T](p *T): the ghost variable *p is not written again in this scope
		if st.final == nil {
			st.final = map[*Term]Val{}
		}
		v := x.Load(st, ta[0], args[0][0])
		st.final[args[0][0]] = v
		n := map[*Term]int{}
		for _, l := range layout(ta[0]) {
			n[addPath(args[0][0], l.Path)]++
		}
		for i, l := range layout(ta[0]) {
			if a := addPath(args[0][0], l.Path); n[a] == 1 {
				st.final[a] = Val{v[i]}
			}
		}
		if len(v) != 1 {
			st.final[args[0][0]] = v
		}
		return nil, st, true
	case "TheChan":
		if c := x.theChan[typeKey(ta[0])]; c != nil {
			return c, st, true
		}
		return Val{NilAddr}, st, true
	case "ChanAt":
		return x.Load(st, ta[0], AElm(args[0][0], args[1][0])), st, true
	case "SameJSON":
		return Val{BoolC(jsonShape(ta[0]) == jsonShape(ta[1]))}, st, true
	case "Decode":
		x.jsonDecode(st, args[0][0], args[1][0])
		return nil, st, true
	case "Member":
		return x.jsonMember(st, ta[0], x.strArg(args[1]), args[0][0]), st, true
	case "Old":
		return x.pureClo(args[0][0], nil, x.marks[0]), st, true
	}
	if len(fn.Blocks) > 0 {
		return nil, nil, false
	}
	fail("unknown intrinsic %s", name)
	return nil, nil, false
}

func Select2(t *Term) *Term { return t }

func (x *Exec) mark(t *Term) *State {
	if !t.isInt() {
		fail("mark must be a literal mark")
	}
	return x.marks[t.I.Int64()]
}

// anyIDs: object ids of the pointers passed as ...any
func (x *Exec) anyIDs(st *State, s Val) []*Term {
	if !s[2].isInt() {
		fail("variadic literal expected")
	}
	at := types.NewInterfaceType(nil, nil)
	var ids []*Term
	for j := int64(0); j < s[2].I.Int64(); j++ {
		ev := x.Load(st, at, AElm(s[0], Add(s[1], IntC(j))))
		if !isBox(ev[0]) {
			fail("pointer literal expected in ...any")
		}
		t := x.boxT[ev[0].Name]
		for i, l := range layout(t) {
			if l.Sort == SAddr {
				ids = append(ids, AddrID(ev[0].Args[i]))
			}
		}
	}
	return ids
}

func (x *Exec) onlyModified(m, st *State, ids []*Term) *Term {
	r := True
	for _, k := range sortedKeys(st.heaps) {
		if ghostKey(k) {
			continue
		}
		h := x.hinfo[k]
		now, old := x.heap(st, h), x.heap(m, h)
		if now == old {
			continue
		}
		a := FreshBound("a", SAddr)
		// witness form: skolemised when used as a goal
		cs := []*Term{Lt(AddrID(a), m.alloc)}
		for _, id := range ids {
			cs = append(cs, Not(Eq(AddrID(a), id)))
		}
		for g := range x.ghosts {
			cs = append(cs, Not(Eq(AddrID(a), IntC(x.ghostID(g)))))
		}
		r = And(r, Forall([]*Term{a}, Imp(And(cs...), Eq(Select(now, a), Select(old, a)))))
	}
	return r
}
func ghostKey(k string) bool { return false }
func (x *Exec) ghostID(g *ssa.Global) int64 {
	x.globalAddr(g)
	return x.globals[g]
}

func (x *Exec) snap(st *State, et types.Type, s Val) Val {
	var r Val
	for i, l := range layout(et) {
		h := x.heap(st, x.info(l.Key, l, ""))
		// canonical name so that equal snapshots are equal terms
		n := fmt.Sprintf("snap!%s.%d", sanitize(typeKey(et)), i)
		snapLeaf[n] = l
		r = append(r, App(n, SArr(SInt, l.Sort), h, s[0], s[1]))
	}
	return append(r, s[2])
}

func (x *Exec) quantIntr(name string, f *Term, ta []types.Type, st *State) *Term {
	var vars []*Term
	var args []Val
	guard := True
	for _, t := range ta {
		var v Val
		for _, l := range layout(t) {
			b := FreshBound("q", l.Sort)
			vars = append(vars, b)
			v = append(v, b)
			switch l.Kind {
			case "ptr":
				guard = And(guard, Lt(AddrID(b), st.alloc))
			case "uint":
				guard = And(guard, Le(IntC(0), b))
			case "byte":
				guard = And(guard, Le(IntC(0), b), Le(b, IntC(255)))
			case "arr":
				fail("quantification over slices")
			}
		}
		args = append(args, v)
	}
	mark := termSeq
	body := x.pureClo(f, args, st)[0]
	x.checkNoFreshSyms(body, mark)
	if strings.HasPrefix(name, "Forall") {
		return Forall(vars, Imp(guard, body))
	}
	return Exists(vars, And(guard, body))
}

// checkNoFreshSyms rejects quantifier bodies whose value depends on symbols
// invented while evaluating them (they would be Skolem constants).
func (x *Exec) checkNoFreshSyms(t *Term, mark int) {
	seen := map[*Term]bool{}
	base := map[*Term]bool{}
	for _, b := range x.base {
		base[b] = true
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OSym && t.id > mark && strings.Contains(t.Name, "!") && !base[t] && !strings.HasPrefix(t.Name, "ext!") && !strings.HasPrefix(t.Name, "f64") {
			fail("quantified predicate depends on a fresh symbol %s", t.Name)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func (x *Exec) assertAt(st *State, name string, c *Term, pos string) {
	if x.pure > 0 {
		return
	}
	x.obs = append(x.obs, &Oblig{name: name, nf: len(x.facts), rc: st.rc, goal: c, pos: pos, fork: x.forkN})
}

// ---------- logic functions

func (x *Exec) logicApp(fn *ssa.Function, args []Val, st *State) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a...)
	}
	name := "logic!" + sanitize(fn.Name())
	if len(fn.TypeArgs()) > 0 {
		name += sanitize(fmt.Sprint(fn.TypeArgs()))
	}
	if x.logicDefs[name] == nil {
		x.logicDefs[name] = &logicDef{fn: fn, name: name}
	}
	ls := layout(fn.Signature.Results())
	var v Val
	for i, l := range ls {
		n := name
		if len(ls) > 1 {
			n = fmt.Sprintf("%s~%d", name, i)
		}
		if len(ts) == 0 {
			v = append(v, Sym(n, l.Sort))
		} else {
			t := App(n, l.Sort, ts...)
			logicApps[t] = &logicInst{name, i, args}
			v = append(v, t)
		}
	}
	return v
}

type logicInst struct {
	name string
	leaf int
	args []Val
}

var logicApps = map[*Term]*logicInst{}

// unfold returns the definition body of a logic application.
func (x *Exec) unfold(t *Term) *Term {
	li := logicApps[t]
	if li == nil {
		// rebuilt by substitution: recover arguments from the term
		name := t.Name
		idx := 0
		if k := strings.LastIndexByte(name, '~'); k >= 0 {
			fmt.Sscanf(name[k+1:], "%d", &idx)
			name = name[:k]
		}
		d := x.logicDefs[name]
		if d == nil {
			return nil
		}
		var args []Val
		k := 0
		for _, p := range d.fn.Params {
			n := size(p.Type())
			args = append(args, Val(t.Args[k:k+n]))
			k += n
		}
		li = &logicInst{name, idx, args}
	}
	d := x.logicDefs[li.name]
	st := &State{rc: True, heaps: map[string]*Term{}, iters: map[string]*Term{}, alloc: x.A0}
	x.pure++
	defer func() { x.pure-- }()
	osk := x.stack
	x.stack = nil
	v, _ := x.runFunc(d.fn, li.args, nil, st, "logic")
	x.stack = osk
	return v[li.leaf]
}

var _ = big.NewInt
