package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts are plain strings in SMT-LIB syntax.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SBV32  Sort = "(_ BitVec 32)"
	SStr   Sort = "String"
	SAddr  Sort = "Addr"
	SPath  Sort = "Path"
	SIface Sort = "Iface"
	SFunc  Sort = "Func"
	SF64   Sort = "F64"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func splitArr(s Sort) (Sort, Sort, bool) {
	if !strings.HasPrefix(string(s), "(Array ") {
		return "", "", false
	}
	in := string(s)[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:]), true
			}
		}
	}
	panic("bad array sort " + s)
}

type Op uint8

const (
	OSym   Op = iota // free symbol (0-ary constant)
	OBound           // bound variable
	OBoolC
	OIntC
	OStrC
	OBVC
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // linear sum: args with coeffs; const in ival
	OMul
	ODiv
	OMod
	OLe
	OLt
	OSelect
	OStore
	OConstArr
	OApp // uninterpreted / builtin function application, name
	OForall
	OExists
)

type Term struct {
	Op    Op
	Sort  Sort
	Args  []*Term
	Name  string
	I     *big.Int
	Coef  []*big.Int
	Vars  []*Term // bound variables of quantifier
	Pats  [][]*Term
	id    int
	bound bool // contains bound variables (free in this term)
	fv    map[int]*Term
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.Op))
	b.WriteString(string(t.Sort))
	b.WriteByte('|')
	b.WriteString(t.Name)
	if t.I != nil {
		b.WriteByte('#')
		b.WriteString(t.I.String())
	}
	for i, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(t.Coef[i].String())
		}
	}
	for _, v := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.Pats {
		b.WriteByte('P')
		for _, x := range p {
			b.WriteString(strconv.Itoa(x.id))
			b.WriteByte('.')
		}
	}
	k := b.String()
	if r, ok := termTab[k]; ok {
		return r
	}
	termSeq++
	r := &t
	r.id = termSeq
	for _, a := range r.Args {
		for i, v := range a.fv {
			if r.fv == nil {
				r.fv = map[int]*Term{}
			}
			r.fv[i] = v
		}
	}
	if r.Op == OBound {
		r.fv = map[int]*Term{r.id: r}
	}
	if len(r.Vars) > 0 {
		for _, v := range r.Vars {
			delete(r.fv, v.id)
		}
	}
	r.bound = len(r.fv) > 0
	termTab[k] = r
	return r
}

var freshCnt = map[string]int{}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$~", c) {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func Fresh(name string, s Sort) *Term {
	name = sanitize(name)
	freshCnt[name]++
	return mk(Term{Op: OSym, Sort: s, Name: name + "!" + strconv.Itoa(freshCnt[name])})
}
func Sym(name string, s Sort) *Term { return mk(Term{Op: OSym, Sort: s, Name: sanitize(name)}) }

var boundSeq int

func FreshBound(name string, s Sort) *Term {
	boundSeq++
	return mk(Term{Op: OBound, Sort: s, Name: sanitize(name) + "?" + strconv.Itoa(boundSeq)})
}

var (
	True  = mk(Term{Op: OBoolC, Sort: SBool, Name: "true"})
	False = mk(Term{Op: OBoolC, Sort: SBool, Name: "false"})
)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(i int64) *Term    { return BigC(big.NewInt(i)) }
func BigC(i *big.Int) *Term { return mk(Term{Op: OIntC, Sort: SInt, I: new(big.Int).Set(i)}) }
func StrC(s string) *Term   { return mk(Term{Op: OStrC, Sort: SStr, Name: s}) }
func BVC(v uint64) *Term {
	return mk(Term{Op: OBVC, Sort: SBV32, I: new(big.Int).SetUint64(v & 0xffffffff)})
}
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }
func (t *Term) isInt() bool   { return t.Op == OIntC }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	if a.Op == OLe {
		return Lt(a.Args[1], a.Args[0])
	}
	if a.Op == OLt {
		return Le(a.Args[1], a.Args[0])
	}
	return mk(Term{Op: ONot, Sort: SBool, Args: []*Term{a}})
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.Op == OAnd {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if x.Sort != SBool {
			panic("And: non-bool " + x.String())
		}
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{Op: OAnd, Sort: SBool, Args: out})
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		var ys []*Term
		if x.Op == OOr {
			ys = x.Args
		} else {
			ys = []*Term{x}
		}
		for _, t := range ys {
			if t == False || seen[t] {
				continue
			}
			if t == True || seen[Not(t)] {
				return True
			}
			seen[t] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (a&b)|(a&!b) -> a
	if len(out) == 2 {
		a, b := conj(out[0]), conj(out[1])
		inB := map[*Term]bool{}
		for _, t := range b {
			inB[t] = true
		}
		var common, ra []*Term
		for _, t := range a {
			if inB[t] {
				common = append(common, t)
				delete(inB, t)
			} else {
				ra = append(ra, t)
			}
		}
		if len(common) > 0 {
			var rb []*Term
			for _, t := range b {
				if inB[t] {
					rb = append(rb, t)
				}
			}
			return And(append(common, Or(And(ra...), And(rb...)))...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(Term{Op: OOr, Sort: SBool, Args: out})
}
func conj(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	// datatypes: push into mk
	if a.Op == OApp && b.Op == OApp && a.Name == "mk" && b.Name == "mk" {
		return Addr(Ite(c, a.Args[0], b.Args[0]), Ite(c, a.Args[1], b.Args[1]))
	}
	return mk(Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

// ---------- integers (linear normal form)

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.addTerm(t, big.NewInt(1))
	return l
}
func (l *lin) addTerm(t *Term, k *big.Int) {
	switch t.Op {
	case OIntC:
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
	case OAdd:
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
		for i, a := range t.Args {
			l.addAtom(a, new(big.Int).Mul(k, t.Coef[i]))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	if o, ok := l.m[t]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = s
		}
	} else if k.Sign() != 0 {
		l.m[t] = k
	}
}
func (l lin) term() *Term {
	if len(l.m) == 0 {
		return BigC(l.c)
	}
	var ks []*Term
	for t := range l.m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.c.Sign() == 0 && l.m[ks[0]].Cmp(big.NewInt(1)) == 0 {
		return ks[0]
	}
	co := make([]*big.Int, len(ks))
	for i, k := range ks {
		co[i] = l.m[k]
	}
	return mk(Term{Op: OAdd, Sort: SInt, Args: ks, Coef: co, I: l.c})
}
func Add(a, b *Term) *Term {
	if a.Sort != SInt || b.Sort != SInt {
		panic("Add sorts " + string(a.Sort) + " " + string(b.Sort))
	}
	l := toLin(a)
	l.addTerm(b, big.NewInt(1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(IntC(0), a) }
func Mul(a, b *Term) *Term {
	if a.Op == OIntC || b.Op == OIntC {
		if b.Op == OIntC {
			a, b = b, a
		}
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		l.addTerm(b, a.I)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OMul, Sort: SInt, Args: []*Term{a, b}})
}

// truncated division as in Go
func GoDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() != 0 {
		return BigC(new(big.Int).Quo(a.I, b.I))
	}
	e := mk(Term{Op: ODiv, Sort: SInt, Args: []*Term{a, b}})
	if b.isInt() && b.I.Sign() > 0 {
		// a>=0: a div b ; a<0: -((-a) div b)
		n := mk(Term{Op: ODiv, Sort: SInt, Args: []*Term{Neg(a), b}})
		return Ite(Le(IntC(0), a), e, Neg(n))
	}
	return App("godiv", SInt, a, b)
}
func GoMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() != 0 {
		return BigC(new(big.Int).Rem(a.I, b.I))
	}
	return Sub(a, Mul(GoDiv(a, b), b))
}
func EMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() > 0 {
		return BigC(new(big.Int).Mod(a.I, b.I))
	}
	return mk(Term{Op: OMod, Sort: SInt, Args: []*Term{a, b}})
}
func EDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() > 0 {
		return BigC(new(big.Int).Div(a.I, b.I))
	}
	return mk(Term{Op: ODiv, Sort: SInt, Args: []*Term{a, b}})
}
func Le(a, b *Term) *Term { // a <= b  <=> b-a >= 0
	if a.Sort != SInt || b.Sort != SInt {
		panic("Le sorts " + a.String() + " " + b.String())
	}
	d := Sub(b, a)
	if d.isInt() {
		return BoolC(d.I.Sign() >= 0)
	}
	if isNonNeg(d) {
		return True
	}
	// normalise to  lhs <= rhs with positive coefs on each side
	l, r := splitLin(d)
	return mk(Term{Op: OLe, Sort: SBool, Args: []*Term{l, r}})
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.isInt() {
		return BoolC(d.I.Sign() > 0)
	}
	if isNonNeg(Add(d, IntC(-1))) {
		return True
	}
	l, r := splitLin(d)
	return mk(Term{Op: OLt, Sort: SBool, Args: []*Term{l, r}})
}

// d = r - l
func splitLin(d *Term) (l, r *Term) {
	x := toLin(d)
	lp := lin{new(big.Int), map[*Term]*big.Int{}}
	rp := lin{new(big.Int), map[*Term]*big.Int{}}
	for t, k := range x.m {
		if k.Sign() > 0 {
			rp.m[t] = k
		} else {
			lp.m[t] = new(big.Int).Neg(k)
		}
	}
	if x.c.Sign() > 0 {
		rp.c = x.c
	} else {
		lp.c = new(big.Int).Neg(x.c)
	}
	return lp.term(), rp.term()
}

func atomNonNeg(t *Term) bool {
	return t.Op == OApp && (t.Name == "str.len")
}
func isNonNeg(t *Term) bool {
	switch t.Op {
	case OIntC:
		return t.I.Sign() >= 0
	case OAdd:
		if t.I.Sign() < 0 {
			return false
		}
		for i, a := range t.Args {
			if t.Coef[i].Sign() < 0 || !atomNonNeg(a) {
				return false
			}
		}
		return true
	}
	return atomNonNeg(t)
}

// ---------- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if isConst(a) && isConst(b) {
		return False
	}
	switch a.Sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SInt:
		d := Sub(a, b)
		if d.isInt() {
			return BoolC(d.I.Sign() == 0)
		}
		if !intMayEq(a, b) {
			return False
		}
		if a.Op == OIte && b.isInt() && (a.Args[1].isInt() || a.Args[2].isInt()) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == OIte && a.isInt() && (b.Args[1].isInt() || b.Args[2].isInt()) {
			return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
		}
		l, r := splitLin(d)
		if l.id > r.id {
			l, r = r, l
		}
		return mk(Term{Op: OEq, Sort: SBool, Args: []*Term{l, r}})
	case SAddr:
		if a.Name == "mk" && a.Op == OApp || b.Name == "mk" && b.Op == OApp {
			return And(Eq(AddrID(a), AddrID(b)), Eq(AddrPath(a), AddrPath(b)))
		}
		if !intMayEq(AddrID(a), AddrID(b)) {
			return False
		}
	case SPath:
		if a.Op == OApp && b.Op == OApp {
			if a.Name != b.Name {
				if isPathCtor(a.Name) && isPathCtor(b.Name) {
					return False
				}
			} else if a.Name == "fld" || a.Name == "elm" {
				return And(Eq(a.Args[1], b.Args[1]), Eq(a.Args[0], b.Args[0]))
			}
		}
		// occurs check: path strictly containing itself
		if pathContains(a, b) || pathContains(b, a) {
			return False
		}
	case SIface:
		if a.Op == OApp && b.Op == OApp && strings.HasPrefix(a.Name, "box!") && strings.HasPrefix(b.Name, "box!") {
			if a.Name != b.Name {
				return False
			}
			return eqAll(a.Args, b.Args)
		}
		if (a == NilIface && isBox(b)) || (b == NilIface && isBox(a)) {
			return False
		}
	case SFunc:
		if (a == NilFunc && isClo(b)) || (b == NilFunc && isClo(a)) {
			return False
		}
		if isClo(a) && isClo(b) {
			if a.Name != b.Name {
				return False
			}
			return eqAll(a.Args, b.Args)
		}
	case SStr:
		if a.Op == OStrC && a.Name == "" && b.Op == OApp && b.Name == "str.++" {
			for _, x := range b.Args {
				if x.Op == OStrC && x.Name != "" {
					return False
				}
			}
		}
		if b.Op == OStrC && b.Name == "" && a.Op == OApp && a.Name == "str.++" {
			return Eq(b, a)
		}
	}
	if a.Op == OIte && isConst(b) && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == OIte && isConst(a) && (isConst(b.Args[1]) || isConst(b.Args[2])) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}
func eqAll(a, b []*Term) *Term {
	r := True
	for i := range a {
		r = And(r, Eq(a[i], b[i]))
	}
	return r
}
func isBox(t *Term) bool { return t.Op == OApp && strings.HasPrefix(t.Name, "box!") }
func isClo(t *Term) bool { return t.Op == OApp && strings.HasPrefix(t.Name, "clo!") }
func isPathCtor(s string) bool {
	return s == "root" || s == "fld" || s == "elm"
}
func pathContains(a, b *Term) bool { // a = ctor(...b...)
	for a.Op == OApp && (a.Name == "fld" || a.Name == "elm") {
		a = a.Args[0]
		if a == b {
			return true
		}
	}
	return false
}
func isConst(t *Term) bool {
	switch t.Op {
	case OBoolC, OIntC, OStrC, OBVC:
		return true
	}
	return false
}

// ---------- addresses

var Root = mk(Term{Op: OApp, Sort: SPath, Name: "root"})
var NilAddr = mk(Term{Op: OApp, Sort: SAddr, Name: "mk", Args: []*Term{IntC(0), Root}})
var NilIface = mk(Term{Op: OSym, Sort: SIface, Name: "nil.iface"})
var NilFunc = mk(Term{Op: OSym, Sort: SFunc, Name: "nil.func"})

func Addr(id, path *Term) *Term {
	// mk(aid x, apath x) = x
	if id.Op == OApp && id.Name == "aid" && path.Op == OApp && path.Name == "apath" && id.Args[0] == path.Args[0] {
		return id.Args[0]
	}
	return mk(Term{Op: OApp, Sort: SAddr, Name: "mk", Args: []*Term{id, path}})
}
func AddrID(a *Term) *Term {
	if a.Op == OApp && a.Name == "mk" {
		return a.Args[0]
	}
	if a.Op == OIte {
		return Ite(a.Args[0], AddrID(a.Args[1]), AddrID(a.Args[2]))
	}
	return mk(Term{Op: OApp, Sort: SInt, Name: "aid", Args: []*Term{a}})
}
func AddrPath(a *Term) *Term {
	if a.Op == OApp && a.Name == "mk" {
		return a.Args[1]
	}
	if a.Op == OIte {
		return Ite(a.Args[0], AddrPath(a.Args[1]), AddrPath(a.Args[2]))
	}
	return mk(Term{Op: OApp, Sort: SPath, Name: "apath", Args: []*Term{a}})
}
func AFld(a *Term, f int64) *Term {
	return Addr(AddrID(a), mk(Term{Op: OApp, Sort: SPath, Name: "fld", Args: []*Term{AddrPath(a), IntC(f)}}))
}
func AElm(a *Term, i *Term) *Term {
	return Addr(AddrID(a), mk(Term{Op: OApp, Sort: SPath, Name: "elm", Args: []*Term{AddrPath(a), i}}))
}
func IsNil(a *Term) *Term {
	// nil is the only address with id 0
	return Eq(AddrID(a), IntC(0))
}

// upper bounds of ids: id term -> alloc symbol expression it is known to be below.
// allocPrev: alloc symbol -> expression it is known to be >=.
var allocPrev = map[*Term]*Term{}
var allocSyms = map[*Term]bool{}

func NewAllocSym(name string, prev *Term) *Term {
	t := Fresh(name, SInt)
	allocSyms[t] = true
	if prev != nil {
		allocPrev[t] = prev
	}
	return t
}

// heapBound: base heap symbol -> alloc expr (pointers stored there are < bound)
var heapBound = map[*Term]*Term{}

// funcBound: externs returning addresses: result id < this alloc expr
var extBound *Term

// idUpper returns an alloc expression U with id < U known syntactically.
func idUpper(id *Term) *Term {
	if id.Op == OApp && id.Name == "aid" {
		a := id.Args[0]
		if a.Op == OSelect {
			if b := rootHeapBound(a.Args[0]); b != nil {
				return b
			}
		}
		if b, ok := symUpper[a]; ok {
			return b
		}
		if a.Op == OApp && strings.HasPrefix(a.Name, "ext!") {
			return extBound
		}
		if a.Op == OApp && strings.HasPrefix(a.Name, "unbox!") {
			// payload of an interface: bounded when the interface itself comes from a bounded source
			return ifaceUpper(a.Args[0])
		}
	}
	return nil
}

// symUpper: address symbols (inputs, loop-fresh) -> alloc upper bound
var symUpper = map[*Term]*Term{}
var ifaceUpperSym = map[*Term]*Term{}

func ifaceUpper(t *Term) *Term {
	if b, ok := ifaceUpperSym[t]; ok {
		return b
	}
	if t.Op == OSelect {
		return rootHeapBound(t.Args[0])
	}
	if t.Op == OApp && strings.HasPrefix(t.Name, "ext!") {
		return extBound
	}
	return nil
}

func rootHeapBound(h *Term) *Term {
	if b, ok := heapBound[h]; ok {
		return b
	}
	if h.Op == OSelect { // nested (maps)
		return rootHeapBound(h.Args[0])
	}
	return nil
}

// asAlloc decomposes id into allocSym + k (k>=0)
func asAlloc(id *Term) (*Term, *big.Int, bool) {
	if allocSyms[id] {
		return id, new(big.Int), true
	}
	if id.Op == OAdd && len(id.Args) == 1 && allocSyms[id.Args[0]] && id.Coef[0].Cmp(big.NewInt(1)) == 0 {
		return id.Args[0], id.I, true
	}
	return nil, nil, false
}

// allocGE: is a >= b provable through the chain
func allocGE(a, b *Term) bool {
	sa, ka, ok := asAlloc(a)
	if !ok {
		return false
	}
	sb, kb, ok := asAlloc(b)
	if !ok {
		return false
	}
	off := new(big.Int).Set(ka)
	for i := 0; i < 200; i++ {
		if sa == sb {
			return off.Cmp(kb) >= 0
		}
		p := allocPrev[sa]
		if p == nil {
			return false
		}
		sp, kp, ok := asAlloc(p)
		if !ok {
			return false
		}
		off = new(big.Int).Add(off, kp)
		sa = sp
	}
	return false
}

// intMayEq: false only if a,b are certainly different ids
func intMayEq(a, b *Term) bool {
	if a.Op == OIte {
		return intMayEq(a.Args[1], b) || intMayEq(a.Args[2], b)
	}
	if b.Op == OIte {
		return intMayEq(a, b.Args[1]) || intMayEq(a, b.Args[2])
	}
	if a.isInt() && b.isInt() {
		return a.I.Cmp(b.I) == 0
	}
	d := func(x, y *Term) bool { // certainly different
		if _, _, ok := asAlloc(y); !ok {
			return false
		}
		if x.isInt() && x.I.Sign() <= 0 {
			return true // nil or global vs allocated (alloc symbols are > 0)
		}
		if u := idUpper(x); u != nil && allocGE(y, u) {
			return true
		}
		if sx, kx, ok := asAlloc(x); ok {
			sy, ky, _ := asAlloc(y)
			if sx == sy {
				return kx.Cmp(ky) != 0
			}
			// x < x+1 <= y
			if allocGE(y, Add(x, IntC(1))) {
				return true
			}
		}
		return false
	}
	if d(a, b) || d(b, a) {
		return false
	}
	return true
}

// ---------- arrays

func Select(h, a *Term) *Term {
	_, vs, ok := splitArr(h.Sort)
	if !ok {
		panic("select from " + string(h.Sort))
	}
	for n := 0; n < 100000; n++ {
		switch h.Op {
		case OStore:
			e := Eq(h.Args[1], a)
			if e == True {
				return h.Args[2]
			}
			if e == False {
				h = h.Args[0]
				continue
			}
			return mk(Term{Op: OSelect, Sort: vs, Args: []*Term{h, a}})
		case OConstArr:
			return h.Args[0]
		case OApp:
			if l, ok := snapLeaf[h.Name]; ok {
				return Select(h.Args[0], addPath(AElm(h.Args[1], Add(h.Args[2], a)), l.Path))
			}
		case OIte:
			x, y := Select(h.Args[1], a), Select(h.Args[2], a)
			return Ite(h.Args[0], x, y)
		case OSym:
			if hb, ok := heapBound[h]; ok {
				if z := heapZero[h]; z != nil && a.Sort == SAddr {
					id := AddrID(a)
					if allocGE(id, hb) {
						return z
					}
					if id.isInt() && id.I.Sign() == 0 {
						return z
					}
				}
			}
			if f := heapFrame[h]; f != nil && a.Sort == SAddr && f.keeps(a) {
				h = f.old
				continue
			}
		}
		break
	}
	return mk(Term{Op: OSelect, Sort: vs, Args: []*Term{h, a}})
}

// snapLeaf: sequence snapshots of slices, by function name
var snapLeaf = map[string]Leaf{}

// frameInfo: a loop's heap symbol agrees with the heap before the loop on
// objects that existed then and are not written in the loop
type frameInfo struct {
	old        *Term
	ids, addrs []*Term
	alloc      *Term
}

var heapFrame = map[*Term]*frameInfo{}

func (f *frameInfo) keeps(a *Term) bool {
	id := AddrID(a)
	if id.isInt() {
		if id.I.Sign() >= 0 {
			return false
		}
	} else if _, _, ok := asAlloc(id); !ok || !allocGE(f.alloc, Add(id, IntC(1))) {
		return false
	}
	for _, i := range f.ids {
		if intMayEq(id, i) {
			return false
		}
	}
	for _, b := range f.addrs {
		if intMayEq(id, AddrID(b)) && Eq(a, b) != False {
			return false
		}
	}
	return true
}

// zero value of unallocated cells for base heap symbols
var heapZero = map[*Term]*Term{}

func Store(h, a, v *Term) *Term {
	if h.Op == OStore && h.Args[1] == a {
		h = h.Args[0]
		return Store(h, a, v)
	}
	if Select(h, a) == v {
		return h
	}
	_, vs, _ := splitArr(h.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store sort %s into %s", v.Sort, h.Sort))
	}
	return mk(Term{Op: OStore, Sort: h.Sort, Args: []*Term{h, a, v}})
}
func ConstArr(s Sort, v *Term) *Term {
	return mk(Term{Op: OConstArr, Sort: s, Args: []*Term{v}})
}

// ---------- applications & quantifiers

func App(name string, s Sort, args ...*Term) *Term {
	switch name {
	case "str.++":
		var fl []*Term
		for _, a := range args {
			xs := []*Term{a}
			if a.Op == OApp && a.Name == "str.++" {
				xs = a.Args
			}
			for _, x := range xs {
				if x.Op == OStrC && x.Name == "" {
					continue
				}
				if x.Op == OStrC && len(fl) > 0 && fl[len(fl)-1].Op == OStrC {
					fl[len(fl)-1] = StrC(fl[len(fl)-1].Name + x.Name)
					continue
				}
				fl = append(fl, x)
			}
		}
		if len(fl) == 0 {
			return StrC("")
		}
		if len(fl) == 1 {
			return fl[0]
		}
		args = fl
	case "str.len":
		if args[0].Op == OStrC {
			return IntC(int64(len(args[0].Name)))
		}
		if args[0].Op == OApp && args[0].Name == "str.++" {
			r := IntC(0)
			for _, x := range args[0].Args {
				r = Add(r, App("str.len", SInt, x))
			}
			return r
		}
	case "str.substr":
		if args[1].isInt() && args[1].I.Sign() == 0 && args[2] == App("str.len", SInt, args[0]) {
			return args[0]
		}
		if args[2].isInt() && args[2].I.Sign() <= 0 {
			return StrC("")
		}
		if args[0].Op == OStrC && args[1].isInt() && args[2].isInt() {
			s := args[0].Name
			lo, n := int(args[1].I.Int64()), int(args[2].I.Int64())
			if lo < 0 || lo > len(s) || n < 0 {
				return StrC("")
			}
			if lo+n > len(s) {
				n = len(s) - lo
			}
			return StrC(s[lo : lo+n])
		}
	case "str.<", "str.<=", "str.prefixof", "str.suffixof", "str.contains":
		if args[0].Op == OStrC && args[1].Op == OStrC {
			a, b := args[0].Name, args[1].Name
			switch name {
			case "str.<":
				return BoolC(a < b)
			case "str.<=":
				return BoolC(a <= b)
			case "str.prefixof":
				return BoolC(strings.HasPrefix(b, a))
			case "str.suffixof":
				return BoolC(strings.HasSuffix(b, a))
			case "str.contains":
				return BoolC(strings.Contains(a, b))
			}
		}
		if args[0] == args[1] && name != "str.<" || (name == "str.prefixof" || name == "str.suffixof") && args[0].Op == OStrC && args[0].Name == "" {
			return True
		}
		if c := args[1]; c.Op == OApp && c.Name == "str.++" && (name == "str.prefixof" && c.Args[0] == args[0] || name == "str.suffixof" && c.Args[len(c.Args)-1] == args[0]) {
			return True
		}
	case "itag":
		if isBox(args[0]) {
			return IntC(boxTag[args[0].Name])
		}
		if args[0] == NilIface {
			return IntC(0)
		}
		if args[0].Op == OIte {
			return Ite(args[0].Args[0], App("itag", SInt, args[0].Args[1]), App("itag", SInt, args[0].Args[2]))
		}
	case "ftag":
		if isClo(args[0]) {
			return IntC(cloTag[args[0].Name])
		}
		if args[0] == NilFunc {
			return IntC(0)
		}
		if args[0].Op == OIte {
			return Ite(args[0].Args[0], App("ftag", SInt, args[0].Args[1]), App("ftag", SInt, args[0].Args[2]))
		}
	case "bvand":
		a, b := args[0], args[1]
		if a.Op == OBVC && b.Op == OBVC {
			return BVC(a.I.Uint64() & b.I.Uint64())
		}
		if a.id > b.id {
			args = []*Term{b, a}
		}
		if a.Op == OBVC && a.I.Sign() == 0 || b.Op == OBVC && b.I.Sign() == 0 {
			return BVC(0)
		}
		if a == b {
			return a
		}
	case "bvor":
		a, b := args[0], args[1]
		if a.Op == OBVC && b.Op == OBVC {
			return BVC(a.I.Uint64() | b.I.Uint64())
		}
		if a.Op == OBVC && a.I.Sign() == 0 {
			return b
		}
		if b.Op == OBVC && b.I.Sign() == 0 {
			return a
		}
		if a.id > b.id {
			args = []*Term{b, a}
		}
	case "bvnot":
		if args[0].Op == OBVC {
			return BVC(^args[0].I.Uint64())
		}
	}
	if strings.HasPrefix(name, "unbox!") || strings.HasPrefix(name, "cloarg!") {
		a := args[0]
		// unbox!T!i
		k := strings.LastIndexByte(name, '!')
		idx, _ := strconv.Atoi(name[k+1:])
		var base string
		if name[0] == 'u' {
			base = "box!" + name[6:k]
		} else {
			base = "clo!" + name[7:k]
		}
		if a.Op == OApp && a.Name == base {
			return a.Args[idx]
		}
		if a.Op == OIte {
			x, y := a.Args[1], a.Args[2]
			if x.Op == OApp && x.Name == base || y.Op == OApp && y.Name == base {
				return Ite(a.Args[0], App(name, s, x), App(name, s, y))
			}
		}
	}
	return mk(Term{Op: OApp, Sort: s, Name: name, Args: args})
}

var boxTag = map[string]int64{}
var cloTag = map[string]int64{}

func Quant(op Op, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var vs []*Term
	for _, v := range vars {
		if body.fv[v.id] != nil {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		cover := map[int]bool{}
		for _, t := range p {
			for i := range t.fv {
				cover[i] = true
			}
		}
		ok := true
		for _, v := range vs {
			if !cover[v.id] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return mk(Term{Op: op, Sort: SBool, Args: []*Term{body}, Vars: vs, Pats: ps})
}
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant(OForall, vars, body, pats...)
}
func Exists(vars []*Term, body *Term) *Term { return Quant(OExists, vars, body) }

// Subst replaces terms (by identity) and re-simplifies.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OEq:
		return Eq(args[0], args[1])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OAdd:
		l := lin{new(big.Int).Set(t.I), map[*Term]*big.Int{}}
		for i, a := range args {
			l.addTerm(a, t.Coef[i])
		}
		return l.term()
	case OMul:
		return Mul(args[0], args[1])
	case ODiv:
		return EDiv(args[0], args[1])
	case OMod:
		return EMod(args[0], args[1])
	case OLe:
		return Le(args[0], args[1])
	case OLt:
		return Lt(args[0], args[1])
	case OSelect:
		return Select(args[0], args[1])
	case OStore:
		return Store(args[0], args[1], args[2])
	case OConstArr:
		return ConstArr(t.Sort, args[0])
	case OApp:
		if t.Name == "mk" {
			return Addr(args[0], args[1])
		}
		if t.Name == "aid" {
			return AddrID(args[0])
		}
		if t.Name == "apath" {
			return AddrPath(args[0])
		}
		return App(t.Name, t.Sort, args...)
	case OForall, OExists:
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return Quant(t.Op, t.Vars, args[0], ps...)
	}
	panic("rebuild")
}

// contains reports whether t contains any of the symbols.
func containsAny(t *Term, syms map[*Term]bool) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if syms[t] {
			return true
		}
		if len(t.Args) == 0 {
			return false
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = false
		for _, a := range t.Args {
			if rec(a) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---------- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

func qname(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$~", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

// node prints t given a printer for children.
func (t *Term) node(p func(*Term) string) string {
	ap := func(op string) string {
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(p(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.Op {
	case OSym, OBound:
		return qname(t.Name)
	case OBoolC:
		return t.Name
	case OIntC:
		return smtInt(t.I)
	case OStrC:
		return smtStr(t.Name)
	case OBVC:
		return fmt.Sprintf("#x%08x", t.I.Uint64())
	case ONot:
		return ap("not")
	case OAnd:
		return ap("and")
	case OOr:
		return ap("or")
	case OEq:
		return ap("=")
	case OIte:
		return ap("ite")
	case OAdd:
		var parts []string
		for i, a := range t.Args {
			c := t.Coef[i]
			if c.Cmp(big.NewInt(1)) == 0 {
				parts = append(parts, p(a))
			} else {
				parts = append(parts, "(* "+smtInt(c)+" "+p(a)+")")
			}
		}
		if t.I.Sign() != 0 {
			parts = append(parts, smtInt(t.I))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMul:
		return ap("*")
	case ODiv:
		return ap("div")
	case OMod:
		return ap("mod")
	case OLe:
		return ap("<=")
	case OLt:
		return ap("<")
	case OSelect:
		return ap("select")
	case OStore:
		return ap("store")
	case OConstArr:
		return "((as const " + string(t.Sort) + ") " + p(t.Args[0]) + ")"
	case OApp:
		if len(t.Args) == 0 {
			return qname(t.Name)
		}
		if t.Name == "bv2int" {
			return ap("bv2nat")
		}
		if t.Name == "int2bv" {
			return ap("(_ int2bv 32)")
		}
		return ap(qname(t.Name))
	case OForall, OExists:
		var b strings.Builder
		if t.Op == OForall {
			b.WriteString("(forall (")
		} else {
			b.WriteString("(exists (")
		}
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + qname(v.Name) + " " + string(v.Sort) + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(p(t.Args[0]))
		for _, pt := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(p(x))
			}
			b.WriteByte(')')
		}
		if len(t.Pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
		return b.String()
	}
	panic("print")
}

func (t *Term) String() string {
	n := 0
	var p func(t *Term) string
	p = func(t *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		return t.node(p)
	}
	return p(t)
}
