package main

import (
	"fmt"
	"math/bits"
)

// Terms are hash-consed SMT expressions over Bool (w==0) and bit-vectors (w=1..64).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // any sort -> bool
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low bits: extract [w-1:0]
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
}

type Term struct {
	op    Op
	w     uint8
	n     uint8
	args  [3]*Term
	val   uint64
	name  string
	id    int
	vars  *Term // the single variable if nv==1
	nv    uint8 // 0 none, 1 one, 2 several
	depth int

	tab   *[256]uint64 // truth/value table for single 8-bit var terms
	epoch int
	ev    uint64
	defd  int // solver generation in which it was defined
	inPC  bool
}

func (t *Term) isConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	a0, a1, a2 int
	name       string
}

type TermTable struct {
	tab   map[termKey]*Term
	next  int
	True  *Term
	False *Term
	epoch int
}

func newTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}, epoch: 1}
	tt.True = tt.Const(0, 1)
	tt.False = tt.Const(0, 0)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 3:
		k.a2 = args[2].id
		fallthrough
	case 2:
		k.a1 = args[1].id
		fallthrough
	case 1:
		k.a0 = args[0].id
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: tt.next, n: uint8(len(args))}
	tt.next++
	copy(t.args[:], args)
	if op == OVar {
		t.nv = 1
		t.vars = t
	}
	for _, a := range args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
		if a.nv == 0 {
			continue
		}
		if a.nv == 2 || (t.vars != nil && t.vars != a.vars) {
			t.nv = 2
			t.vars = nil
			for _, b := range args {
				if b.depth >= t.depth {
					t.depth = b.depth + 1
				}
			}
			break
		}
		t.nv = 1
		t.vars = a.vars
	}
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	return tt.mk(OConst, w, v&mask(w), "")
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTable) Var(w uint8, name string) *Term { return tt.mk(OVar, w, 0, name) }

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.mk(ONot, 0, 0, "", a)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tt.False
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tt.False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, "", a, b)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tt.True
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tt.True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, "", a, b)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return tt.Not(c)
		}
		if a.isConst() {
			if a.val != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if b.op == OIte && b.args[0] == c {
		return tt.Ite(c, a, b.args[2])
	}
	if a.op == OIte && a.args[0] == c {
		return tt.Ite(c, a.args[1], b)
	}
	return tt.mk(OIte, a.w, 0, "", c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return tt.Ite(a.args[0], tt.Eq(a.args[1], b), tt.Eq(a.args[2], b))
			}
		case OZext:
			in := a.args[0]
			if b.val > mask(in.w) {
				return tt.False
			}
			return tt.Eq(in, tt.Const(in.w, b.val))
		case OSext:
			in := a.args[0]
			if uint64(sext(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
				return tt.False
			}
			return tt.Eq(in, tt.Const(in.w, b.val))
		case OAdd:
			if a.args[1].isConst() {
				return tt.Eq(a.args[0], tt.Const(a.w, b.val-a.args[1].val))
			}
		case OSub:
			if a.args[1].isConst() {
				return tt.Eq(a.args[0], tt.Const(a.w, b.val+a.args[1].val))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return tt.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, "", a, b)
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(evalCmp(op, a.val, b.val, a.w))
	}
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	// narrow comparisons on zero-extended terms against constants
	if a.op == OZext && b.isConst() {
		in := a.args[0]
		m := mask(in.w)
		signed := op == OSlt || op == OSle
		bv := b.val
		if signed && sext(bv, b.w) < 0 {
			return tt.False
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		}
		if op == OSle {
			uop = OUle
		}
		if bv > m {
			return tt.True
		}
		return tt.Cmp(uop, in, tt.Const(in.w, bv))
	}
	if b.op == OZext && a.isConst() {
		in := b.args[0]
		m := mask(in.w)
		signed := op == OSlt || op == OSle
		av := a.val
		if signed && sext(av, a.w) < 0 {
			return tt.True
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		}
		if op == OSle {
			uop = OUle
		}
		if av > m {
			return tt.False
		}
		return tt.Cmp(uop, tt.Const(in.w, av), in)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		uop := op
		if op == OSlt {
			uop = OUlt
		}
		if op == OSle {
			uop = OUle
		}
		return tt.Cmp(uop, a.args[0], b.args[0])
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return tt.Ite(a.args[0], tt.Cmp(op, a.args[1], b), tt.Cmp(op, a.args[2], b))
	}
	if b.op == OIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return tt.Ite(b.args[0], tt.Cmp(op, a, b.args[1]), tt.Cmp(op, a, b.args[2]))
	}
	switch op {
	case OUlt:
		if b.isConst() && b.val == 0 {
			return tt.False
		}
		if a.isConst() && a.val == mask(a.w) {
			return tt.False
		}
	case OUle:
		if a.isConst() && a.val == 0 {
			return tt.True
		}
		if b.isConst() && b.val == mask(b.w) {
			return tt.True
		}
	}
	return tt.mk(op, 0, 0, "", a, b)
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return (a / b) & m
	case OUrem:
		if b == 0 {
			return a
		}
		return (a % b) & m
	case OSdiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSrem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return (a ^ b) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		s := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(s>>b) & m
	}
	panic("evalBin")
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, evalBin(op, a.val, b.val, a.w))
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if b.val == 0 {
				return a
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OBand:
			if b.val == 0 {
				return b
			}
			if b.val == mask(a.w) {
				return a
			}
		case OUdiv, OSdiv:
			if b.val == 1 {
				return a
			}
		}
		if (op == OAdd || op == OSub) && a.op == OAdd && a.args[1].isConst() {
			k := a.args[1].val
			if op == OAdd {
				k += b.val
			} else {
				k -= b.val
			}
			return tt.Bin(OAdd, a.args[0], tt.Const(a.w, k))
		}
		if op == OSub {
			return tt.Bin(OAdd, a, tt.Const(a.w, -b.val))
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return tt.Ite(a.args[0], tt.Bin(op, a.args[1], b), tt.Bin(op, a.args[2], b))
		}
	}
	if a.isConst() {
		switch op {
		case OAdd, OBor, OBxor:
			if a.val == 0 {
				return b
			}
			if !b.isConst() {
				return tt.Bin(op, b, a)
			}
		case OMul, OBand:
			return tt.Bin(op, b, a)
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return tt.Const(a.w, 0)
		case OBand, OBor:
			return a
		}
	}
	return tt.mk(op, a.w, 0, "", a, b)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, -a.val)
	}
	return tt.mk(ONeg, a.w, 0, "", a)
}
func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.val)
	}
	return tt.mk(OBnot, a.w, 0, "", a)
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OZext {
		return tt.Zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return tt.Ite(a.args[0], tt.Zext(a.args[1], w), tt.Zext(a.args[2], w))
	}
	return tt.mk(OZext, w, 0, "", a)
}
func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OZext { // strictly extended so the top bit is zero
		return tt.Zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return tt.Ite(a.args[0], tt.Sext(a.args[1], w), tt.Sext(a.args[2], w))
	}
	return tt.mk(OSext, w, 0, "", a)
}
func (tt *TermTable) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OZext || a.op == OSext {
		in := a.args[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return tt.Trunc(in, w)
		}
		if a.op == OZext {
			return tt.Zext(in, w)
		}
		return tt.Sext(in, w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return tt.Ite(a.args[0], tt.Trunc(a.args[1], w), tt.Trunc(a.args[2], w))
	}
	// push truncation through add/sub of constants (common: rune arithmetic)
	if (a.op == OAdd || a.op == OSub || a.op == OBand || a.op == OBor || a.op == OBxor) && (a.args[0].op == OZext || a.args[0].op == OSext) && a.args[1].isConst() {
		return tt.Bin(a.op, tt.Trunc(a.args[0], w), tt.Trunc(a.args[1], w))
	}
	return tt.mk(OExtract, w, 0, "", a)
}

// evalNode evaluates op over argument values.
func evalNode(t *Term, a [3]uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return a[0] ^ 1
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OEq:
		return b2u(a[0] == a[1])
	case OUlt, OUle, OSlt, OSle:
		return b2u(evalCmp(t.op, a[0], a[1], t.args[0].w))
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OBnot:
		return ^a[0] & mask(t.w)
	case ONeg:
		return -a[0] & mask(t.w)
	case OZext:
		return a[0]
	case OSext:
		return uint64(sext(a[0], t.args[0].w)) & mask(t.w)
	case OExtract:
		return a[0] & mask(t.w)
	default:
		return evalBin(t.op, a[0], a[1], t.w)
	}
}

// Eval evaluates t under an assignment (missing variables are 0).
func (tt *TermTable) Eval(t *Term, m map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if t.epoch == tt.epoch {
		return t.ev
	}
	var a [3]uint64
	for i := 0; i < int(t.n); i++ {
		a[i] = tt.Eval(t.args[i], m)
	}
	v := evalNode(t, a)
	t.epoch = tt.epoch
	t.ev = v
	return v
}

// Table returns the values of t for every value of its single variable (width<=8).
func (t *Term) Table() *[256]uint64 {
	if t.tab != nil {
		return t.tab
	}
	tab := new([256]uint64)
	switch t.op {
	case OVar:
		for i := range tab {
			tab[i] = uint64(i) & mask(t.w)
		}
	case OConst:
		for i := range tab {
			tab[i] = t.val
		}
		return tab // not cached: cheap and shared by many
	default:
		var at [3]*[256]uint64
		for i := 0; i < int(t.n); i++ {
			if t.args[i].isConst() {
				continue
			}
			at[i] = t.args[i].Table()
		}
		for v := 0; v < 256; v++ {
			var a [3]uint64
			for i := 0; i < int(t.n); i++ {
				if at[i] == nil {
					a[i] = t.args[i].val
				} else {
					a[i] = at[i][v]
				}
			}
			tab[v] = evalNode(t, a)
		}
	}
	t.tab = tab
	return tab
}

type Dom [4]uint64

func (d Dom) and(e Dom) Dom {
	for i := range d {
		d[i] &= e[i]
	}
	return d
}
func (d Dom) andNot(e Dom) Dom {
	for i := range d {
		d[i] &^= e[i]
	}
	return d
}
func (d Dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d Dom) count() int {
	n := 0
	for _, x := range d {
		n += bits.OnesCount64(x)
	}
	return n
}
func fullDom(w uint8) Dom {
	var d Dom
	n := 1
	if w > 0 {
		n = 1 << w
	} else {
		n = 2
	}
	for i := 0; i < n; i++ {
		d[i/64] |= 1 << (i % 64)
	}
	return d
}

// TrueSet is the set of values of the single variable for which bool term t holds.
func (t *Term) TrueSet() Dom {
	tab := t.Table()
	var d Dom
	for i, v := range tab {
		if v != 0 {
			d[i/64] |= 1 << (i % 64)
		}
	}
	return d
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		if t.w == 8 && t.val >= 32 && t.val < 127 {
			return fmt.Sprintf("'%c'", rune(t.val))
		}
		return fmt.Sprint(sext(t.val, t.w))
	case OVar:
		return t.name
	}
	s := "(" + opNames[t.op]
	if t.op == OZext || t.op == OSext || t.op == OExtract {
		s = fmt.Sprintf("(x%d:%d", t.op, t.w)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.args[i].str(d+1)
	}
	return s + ")"
}
