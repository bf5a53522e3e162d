package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Term(w=0)            booleans
//	uint64 | *Term(w>0)          integers, canonical (masked to the type's width)
//	float64                      floats (concrete only)
//	string | *SStr               strings (concrete length, bytes may be symbolic)
//	Ptr, Slice, *MapObj, Iface, *Closure, *ChanObj, Agg, Tuple, *ssa.Builtin, *Iter
type Value any

type SStr struct{ b []Value }

type Obj struct {
	serial uint64
	cells  []Value
	host   any // engine-side payload (regexp, waitgroup, big.Int ...)
	frozen bool
}

type Ptr struct {
	o   *Obj
	off int
}

// SymPtr addresses one of n elements selected by a symbolic index.
type SymPtr struct {
	o      *Obj
	base   int
	stride int
	n      int
	idx    *Term
}

type Slice struct {
	o             *Obj
	off, len, cap int // off in cells, len/cap in elements
}

type Agg []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	host func(w *Worker, args []Value) Value
	name string
}

type mapEntry struct {
	k, v Value
	dead bool
}
type MapObj struct {
	serial  uint64
	entries []mapEntry
	idx     map[string]int
	live    int
	symKeys int
}

type ChanObj struct {
	serial uint64
	buf    []Value
	cap    int
	closed bool
	recvq  int
	// rendezvous for unbuffered channels
	pend []*pendSend
}
type pendSend struct {
	v    Value
	done bool
}

type Iter struct {
	isStr bool
	s     Value
	pos   int
	m     *MapObj
	order []int
	n     int
}

type BasicKind struct {
	w      uint8
	signed bool
	isInt  bool
	isBool bool
	isStr  bool
	isFlt  bool
	f32    bool
}

func basicInfo(t types.Type) BasicKind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return BasicKind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BasicKind{isBool: true}
	case types.Int, types.Int64, types.UntypedInt:
		return BasicKind{w: 64, signed: true, isInt: true}
	case types.Int8:
		return BasicKind{w: 8, signed: true, isInt: true}
	case types.Int16:
		return BasicKind{w: 16, signed: true, isInt: true}
	case types.Int32, types.UntypedRune:
		return BasicKind{w: 32, signed: true, isInt: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return BasicKind{w: 64, isInt: true}
	case types.Uint8:
		return BasicKind{w: 8, isInt: true}
	case types.Uint16:
		return BasicKind{w: 16, isInt: true}
	case types.Uint32:
		return BasicKind{w: 32, isInt: true}
	case types.String, types.UntypedString:
		return BasicKind{isStr: true}
	case types.Float64, types.UntypedFloat:
		return BasicKind{isFlt: true}
	case types.Float32:
		return BasicKind{isFlt: true, f32: true}
	}
	return BasicKind{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (w *Worker) sizeof(t types.Type) int {
	if n, ok := w.sizes[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += w.sizeof(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * w.sizeof(u.Elem())
	}
	w.sizes[t] = n
	return n
}

func (w *Worker) fieldOff(st *types.Struct, i int) int {
	off := 0
	for j := 0; j < i; j++ {
		off += w.sizeof(st.Field(j).Type())
	}
	return off
}

func (w *Worker) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = w.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n > 0 && !isAgg(u.Elem()) {
			z := w.zero(u.Elem())
			for i := 0; i < n; i++ {
				out = append(out, z)
			}
			return out
		}
		for i := 0; i < n; i++ {
			out = w.zeroCells(u.Elem(), out)
		}
		return out
	}
	return append(out, w.zero(t))
}

var zU64 Value = uint64(0)

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsInteger != 0:
			return zU64
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		return Unsupported{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Struct, *types.Array:
		return Agg(w.zeroCells(t, make([]Value, 0, w.sizeof(t))))
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = w.zero(u.At(i).Type())
		}
		return out
	}
	return Unsupported{"zero of " + t.String()}
}

// Unsupported is a poison value: storing it is fine, using it aborts the path.
type Unsupported struct{ why string }

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return Unsupported{"const of type param " + tp.String()}
	}
	bk := basicInfo(t)
	switch {
	case bk.isBool:
		return constant.BoolVal(c.Value)
	case bk.isInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(bk.w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(bk.w)
	case bk.isFlt:
		f, _ := constant.Float64Val(c.Value)
		if bk.f32 {
			f = float64(float32(f))
		}
		return f
	case bk.isStr:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
	}
	return Unsupported{"const " + c.String()}
}

// ---- allocation ----

func (w *Worker) newObj(cells []Value) *Obj {
	o := &Obj{cells: cells}
	if !w.inInit {
		w.serial++
		o.serial = w.serial
	}
	return o
}

func (w *Worker) alloc(t types.Type) Ptr {
	return Ptr{w.newObj(w.zeroCells(t, make([]Value, 0, w.sizeof(t)))), 0}
}

func (w *Worker) newMap() *MapObj {
	m := &MapObj{idx: map[string]int{}}
	if !w.inInit {
		w.serial++
		m.serial = w.serial
	}
	return m
}

// ---- memory access ----

func (w *Worker) load(p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if isAgg(t) {
			n := w.sizeof(t)
			if p.off+n > len(p.o.cells) {
				w.unsupported("load outside object (unsafe cast?) of type " + t.String())
			}
			out := make(Agg, n)
			copy(out, p.o.cells[p.off:p.off+n])
			return out
		}
		if p.off >= len(p.o.cells) {
			w.unsupported("load outside object of type " + t.String())
		}
		return p.o.cells[p.off]
	case SymPtr:
		return w.loadSym(p, t)
	case Unsupported:
		w.unsupported(p.why)
	}
	panic(fmt.Sprintf("load from %T", p))
}

func (w *Worker) loadSym(p SymPtr, t types.Type) Value {
	bk := basicInfo(t)
	if !isAgg(t) && (bk.isInt || bk.isBool) {
		// group by value
		var res *Term
		width := bk.w
		groups := map[*Term]*Term{}
		var order []*Term
		for i := 0; i < p.n; i++ {
			v := w.term(p.o.cells[p.base+i*p.stride], width)
			c := w.tt.Eq(p.idx, w.tt.Const(p.idx.w, uint64(i)))
			if c == w.tt.False {
				continue
			}
			if g, ok := groups[v]; ok {
				groups[v] = w.tt.Or(g, c)
			} else {
				groups[v] = c
				order = append(order, v)
			}
		}
		// the most common value becomes the default
		for i, v := range order {
			if i == 0 {
				res = v
				continue
			}
			res = w.tt.Ite(groups[v], v, res)
		}
		if res == nil {
			w.unsupported("empty symbolic load")
		}
		return w.fromTerm(res)
	}
	i := w.concretize(p.idx)
	return w.load(Ptr{p.o, p.base + int(i)*p.stride}, t)
}

func (w *Worker) resolvePtr(p Value) Ptr {
	switch p := p.(type) {
	case Ptr:
		return p
	case SymPtr:
		i := w.concretize(p.idx)
		return Ptr{p.o, p.base + int(i)*p.stride}
	case Unsupported:
		w.unsupported(p.why)
	}
	panic(fmt.Sprintf("resolvePtr %T", p))
}

func (w *Worker) store(pv Value, t types.Type, v Value) {
	p := w.resolvePtr(pv)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if isAgg(t) {
		a, ok := v.(Agg)
		if !ok {
			if u, ok := v.(Unsupported); ok {
				w.unsupported(u.why)
			}
			panic(fmt.Sprintf("store agg %T into %s", v, t))
		}
		w.writeCells(p.o, p.off, a)
		return
	}
	w.writeCell(p.o, p.off, v)
}

func (w *Worker) writeCell(o *Obj, off int, v Value) {
	if off >= len(o.cells) {
		w.unsupported("store outside object")
	}
	w.touch(o.serial)
	if o.serial == 0 && !w.inInit {
		w.journal = append(w.journal, undo{o: o, off: off, old: o.cells[off]})
	}
	if w.race != nil {
		w.race.write(w, o, off)
	}
	o.cells[off] = v
}

func (w *Worker) writeCells(o *Obj, off int, a []Value) {
	if off+len(a) > len(o.cells) {
		w.unsupported("store outside object")
	}
	if len(a) == 0 {
		return
	}
	w.touch(o.serial)
	if o.serial == 0 && !w.inInit {
		for i := range a {
			w.journal = append(w.journal, undo{o: o, off: off + i, old: o.cells[off+i]})
		}
	}
	copy(o.cells[off:], a)
}

// touch enforces purity of merged calls: a write to an object older than the
// merged call's start aborts the merge.
func (w *Worker) touch(serial uint64) {
	if w.mergeDepth > 0 && serial <= w.mergeBase && !w.inInit {
		panic(mergeAbort{"write to shared state"})
	}
}
func (w *Worker) impure(why string) {
	if w.mergeDepth > 0 && !w.inInit {
		panic(mergeAbort{why})
	}
}

// ---- terms <-> values ----

func (w *Worker) term(v Value, width uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.tt.Const(width, v)
	case bool:
		return w.tt.Bool(v)
	case Unsupported:
		w.unsupported(v.why)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (w *Worker) fromTerm(t *Term) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func (w *Worker) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return w.tt.Bool(v)
	case *Term:
		return v
	case Unsupported:
		w.unsupported(v.why)
	}
	panic(fmt.Sprintf("boolTerm of %T", v))
}

// ---- strings ----

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	case Unsupported:
		panic(pathAbort{kind: "unsupported", why: v.why})
	}
	panic(fmt.Sprintf("strLen %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func strByte(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return byteVals[v[i]]
	case *SStr:
		return v.b[i]
	}
	panic(fmt.Sprintf("strByte %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		out := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = byteVals[v[i]]
		}
		return out
	case *SStr:
		return v.b
	case Unsupported:
		panic(pathAbort{kind: "unsupported", why: v.why})
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SStr{b}
		}
	}
	sb := make([]byte, len(b))
	for i, x := range b {
		sb[i] = byte(x.(uint64))
	}
	return string(sb)
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SStr:
		if lo == 0 && hi == len(v.b) {
			return v
		}
		return mkStr(v.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return mkStr(out)
}

func (w *Worker) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if a == b {
		return true
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	return w.fromTerm(w.bytesEqT(strBytes(a), strBytes(b)))
}

func (w *Worker) bytesEqT(x, y []Value) *Term {
	r := w.tt.True
	// concrete mismatches first
	for i := range x {
		if p, ok := x[i].(uint64); ok {
			if q, ok := y[i].(uint64); ok && p != q {
				return w.tt.False
			}
		}
	}
	for i := range x {
		e := w.known(w.tt.Eq(w.term(x[i], 8), w.term(y[i], 8)))
		r = w.tt.And(r, e)
		if r == w.tt.False {
			return r
		}
	}
	return r
}

// strLess is a < b lexicographically.
func (w *Worker) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	r := w.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(x[i], 8), w.term(y[i], 8)
		r = w.tt.Or(w.known(w.tt.Cmp(OUlt, p, q)), w.tt.And(w.known(w.tt.Eq(p, q)), r))
	}
	return w.fromTerm(r)
}

func (w *Worker) goString(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// mustStr requires a concrete string.
func (w *Worker) mustStr(v Value, what string) string {
	if s, ok := v.(string); ok {
		return s
	}
	w.unsupported("symbolic string where a concrete one is needed: " + what)
	return ""
}

// ---- slices of bytes ----

func (w *Worker) sliceBytes(s Slice) []Value {
	if s.o == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.len]
}

func (w *Worker) newByteSlice(b []Value) Slice {
	cells := make([]Value, len(b))
	copy(cells, b)
	return Slice{w.newObj(cells), 0, len(b), len(b)}
}

func (w *Worker) newSlice(cells []Value, n int) Slice {
	return Slice{w.newObj(cells), 0, n, n}
}

// ---- equality ----

func (w *Worker) eq(a, b Value) Value {
	switch x := a.(type) {
	case Unsupported:
		w.unsupported(x.why)
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return w.fromTerm(w.tt.Eq(w.tt.Bool(x), w.boolTerm(b)))
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return w.fromTerm(w.tt.Eq(w.tt.Const(y.w, x), y))
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return w.fromTerm(w.tt.Eq(x, w.tt.Const(x.w, y)))
		case bool:
			return w.fromTerm(w.tt.Eq(x, w.tt.Bool(y)))
		case *Term:
			return w.fromTerm(w.tt.Eq(x, y))
		}
	case float64:
		return x == b.(float64)
	case string, *SStr:
		switch b.(type) {
		case string, *SStr:
			return w.strEq(a, b)
		}
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		case Iface:
			if y.t == nil {
				return x.o == nil
			}
		}
	case Slice:
		if y, ok := b.(Slice); ok { // only comparison with nil is legal
			return x.o == nil && y.o == nil
		}
	case *MapObj:
		return x == b.(*MapObj)
	case *ChanObj:
		return x == b.(*ChanObj)
	case *Closure:
		y, _ := b.(*Closure)
		return x == nil && y == nil
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return w.eq(x.v, y.v)
	case Agg:
		y := b.(Agg)
		r := w.tt.True
		for i := range x {
			r = w.tt.And(r, w.boolTerm(w.eq(x[i], y[i])))
			if r == w.tt.False {
				return false
			}
		}
		return w.fromTerm(r)
	}
	if u, ok := b.(Unsupported); ok {
		w.unsupported(u.why)
	}
	panic(fmt.Sprintf("eq %T %T", a, b))
}

// ---- maps ----

func mapKey(v Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return "s" + v, true
	case uint64:
		return "i" + strconv.FormatUint(v, 36), true
	case bool:
		if v {
			return "b1", true
		}
		return "b0", true
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(v), 36), true
	case Ptr:
		return fmt.Sprintf("p%p+%d", v.o, v.off), true
	case *ChanObj:
		return fmt.Sprintf("c%p", v), true
	case Iface:
		if v.t == nil {
			return "n", true
		}
		k, ok := mapKey(v.v)
		return "I" + types.TypeString(v.t, nil) + "|" + k, ok
	case Agg:
		var sb strings.Builder
		sb.WriteString("a")
		for _, x := range v {
			k, ok := mapKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(strconv.Itoa(len(k)))
			sb.WriteString(":")
			sb.WriteString(k)
		}
		return sb.String(), true
	}
	return "", false
}

// find returns the index of the entry with key k, or -1. It may fork.
func (w *Worker) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	ks, conc := mapKey(k)
	if conc {
		if i, ok := m.idx[ks]; ok {
			if m.symKeys == 0 {
				return i
			}
		} else if m.symKeys == 0 {
			return -1
		}
	}
	for i := range m.entries {
		e := &m.entries[i]
		if e.dead {
			continue
		}
		r := w.eq(e.k, k)
		if b, ok := r.(bool); ok {
			if b {
				return i
			}
			continue
		}
		if w.decide(r.(*Term)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		w.targetPanicStr("assignment to entry in nil map")
	}
	w.touch(m.serial)
	i := w.mapFind(m, k)
	if m.serial == 0 && !w.inInit {
		old := snapshotMap(m)
		w.journal = append(w.journal, undo{m: m, snap: old})
	}
	if i >= 0 {
		m.entries[i].v = v
		return
	}
	m.entries = append(m.entries, mapEntry{k: k, v: v})
	m.live++
	if ks, ok := mapKey(k); ok {
		m.idx[ks] = len(m.entries) - 1
	} else {
		m.symKeys++
	}
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	w.touch(m.serial)
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	if m.serial == 0 && !w.inInit {
		w.journal = append(w.journal, undo{m: m, snap: snapshotMap(m)})
	}
	if ks, ok := mapKey(m.entries[i].k); ok {
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
	m.entries[i].dead = true
	m.live--
}

func snapshotMap(m *MapObj) *MapObj {
	c := &MapObj{serial: m.serial, live: m.live, symKeys: m.symKeys, idx: map[string]int{}}
	c.entries = append([]mapEntry(nil), m.entries...)
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

type undo struct {
	o    *Obj
	off  int
	old  Value
	m    *MapObj
	snap *MapObj
	fn   func()
}

func (w *Worker) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		u := w.journal[i]
		switch {
		case u.fn != nil:
			u.fn()
		case u.o != nil:
			u.o.cells[u.off] = u.old
		case u.m != nil:
			*u.m = *u.snap
		}
	}
	w.journal = w.journal[:0]
}
