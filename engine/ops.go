package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) binop(ci *cinstr, x, y Value) Value {
	switch ci.tok {
	case token.EQL:
		return w.eqT(x, y)
	case token.NEQ:
		r := w.eqT(x, y)
		if b, ok := r.(bool); ok {
			return !b
		}
		return w.fromTerm(w.tt.Not(r.(*Term)))
	}
	bk := ci.bk
	switch {
	case bk.isStr:
		switch ci.tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	case bk.isFlt:
		if u, ok := x.(Unsupported); ok {
			w.unsupported(u.why)
		}
		if u, ok := y.(Unsupported); ok {
			w.unsupported(u.why)
		}
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			w.unsupported("symbolic float")
		}
		var r float64
		switch ci.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if bk.f32 {
			r = float64(float32(r))
		}
		return r
	case bk.isInt:
		return w.intop(ci.tok, x, y, bk, uint8(ci.n))
	case bk.isBool:
		a, b := w.boolTerm(x), w.boolTerm(y)
		switch ci.tok {
		case token.AND, token.LAND:
			return w.fromTerm(w.tt.And(a, b))
		case token.OR, token.LOR:
			return w.fromTerm(w.tt.Or(a, b))
		}
	}
	if u, ok := x.(Unsupported); ok {
		w.unsupported(u.why)
	}
	w.unsupported(fmt.Sprintf("binop %s on %v", ci.tok, ci.aux))
	return nil
}

func (w *Worker) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return w.fromTerm(w.tt.Not(w.boolTerm(v)))
}

// eqT compares, converting interface/concrete mixes.
func (w *Worker) eqT(x, y Value) Value { return w.eq(x, y) }

func (w *Worker) intop(tok token.Token, x, y Value, bk BasicKind, shw uint8) Value {
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	wd := bk.w
	if ok1 && ok2 {
		switch tok {
		case token.ADD:
			return (a + b) & mask(wd)
		case token.SUB:
			return (a - b) & mask(wd)
		case token.MUL:
			return (a * b) & mask(wd)
		case token.QUO, token.REM:
			if b == 0 {
				w.runtimePanic("integer divide by zero")
			}
			op := OUdiv
			if tok == token.REM {
				op = OUrem
			}
			if bk.signed {
				op = OSdiv
				if tok == token.REM {
					op = OSrem
				}
			}
			return evalBin(op, a, b, wd)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return (a ^ b) & mask(wd)
		case token.AND_NOT:
			return a &^ b
		case token.SHL:
			if b >= 64 {
				return zU64
			}
			return (a << b) & mask(wd)
		case token.SHR:
			if bk.signed {
				return evalBin(OAshr, a, min(b, 63), wd)
			}
			if b >= 64 {
				return zU64
			}
			return a >> b
		case token.LSS:
			if bk.signed {
				return sext(a, wd) < sext(b, wd)
			}
			return a < b
		case token.LEQ:
			if bk.signed {
				return sext(a, wd) <= sext(b, wd)
			}
			return a <= b
		case token.GTR:
			if bk.signed {
				return sext(a, wd) > sext(b, wd)
			}
			return a > b
		case token.GEQ:
			if bk.signed {
				return sext(a, wd) >= sext(b, wd)
			}
			return a >= b
		}
	}
	ta := w.term(x, wd)
	var tb *Term
	if tok == token.SHL || tok == token.SHR {
		tb = w.term(y, shw)
		if tb.w < wd {
			tb = w.tt.Zext(tb, wd)
		} else if tb.w > wd {
			// saturate
			big := w.tt.Cmp(OUle, w.tt.Const(tb.w, uint64(wd)), tb)
			tb = w.tt.Ite(big, w.tt.Const(wd, uint64(wd)), w.tt.Trunc(tb, wd))
		}
	} else {
		tb = w.term(y, wd)
	}
	lt, le := OUlt, OUle
	if bk.signed {
		lt, le = OSlt, OSle
	}
	switch tok {
	case token.ADD:
		return w.fromTerm(w.tt.Bin(OAdd, ta, tb))
	case token.SUB:
		return w.fromTerm(w.tt.Bin(OSub, ta, tb))
	case token.MUL:
		return w.fromTerm(w.tt.Bin(OMul, ta, tb))
	case token.QUO, token.REM:
		if w.decide(w.tt.Eq(tb, w.tt.Const(wd, 0))) {
			w.runtimePanic("integer divide by zero")
		}
		op := OUdiv
		if tok == token.REM {
			op = OUrem
		}
		if bk.signed {
			op = OSdiv
			if tok == token.REM {
				op = OSrem
			}
		}
		return w.fromTerm(w.tt.Bin(op, ta, tb))
	case token.AND:
		return w.fromTerm(w.tt.Bin(OBand, ta, tb))
	case token.OR:
		return w.fromTerm(w.tt.Bin(OBor, ta, tb))
	case token.XOR:
		return w.fromTerm(w.tt.Bin(OBxor, ta, tb))
	case token.AND_NOT:
		return w.fromTerm(w.tt.Bin(OBand, ta, w.tt.BNot(tb)))
	case token.SHL:
		return w.fromTerm(w.tt.Bin(OShl, ta, tb))
	case token.SHR:
		if bk.signed {
			return w.fromTerm(w.tt.Bin(OAshr, ta, tb))
		}
		return w.fromTerm(w.tt.Bin(OLshr, ta, tb))
	case token.LSS:
		return w.fromTerm(w.tt.Cmp(lt, ta, tb))
	case token.LEQ:
		return w.fromTerm(w.tt.Cmp(le, ta, tb))
	case token.GTR:
		return w.fromTerm(w.tt.Cmp(lt, tb, ta))
	case token.GEQ:
		return w.fromTerm(w.tt.Cmp(le, tb, ta))
	}
	panic("intop " + tok.String())
}

func (w *Worker) convert(v Value, from, to types.Type) Value {
	if u, ok := v.(Unsupported); ok {
		return u
	}
	fk, tk := basicInfo(from), basicInfo(to)
	switch {
	case fk.isInt && tk.isInt:
		switch x := v.(type) {
		case uint64:
			if fk.signed {
				return uint64(sext(x, fk.w)) & mask(tk.w)
			}
			return x & mask(tk.w)
		case *Term:
			if tk.w < fk.w {
				return w.fromTerm(w.tt.Trunc(x, tk.w))
			}
			if fk.signed {
				return w.fromTerm(w.tt.Sext(x, tk.w))
			}
			return w.fromTerm(w.tt.Zext(x, tk.w))
		}
	case fk.isInt && tk.isFlt:
		x := w.conc(v)
		var f float64
		if fk.signed {
			f = float64(sext(x, fk.w))
		} else {
			f = float64(x)
		}
		if tk.f32 {
			f = float64(float32(f))
		}
		return f
	case fk.isFlt && tk.isInt:
		f := v.(float64)
		if tk.signed {
			return uint64(int64(f)) & mask(tk.w)
		}
		return uint64(f) & mask(tk.w)
	case fk.isFlt && tk.isFlt:
		if tk.f32 {
			return float64(float32(v.(float64)))
		}
		return v
	case fk.isInt && tk.isStr:
		switch x := v.(type) {
		case uint64:
			return string(rune(sext(x, fk.w)))
		case *Term:
			lim := w.tt.Const(x.w, 0x80)
			if x.w <= 8 && x.w > 0 && mask(x.w) < 0x80 || w.decide(w.tt.Cmp(OUlt, x, lim)) {
				return mkStr([]Value{w.fromTerm(w.tt.Trunc(x, 8))})
			}
			return string(rune(sext(w.concretize(x), fk.w)))
		}
	case fk.isStr && tk.isStr:
		return v
	case fk.isBool && tk.isBool:
		return v
	}
	if fk.isStr {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ek := basicInfo(sl.Elem())
			if ek.w == 8 {
				return w.newByteSlice(strBytes(v))
			}
			// []rune
			var rs []Value
			n := strLen(v)
			for i := 0; i < n; {
				r, sz := w.decodeRune(v, i)
				rs = append(rs, r)
				i += sz
			}
			return w.newSlice(rs, len(rs))
		}
	}
	if tk.isStr {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s := v.(Slice)
			ek := basicInfo(sl.Elem())
			if ek.w == 8 {
				b := w.sliceBytes(s)
				c := make([]Value, len(b))
				copy(c, b)
				return mkStr(c)
			}
			var out []Value
			for _, r := range w.sliceBytes(s) {
				switch x := r.(type) {
				case uint64:
					var buf [4]byte
					n := utf8.EncodeRune(buf[:], rune(sext(x, 32)))
					for i := 0; i < n; i++ {
						out = append(out, byteVals[buf[i]])
					}
				case *Term:
					out = append(out, strBytes(w.convert(x, types.Typ[types.Int32], types.Typ[types.String]))...)
				}
			}
			return mkStr(out)
		}
	}
	// pointers, unsafe pointers
	switch v.(type) {
	case Ptr, SymPtr:
		if tk.isInt {
			w.unsupported("pointer to integer conversion")
		}
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if x, ok := v.(uint64); ok && x == 0 {
			return Ptr{}
		}
		w.unsupported("integer to unsafe.Pointer")
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if sl, ok := from.Underlying().(*types.Slice); ok { // slice to array
		if a, ok := to.Underlying().(*types.Array); ok {
			s := v.(Slice)
			n := int(a.Len())
			if s.len < n {
				w.targetPanicStr("runtime error: cannot convert slice to array")
			}
			sz := n * w.sizeof(sl.Elem())
			out := make(Agg, sz)
			if sz > 0 {
				copy(out, s.o.cells[s.off:s.off+sz])
			}
			return out
		}
	}
	w.unsupported(fmt.Sprintf("conversion %s -> %s (%T)", from, to, v))
	return nil
}

func (w *Worker) builtin(b *ssa.Builtin, args []Value, ci *cinstr) Value {
	k := ci.aux.(*callInfo)
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(x.len)
		case *MapObj:
			if x == nil {
				return zU64
			}
			if w.race != nil {
				w.race.mapRead(w, x)
			}
			return uint64(x.live)
		case *ChanObj:
			if x == nil {
				return zU64
			}
			return uint64(len(x.buf))
		case Ptr: // pointer to array
			return uint64(k.argTs[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case Agg:
			return uint64(k.argTs[0].Underlying().(*types.Array).Len())
		case Unsupported:
			w.unsupported(x.why)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.cap)
		case *ChanObj:
			if x == nil {
				return zU64
			}
			return uint64(x.cap)
		case Ptr:
			return uint64(k.argTs[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case Unsupported:
			w.unsupported(x.why)
		}
	case "append":
		if len(args) < 2 {
			return args[0]
		}
		s, ok := args[0].(Slice)
		if !ok {
			w.unsupported("append to poison")
		}
		st := k.argTs[0].Underlying().(*types.Slice)
		sz := w.sizeof(st.Elem())
		var add []Value
		var n int
		switch y := args[1].(type) {
		case Slice:
			n = y.len
			if n > 0 {
				add = y.o.cells[y.off : y.off+n*sz]
			}
		case string, *SStr:
			add = strBytes(y)
			n = len(add)
		case Unsupported:
			w.unsupported(y.why)
		}
		return w.appendCells(s, add, n, sz, st.Elem())
	case "copy":
		d := args[0].(Slice)
		var src []Value
		n := 0
		sz := w.sizeof(k.argTs[0].Underlying().(*types.Slice).Elem())
		switch y := args[1].(type) {
		case Slice:
			n = min(d.len, y.len)
			if n > 0 {
				src = append([]Value(nil), y.o.cells[y.off:y.off+n*sz]...)
			}
		case string, *SStr:
			n = min(d.len, strLen(y))
			src = strBytes(y)[:n]
		}
		if n > 0 {
			w.writeCells(d.o, d.off, src)
		}
		return uint64(n)
	case "delete":
		m := args[0].(*MapObj)
		if w.race != nil && m != nil {
			w.race.mapWrite(w, m)
		}
		w.mapDelete(m, args[1])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: w.panicText(args[0]), where: w.where()})
	case "recover":
		return w.doRecover()
	case "print", "println":
		return nil
	case "close":
		w.chanClose(args[0])
		return nil
	case "min", "max":
		r := args[0]
		bk := basicInfo(k.argTs[0])
		for _, a := range args[1:] {
			var lt Value
			switch {
			case bk.isStr:
				lt = w.strLess(a, r)
			case bk.isFlt:
				if b.Name() == "min" {
					r = math.Min(r.(float64), a.(float64))
				} else {
					r = math.Max(r.(float64), a.(float64))
				}
				continue
			default:
				lt = w.intop(token.LSS, a, r, bk, 0)
			}
			if b.Name() == "max" {
				if bk.isStr {
					lt = w.strLess(r, a)
				} else {
					lt = w.intop(token.LSS, r, a, bk, 0)
				}
			}
			if c, ok := lt.(bool); ok {
				if c {
					r = a
				}
				continue
			}
			if bk.isStr {
				if w.decide(lt.(*Term)) {
					r = a
				}
				continue
			}
			r = w.fromTerm(w.tt.Ite(lt.(*Term), w.term(a, bk.w), w.term(r, bk.w)))
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x == nil {
				return nil
			}
			w.touch(x.serial)
			if x.serial == 0 && !w.inInit {
				w.journal = append(w.journal, undo{m: x, snap: snapshotMap(x)})
			}
			x.entries, x.idx, x.live, x.symKeys = nil, map[string]int{}, 0, 0
			return nil
		case Slice:
			et := k.argTs[0].Underlying().(*types.Slice).Elem()
			z := w.zeroCells(et, nil)
			for i := 0; i < x.len; i++ {
				w.writeCells(x.o, x.off+i*len(z), z)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference (value method called using nil pointer)")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String(ptr, len)
		n := w.concInt(args[1])
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		if p.o == nil {
			return ""
		}
		c := make([]Value, n)
		copy(c, p.o.cells[p.off:p.off+n])
		return mkStr(c)
	case "StringData":
		n := strLen(args[0])
		if n == 0 {
			return Ptr{}
		}
		return Ptr{w.newObj(append([]Value(nil), strBytes(args[0])...)), 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.o, s.off}
	case "Slice":
		n := w.concInt(args[1])
		p := args[0].(Ptr)
		if p.o == nil {
			return Slice{}
		}
		return Slice{p.o, p.off, n, n}
	}
	w.unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0]))
	return nil
}

func (w *Worker) appendCells(s Slice, add []Value, n, sz int, elem types.Type) Slice {
	if n == 0 {
		return s
	}
	nl := s.len + n
	if nl <= s.cap && s.o != nil {
		w.writeCells(s.o, s.off+s.len*sz, append([]Value(nil), add...))
		return Slice{s.o, s.off, nl, s.cap}
	}
	nc := s.cap * 2
	if nc < nl {
		nc = nl
	}
	if nc < 4 {
		nc = 4
	}
	cells := make([]Value, 0, nc*sz)
	if s.o != nil {
		cells = append(cells, s.o.cells[s.off:s.off+s.len*sz]...)
	}
	cells = append(cells, add...)
	if sz > 0 {
		z := w.zeroCells(elem, nil)
		for len(cells) < nc*sz {
			cells = append(cells, z...)
		}
	}
	return Slice{w.newObj(cells), 0, nl, nc}
}

func (w *Worker) doRecover() Value {
	// the frame calling recover must be the deferred function itself
	fr := w.cur.fr
	for f := fr; f != nil; f = f.caller {
		if f.caller != nil && f.caller.panicking {
			c := f.caller
			c.panicking = false
			return c.panicV.v
		}
		break
	}
	return Iface{}
}
