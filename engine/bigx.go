package main

import (
	"math/big"
)

// math/big.Int: a value is kept in the object's host field as either a *big.Int
// (concrete) or a 64-bit term (symbolic, known to be < 10^18).

type bigVal struct {
	c *big.Int
	t *Term
}

func bigOf(w *Worker, v Value) *bigVal {
	p := w.resolvePtr(v)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if b, ok := p.o.host.(*bigVal); ok && b != nil {
		return b
	}
	return &bigVal{c: big.NewInt(0)}
}

func setBig(w *Worker, v Value, b *bigVal) {
	p := w.resolvePtr(v)
	w.touch(p.o.serial)
	old := p.o.host
	if p.o.serial == 0 && !w.inInit {
		w.journal = append(w.journal, undo{fn: func() { p.o.host = old }})
	}
	p.o.host = b
}

func initBig() {
	intrinsics["math/big.NewInt"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		p := w.alloc(w.eng.typ("math/big", "Int"))
		switch x := a[0].(type) {
		case uint64:
			p.o.host = &bigVal{c: big.NewInt(int64(x))}
		case *Term:
			p.o.host = &bigVal{t: x}
		}
		return p
	}
	intrinsics["(*math/big.Int).SetString"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		base := w.concInt(a[2])
		if s, ok := a[1].(string); ok {
			b, ok := new(big.Int).SetString(s, base)
			if !ok {
				return Tuple{Ptr{}, false}
			}
			setBig(w, a[0], &bigVal{c: b})
			return Tuple{a[0], true}
		}
		bs := strBytes(a[1])
		if base != 10 || len(bs) > 17 {
			w.unsupported("big.Int.SetString on long symbolic text")
		}
		// all digits?
		all := w.tt.True
		for _, b := range bs {
			t := w.term(b, 8)
			all = w.tt.And(all, w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, '0'), t), w.tt.Cmp(OUle, t, w.tt.Const(8, '9'))))
		}
		if !w.decide(all) {
			// signs and underscores: decide by concretising (underscores are invalid in base 10)
			out := make([]byte, len(bs))
			first := w.term(bs[0], 8)
			sign := w.tt.Or(w.tt.Eq(first, w.tt.Const(8, '+')), w.tt.Eq(first, w.tt.Const(8, '-')))
			if !w.decide(sign) || len(bs) == 1 {
				return Tuple{Ptr{}, false}
			}
			rest := w.tt.True
			for _, b := range bs[1:] {
				t := w.term(b, 8)
				rest = w.tt.And(rest, w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, '0'), t), w.tt.Cmp(OUle, t, w.tt.Const(8, '9'))))
			}
			if !w.decide(rest) {
				return Tuple{Ptr{}, false}
			}
			for i, b := range bs {
				out[i] = byte(w.conc(b))
			}
			b, ok := new(big.Int).SetString(string(out), base)
			if !ok {
				return Tuple{Ptr{}, false}
			}
			setBig(w, a[0], &bigVal{c: b})
			return Tuple{a[0], true}
		}
		// few digits fit narrow vectors; 64 bits keep one width for comparisons
		v := w.tt.Const(64, 0)
		for _, b := range bs {
			d := w.tt.Bin(OSub, w.term(b, 8), w.tt.Const(8, '0'))
			v = w.tt.Bin(OAdd, w.tt.Bin(OMul, v, w.tt.Const(64, 10)), w.tt.Zext(d, 64))
		}
		setBig(w, a[0], &bigVal{t: v})
		return Tuple{a[0], true}
	}
	intrinsics["(*math/big.Int).Cmp"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		x, y := bigOf(w, a[0]), bigOf(w, a[1])
		if x.t == nil && y.t == nil {
			return uint64(int64(x.c.Cmp(y.c)))
		}
		tm := func(b *bigVal) *Term {
			if b.t != nil {
				return b.t
			}
			if !b.c.IsInt64() {
				w.unsupported("comparison of symbolic with huge big.Int")
			}
			return w.tt.Const(64, uint64(b.c.Int64()))
		}
		p, q := tm(x), tm(y)
		return w.fromTerm(w.tt.Ite(w.tt.Cmp(OSlt, p, q), w.tt.Const(64, ^uint64(0)), w.tt.Ite(w.tt.Eq(p, q), w.tt.Const(64, 0), w.tt.Const(64, 1))))
	}
	intrinsics["(*math/big.Int).String"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		x := bigOf(w, a[0])
		if x.t == nil {
			return x.c.String()
		}
		return big.NewInt(int64(w.concretize(x.t))).String()
	}
	intrinsics["(*math/big.Int).Sign"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		x := bigOf(w, a[0])
		if x.t == nil {
			return uint64(int64(x.c.Sign()))
		}
		return w.fromTerm(w.tt.Ite(w.tt.Eq(x.t, w.tt.Const(64, 0)), w.tt.Const(64, 0), w.tt.Const(64, 1)))
	}
	intrinsics["(*math/big.Int).Int64"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		x := bigOf(w, a[0])
		if x.t == nil {
			return uint64(x.c.Int64())
		}
		return w.fromTerm(x.t)
	}
	intrinsics["(*math/big.Int).IsInt64"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		x := bigOf(w, a[0])
		return x.t != nil || x.c.IsInt64()
	}
}
