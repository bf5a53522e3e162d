package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// The formatting engine: implements the subset of fmt that is needed on
// possibly symbolic values.

type sbuf struct{ b []Value }

func (s *sbuf) str(v Value)  { s.b = append(s.b, strBytes(v)...) }
func (s *sbuf) lit(x string) { s.b = append(s.b, strBytes(x)...) }
func (s *sbuf) value() Value { return mkStr(s.b) }

func initFmt() {
	intrinsics["fmt.Sprintf"] = func(w *Worker, fi *fnInfo, a []Value) Value { return w.sprintf(a[0], a[1].(Slice), nil) }
	intrinsics["fmt.Sprint"] = func(w *Worker, fi *fnInfo, a []Value) Value { return w.sprint(a[0].(Slice), false) }
	intrinsics["fmt.Sprintln"] = func(w *Worker, fi *fnInfo, a []Value) Value { return w.sprint(a[0].(Slice), true) }
	intrinsics["fmt.Fprintf"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		return w.fwrite(a[0].(Iface), w.sprintf(a[1], a[2].(Slice), nil))
	}
	intrinsics["fmt.Fprint"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		return w.fwrite(a[0].(Iface), w.sprint(a[1].(Slice), false))
	}
	intrinsics["fmt.Fprintln"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		return w.fwrite(a[0].(Iface), w.sprint(a[1].(Slice), true))
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		intrinsics["fmt."+n] = func(w *Worker, fi *fnInfo, a []Value) Value { return Tuple{zU64, Iface{}} }
	}
	intrinsics["fmt.Appendf"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		s := w.sprintf(a[1], a[2].(Slice), nil)
		return w.appendCells(a[0].(Slice), strBytes(s), strLen(s), 1, types.Typ[types.Uint8])
	}
	intrinsics["fmt.Errorf"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		var wrapped []Iface
		msg := w.sprintf(a[0], a[1].(Slice), &wrapped)
		switch len(wrapped) {
		case 0:
			return w.mkError(msg)
		case 1:
			t := w.eng.typ("fmt", "wrapError")
			return Iface{types.NewPointer(t), Ptr{w.newObj([]Value{msg, wrapped[0]}), 0}}
		default:
			t := w.eng.typ("fmt", "wrapErrors")
			var cells []Value
			for _, e := range wrapped {
				cells = append(cells, e)
			}
			return Iface{types.NewPointer(t), Ptr{w.newObj([]Value{msg, w.newSlice(cells, len(cells))}), 0}}
		}
	}
}

func (w *Worker) fwrite(wr Iface, s Value) Value {
	if wr.t == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	b := w.newByteSlice(strBytes(s))
	r, ok := w.callMethod(wr, "Write", b)
	if !ok {
		w.unsupported("Write method missing on " + wr.t.String())
	}
	return r
}

func (w *Worker) sprint(args Slice, ln bool) Value {
	var out sbuf
	prevStr := true
	for i, a := range w.sliceBytes(args) {
		it := a.(Iface)
		isStr := false
		if it.t != nil {
			isStr = basicInfo(it.t).isStr
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out.lit(" ")
		}
		out.str(w.sprintV(it))
		prevStr = isStr
	}
	if ln {
		out.lit("\n")
	}
	return out.value()
}

func (w *Worker) sprintV(i Iface) Value { return w.fmtVal(i, 'v', "", 0) }

func (w *Worker) sprintf(format Value, args Slice, wrapped *[]Iface) Value {
	var out sbuf
	fb := strBytes(format)
	as := w.sliceBytes(args)
	an := 0
	for i := 0; i < len(fb); {
		c, ok := fb[i].(uint64)
		if !ok {
			// a symbolic byte in a format string: require it not to be '%'
			if w.decide(w.tt.Eq(fb[i].(*Term), w.tt.Const(8, '%'))) {
				c = '%'
			} else {
				out.b = append(out.b, fb[i])
				i++
				continue
			}
		}
		if c != '%' {
			out.b = append(out.b, fb[i])
			i++
			continue
		}
		i++
		flags := ""
		for i < len(fb) {
			u := w.conc(fb[i])
			if strings.ContainsRune("+-# 0123456789.", rune(u)) {
				flags += string(rune(u))
				i++
				continue
			}
			break
		}
		if i >= len(fb) {
			out.lit("%!(NOVERB)")
			break
		}
		verb := byte(w.conc(fb[i]))
		i++
		if verb == '%' {
			out.lit("%")
			continue
		}
		if an >= len(as) {
			out.lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		it, ok2 := as[an].(Iface)
		if !ok2 {
			w.unsupported("poison in format arguments")
		}
		an++
		if verb == 'w' && wrapped != nil {
			if it.t != nil {
				*wrapped = append(*wrapped, it)
			}
			verb = 'v'
		}
		out.str(w.fmtVal(it, verb, flags, 0))
	}
	if an < len(as) {
		out.lit("%!(EXTRA ")
		for k, x := range as[an:] {
			if k > 0 {
				out.lit(", ")
			}
			it := x.(Iface)
			if it.t == nil {
				out.lit("<nil>")
			} else {
				out.lit(it.t.String() + "=")
				out.str(w.fmtVal(it, 'v', "", 0))
			}
		}
		out.lit(")")
	}
	return out.value()
}

func (w *Worker) fmtVal(i Iface, verb byte, flags string, depth int) Value {
	if i.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' {
		if !strings.Contains(flags, "#") {
			for _, m := range []string{"Error", "String"} {
				if f := w.methodByName(i.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && basicInfo(f.Signature.Results().At(0).Type()).isStr {
					if p, ok := i.v.(Ptr); ok && p.o == nil {
						return "<nil>"
					}
					return w.fmtStr(w.callFn(w.info(f), []Value{i.v}, nil), verb, flags)
				}
			}
		}
	}
	bk := basicInfo(i.t)
	switch {
	case bk.isStr:
		return w.fmtStr(i.v, verb, flags)
	case bk.isBool:
		if w.decideV(i.v) {
			return "true"
		}
		return "false"
	case bk.isInt:
		u := w.conc(i.v)
		if verb == 'v' {
			verb = 'd'
		}
		f := "%" + flags + string(rune(verb))
		if bk.signed {
			return fmt.Sprintf(f, sext(u, bk.w))
		}
		return fmt.Sprintf(f, u)
	case bk.isFlt:
		return fmt.Sprintf("%"+flags+string(rune(verb)), i.v.(float64))
	}
	switch u := i.t.Underlying().(type) {
	case *types.Slice:
		s, ok := i.v.(Slice)
		if !ok {
			break
		}
		if basicInfo(u.Elem()).w == 8 && (verb == 's' || verb == 'x' || verb == 'q') {
			return w.fmtStr(mkStr(append([]Value(nil), w.sliceBytes(s)...)), verb, flags)
		}
		var out sbuf
		out.lit("[")
		for k := 0; k < s.len; k++ {
			if k > 0 {
				out.lit(" ")
			}
			sz := w.sizeof(u.Elem())
			out.str(w.fmtVal(w.asIface(w.load(Ptr{s.o, s.off + k*sz}, u.Elem()), u.Elem()), verb, flags, depth+1))
		}
		out.lit("]")
		return out.value()
	case *types.Array:
		a := i.v.(Agg)
		if basicInfo(u.Elem()).w == 8 && (verb == 's' || verb == 'x') {
			return w.fmtStr(mkStr(append([]Value(nil), a...)), verb, flags)
		}
	case *types.Map:
		m := i.v.(*MapObj)
		if m == nil || m.live == 0 {
			return "map[]"
		}
	case *types.Pointer:
		p, ok := i.v.(Ptr)
		if ok && p.o == nil {
			return "<nil>"
		}
		if depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return strConcat("&", w.fmtVal(Iface{u.Elem(), w.load(p, u.Elem())}, verb, flags, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Struct:
		a, ok := i.v.(Agg)
		if !ok {
			break
		}
		var out sbuf
		out.lit("{")
		off := 0
		for k := 0; k < u.NumFields(); k++ {
			if k > 0 {
				out.lit(" ")
			}
			ft := u.Field(k).Type()
			n := w.sizeof(ft)
			if strings.Contains(flags, "+") {
				out.lit(u.Field(k).Name() + ":")
			}
			var fv Value
			if isAgg(ft) {
				fv = a[off : off+n : off+n]
			} else {
				fv = a[off]
			}
			out.str(w.fmtVal(w.asIface(fv, ft), verb, flags, depth+1))
			off += n
		}
		out.lit("}")
		return out.value()
	}
	w.unsupported("formatting of " + i.t.String())
	return nil
}

func (w *Worker) asIface(v Value, t types.Type) Iface {
	if types.IsInterface(t) {
		return v.(Iface)
	}
	return Iface{t, v}
}

func (w *Worker) fmtStr(s Value, verb byte, flags string) Value {
	switch verb {
	case 'v', 's':
		if strings.Contains(flags, "#") {
			return strConcat(strConcat("\"", s), "\"")
		}
		if flags != "" && flags != "+" {
			if x, ok := s.(string); ok {
				return fmt.Sprintf("%"+flags+"s", x)
			}
			w.unsupported("padded format of symbolic string")
		}
		return s
	case 'q':
		if x, ok := s.(string); ok {
			return strconv.Quote(x)
		}
		// symbolic: assume no escaping is needed, otherwise concretise
		f := w.eng.fn("strconv", "Quote")
		return w.callFn(w.info(f), []Value{s}, nil)
	case 'x':
		b := w.concBytes(strBytes(s))
		return fmt.Sprintf("%x", b)
	case 'd':
		return strConcat(strConcat("%!d(string=", s), ")")
	}
	w.unsupported("format verb " + string(rune(verb)) + " for string")
	return nil
}
