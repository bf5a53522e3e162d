package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	idx int
	c   Value
	g   *gslot
}

type gslot struct {
	g    *ssa.Global
	ptr  Ptr
	done bool
}

type opc uint8

const (
	iOther opc = iota
	iAlloc
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iUnOp
	iNop
	iSliceToArrayPtr
)

type cinstr struct {
	op   opc
	in   ssa.Instruction
	dst  int
	ops  []operand
	t    types.Type // result / element type
	n    int        // field offset / size etc.
	n2   int
	bk   BasicKind
	tok  token.Token
	pos  token.Pos
	aux  any
	flag bool
}

type cblock struct {
	instrs []cinstr
	phis   []cinstr
	succs  []int
	preds  []int
}

type fnInfo struct {
	fn       *ssa.Function
	blocks   []cblock
	nregs    int
	host     intrinsic
	redirect *fnInfo
	hasDefer bool
	compiled bool
	resT     types.Type
	mergeOK  bool
	isInit   bool
	name     string
	recover  int
	model    bool
}

type intrinsic func(w *Worker, fi *fnInfo, args []Value) Value

type frame struct {
	fi        *fnInfo
	regs      []Value
	env       []Value
	caller    *frame
	pos       token.Pos
	defers    []deferred
	panicking bool
	panicV    targetPanic
	recovered bool
	deferOf   *frame // set when this frame runs as a deferred call of another
	result    Value
}

type deferred struct {
	fn   Value
	args []Value
	ci   *cinstr
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fis[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String(), recover: -1}
	w.fis[fn] = fi
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := intrinsics[name]; ok {
		fi.host = h
	} else if r, ok := w.eng.redirects[name]; ok {
		fi.redirect = w.info(r)
	} else if p := fnPkg(fn); p != nil {
		if h := w.pkgIntrinsic(p.Pkg.Path(), fn); h != nil {
			fi.host = h
		}
	}
	sig := fn.Signature
	switch sig.Results().Len() {
	case 0:
	case 1:
		fi.resT = sig.Results().At(0).Type()
	default:
		fi.resT = sig.Results()
	}
	fi.mergeOK = mergeable(fi.resT) && !w.eng.noMerge[name]
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func mergeable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !mergeable(u.Field(i).Type()) {
				return false
			}
		}
		return u.NumFields() > 0
	case *types.Array:
		return mergeable(u.Elem())
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Tuple:
		n := 0
		for i := 0; i < u.Len(); i++ {
			if !mergeable(u.At(i).Type()) {
				return false
			}
			if _, ok := u.At(i).Type().Underlying().(*types.Basic); ok {
				n++
			}
		}
		return n > 0
	}
	return false
}

func (w *Worker) compile(fi *fnInfo) {
	fi.compiled = true
	fn := fi.fn
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.isInit = fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil
	opnd := func(v ssa.Value) operand {
		if v == nil {
			return operand{idx: -1}
		}
		if i, ok := regs[v]; ok {
			return operand{idx: i}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return operand{idx: -1, c: w.constVal(v)}
		case *ssa.Global:
			return operand{idx: -1, g: w.gslot(v)}
		case *ssa.Function:
			return operand{idx: -1, c: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{idx: -1, c: v}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = v.Type()
			}
			o := func(vs ...ssa.Value) {
				for _, v := range vs {
					ci.ops = append(ci.ops, opnd(v))
				}
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ci.op = iPhi
				o(in.Edges...)
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.t = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				ci.op = iBinOp
				o(in.X, in.Y)
				ci.tok = in.Op
				ci.bk = basicInfo(in.X.Type())
				ci.aux = in.X.Type()
				if in.Op == token.SHL || in.Op == token.SHR {
					ci.n = int(basicInfo(in.Y.Type()).w)
				}
			case *ssa.UnOp:
				ci.op = iUnOp
				o(in.X)
				ci.tok = in.Op
				ci.bk = basicInfo(in.X.Type())
				ci.flag = in.CommaOk
			case *ssa.Call:
				ci.op = iCall
				w.compileCall(&ci, &in.Call, o)
			case *ssa.Defer:
				ci.op = iDefer
				w.compileCall(&ci, &in.Call, o)
				fi.hasDefer = true
			case *ssa.Go:
				ci.op = iGo
				w.compileCall(&ci, &in.Call, o)
			case *ssa.ChangeInterface:
				ci.op = iChangeInterface
				o(in.X)
			case *ssa.ChangeType:
				ci.op = iChangeType
				o(in.X)
			case *ssa.Convert:
				ci.op = iConvert
				o(in.X)
				ci.aux = in.X.Type()
			case *ssa.MultiConvert:
				ci.op = iConvert
				o(in.X)
				ci.aux = in.X.Type()
			case *ssa.Extract:
				ci.op = iExtract
				o(in.Tuple)
				ci.n = in.Index
			case *ssa.Field:
				ci.op = iField
				o(in.X)
				st := in.X.Type().Underlying().(*types.Struct)
				ci.n = w.fieldOff(st, in.Field)
				ci.n2 = w.sizeof(st.Field(in.Field).Type())
				ci.flag = isAgg(st.Field(in.Field).Type())
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				o(in.X)
				st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				ci.n = w.fieldOff(st, in.Field)
			case *ssa.If:
				ci.op = iIf
				o(in.Cond)
			case *ssa.Index:
				ci.op = iIndex
				o(in.X, in.Index)
				switch u := in.X.Type().Underlying().(type) {
				case *types.Array:
					ci.n = int(u.Len())
					ci.n2 = w.sizeof(u.Elem())
					ci.flag = isAgg(u.Elem())
				}
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				o(in.X, in.Index)
				switch u := in.X.Type().Underlying().(type) {
				case *types.Pointer:
					a := u.Elem().Underlying().(*types.Array)
					ci.n = int(a.Len())
					ci.n2 = w.sizeof(a.Elem())
					ci.flag = true
				case *types.Slice:
					ci.n2 = w.sizeof(u.Elem())
				default:
					panic("IndexAddr")
				}
			case *ssa.Jump:
				ci.op = iJump
			case *ssa.Lookup:
				ci.op = iLookup
				o(in.X, in.Index)
				ci.flag = in.CommaOk
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					ci.aux = m.Elem()
				}
			case *ssa.MakeChan:
				ci.op = iMakeChan
				o(in.Size)
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				o(in.Fn)
				o(in.Bindings...)
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				o(in.X)
				ci.aux = in.X.Type()
			case *ssa.MakeMap:
				ci.op = iMakeMap
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				o(in.Len, in.Cap)
				ci.t = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				o(in.Map, in.Key, in.Value)
			case *ssa.Next:
				ci.op = iNext
				o(in.Iter)
				ci.flag = in.IsString
			case *ssa.Panic:
				ci.op = iPanic
				o(in.X)
			case *ssa.Range:
				ci.op = iRange
				o(in.X)
			case *ssa.Return:
				ci.op = iReturn
				o(in.Results...)
			case *ssa.RunDefers:
				ci.op = iRunDefers
			case *ssa.Select:
				ci.op = iSelect
				for _, s := range in.States {
					o(s.Chan, s.Send)
				}
			case *ssa.Send:
				ci.op = iSend
				o(in.Chan, in.X)
			case *ssa.Slice:
				ci.op = iSlice
				o(in.X, in.Low, in.High, in.Max)
				ci.aux = in.X.Type()
			case *ssa.SliceToArrayPointer:
				ci.op = iSliceToArrayPtr
				o(in.X)
				ci.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				ci.op = iStore
				o(in.Addr, in.Val)
				ci.t = in.Val.Type()
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				o(in.X)
				ci.flag = in.CommaOk
				ci.t = in.AssertedType
			default:
				panic(fmt.Sprintf("compile %T", in))
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
}

type callInfo struct {
	invoke bool
	method *types.Func
	static *ssa.Function
	sfi    *fnInfo
	bi     *ssa.Builtin
	argTs  []types.Type
}

func (w *Worker) compileCall(ci *cinstr, c *ssa.CallCommon, o func(vs ...ssa.Value)) {
	k := &callInfo{}
	for _, a := range c.Args {
		k.argTs = append(k.argTs, a.Type())
	}
	if c.IsInvoke() {
		k.invoke = true
		k.method = c.Method
	} else if f, ok := c.Value.(*ssa.Function); ok {
		k.static = f
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		k.bi = b
	}
	o(c.Value)
	o(c.Args...)
	ci.aux = k
}

// ---- globals & package init ----

func (w *Worker) gslot(g *ssa.Global) *gslot {
	if s, ok := w.globals[g]; ok {
		return s
	}
	s := &gslot{g: g}
	old := w.inInit
	w.inInit = true
	s.ptr = w.alloc(g.Type().Underlying().(*types.Pointer).Elem())
	w.inInit = old
	w.globals[g] = s
	return s
}

func (w *Worker) globalPtr(s *gslot) Value {
	if !s.done {
		w.initPkg(s.g.Pkg)
		s.done = true
	}
	return s.ptr
}

func (w *Worker) initPkg(p *ssa.Package) {
	if p == nil || w.inits[p] != 0 {
		return
	}
	w.inits[p] = 1
	if w.eng.skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	old := w.inInit
	oldPC := w.mergeOff
	w.inInit = true
	w.mergeOff = true
	savedFr := (*frame)(nil)
	tmp := false
	if w.cur == nil {
		w.cur = &gor{}
		tmp = true
	}
	savedFr = w.cur.fr
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case pathAbort, targetPanic:
					if w.eng.verbose {
						fmt.Printf("init of %s: %v\n", p.Pkg.Path(), x)
					}
				default:
					panic(x)
				}
			}
		}()
		w.execFn(w.info(f), nil, nil)
	}()
	w.cur.fr = savedFr
	if tmp {
		w.cur = nil
	}
	w.inInit = old
	w.mergeOff = oldPC
	w.inits[p] = 2
}

func (fr *frame) get(w *Worker, o *operand) Value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	if o.g != nil {
		return w.globalPtr(o.g)
	}
	return o.c
}

// ---- calls ----

func (w *Worker) callValue(f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if f.host != nil {
			return f.host(w, args)
		}
		return w.callFn(w.info(f.fn), args, f.env)
	case Unsupported:
		w.unsupported(f.why)
	}
	panic(fmt.Sprintf("call of %T", f))
}

func (w *Worker) callFn(fi *fnInfo, args []Value, env []Value) Value {
	if fi.redirect != nil && !w.inModelOf(fi) {
		fi = fi.redirect
	}
	if fi.host != nil {
		return fi.host(w, fi, args)
	}
	if fi.isInit && w.reinit != nil && fi.fn.Pkg != w.reinit {
		return nil // initialised on demand, once
	}
	if fi.mergeOK && !w.mergeOff && len(w.gors) <= 1 && !w.inInit {
		sym := false
		for _, a := range args {
			if hasSym(a, 2) {
				sym = true
				break
			}
		}
		if !sym {
			for _, a := range env {
				if hasSym(a, 2) {
					sym = true
					break
				}
			}
		}
		if sym {
			if r, ok := w.callMerged(fi, args, env); ok {
				return r
			}
		}
	}
	return w.execFn(fi, args, env)
}

func (w *Worker) inModelOf(fi *fnInfo) bool { return false }

const maxDepth = 3000

func (w *Worker) execFn(fi *fnInfo, args []Value, env []Value) Value {
	if !fi.compiled {
		if len(fi.fn.Blocks) == 0 {
			w.unsupported("function without body: " + fi.name)
		}
		w.compile(fi)
		w.run.addFn(fi)
	} else if !w.inInit {
		w.run.addFn(fi)
	}
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs), env: env, caller: w.cur.fr}
	copy(fr.regs, args)
	copy(fr.regs[len(fi.fn.Params):], env)
	w.cur.depth++
	if w.cur.depth > maxDepth {
		panic(pathAbort{kind: "steps", why: "recursion depth in " + fi.name})
	}
	w.cur.fr = fr
	g := w.cur
	var res Value
	if fi.hasDefer {
		res = w.execDefer(fr)
	} else {
		res = w.exec(fr, 0)
	}
	g.fr = fr.caller
	g.depth--
	return res
}

func (w *Worker) execDefer(fr *frame) (res Value) {
	g := w.cur
	depth := g.depth
	func() {
		defer func() {
			if x := recover(); x != nil {
				tp, ok := x.(targetPanic)
				if !ok {
					panic(x)
				}
				g.fr = fr
				g.depth = depth
				fr.panicking = true
				fr.panicV = tp
			}
		}()
		res = w.exec(fr, 0)
	}()
	if !fr.panicking {
		return res
	}
	w.runDefers(fr)
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered
	if fr.fi.recover >= 0 {
		return w.exec(fr, fr.fi.recover)
	}
	return w.zeroResult(fr.fi)
}

func (w *Worker) zeroResult(fi *fnInfo) Value {
	if fi.resT == nil {
		return nil
	}
	return w.zero(fi.resT)
}

func (w *Worker) runDefers(fr *frame) {
	g := w.cur
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := g.depth
		func() {
			defer func() {
				if x := recover(); x != nil {
					tp, ok := x.(targetPanic)
					if !ok {
						panic(x)
					}
					g.fr = fr
					g.depth = depth
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			w.deferOwner = fr
			w.invokeCall(d.fn, d.args, d.ci)
		}()
	}
}

func (w *Worker) invokeCall(fn Value, args []Value, ci *cinstr) Value {
	if b, ok := fn.(*ssa.Builtin); ok {
		return w.builtin(b, args, ci)
	}
	return w.callValue(fn, args)
}

// prepCall evaluates callee and arguments.
func (w *Worker) prepCall(fr *frame, ci *cinstr) (Value, []Value) {
	k := ci.aux.(*callInfo)
	if k.invoke {
		recv := fr.get(w, &ci.ops[0])
		args := make([]Value, len(ci.ops))
		for i := 1; i < len(ci.ops); i++ {
			args[i] = fr.get(w, &ci.ops[i])
		}
		itf, ok := recv.(Iface)
		if !ok {
			if u, ok := recv.(Unsupported); ok {
				w.unsupported(u.why)
			}
			panic(fmt.Sprintf("invoke on %T", recv))
		}
		if itf.t == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		f := w.findMethod(itf.t, k.method)
		args[0] = itf.v
		return &Closure{fn: f}, args
	}
	fn := fr.get(w, &ci.ops[0])
	args := make([]Value, len(ci.ops)-1)
	for i := range args {
		args[i] = fr.get(w, &ci.ops[i+1])
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m string
}

func (w *Worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	id := m.Id()
	k := methKey{t, id}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		w.unsupported("method " + m.Name() + " not found on " + t.String())
	}
	w.methods[k] = f
	return f
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "." + name}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, nil, name)
	w.methods[k] = f
	return f
}

// ---- main loop ----

func (w *Worker) exec(fr *frame, start int) Value {
	fi := fr.fi
	block, prev := start, -1
	var phiTmp []Value
	for {
		cb := &fi.blocks[block]
		w.steps += int64(len(cb.instrs)) + 1
		if w.steps > w.maxSteps && !w.inInit {
			panic(pathAbort{kind: "steps", why: fi.name})
		}
		if len(cb.phis) > 0 {
			pi := 0
			for i, p := range cb.preds {
				if p == prev {
					pi = i
					break
				}
			}
			phiTmp = phiTmp[:0]
			for i := range cb.phis {
				phiTmp = append(phiTmp, fr.get(w, &cb.phis[i].ops[pi]))
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = phiTmp[i]
			}
		}
		for ii := range cb.instrs {
			ci := &cb.instrs[ii]
			if ci.pos.IsValid() {
				fr.pos = ci.pos
			}
			switch ci.op {
			case iJump:
				prev, block = block, cb.succs[0]
				goto nextBlock
			case iIf:
				c := fr.get(w, &ci.ops[0])
				var b bool
				switch c := c.(type) {
				case bool:
					b = c
				case *Term:
					b = w.decide(c)
				default:
					b = w.decideV(c)
				}
				prev = block
				if b {
					block = cb.succs[0]
				} else {
					block = cb.succs[1]
				}
				goto nextBlock
			case iReturn:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return fr.get(w, &ci.ops[0])
				}
				t := make(Tuple, len(ci.ops))
				for i := range ci.ops {
					t[i] = fr.get(w, &ci.ops[i])
				}
				return t
			default:
				if fi.isInit && w.inInit {
					w.initInstr(fr, ci)
				} else {
					w.instr(fr, ci)
				}
			}
		}
		panic("fell off block in " + fi.name)
	nextBlock:
	}
}

// initInstr executes an instruction of a package initialiser; failures poison
// the result instead of aborting.
func (w *Worker) initInstr(fr *frame, ci *cinstr) {
	g := w.cur
	depth := g.depth
	defer func() {
		if x := recover(); x != nil {
			var why string
			switch x := x.(type) {
			case pathAbort:
				why = x.why
			case targetPanic:
				why = "panic in init: " + x.msg
			default:
				panic(x)
			}
			g.fr = fr
			g.depth = depth
			if w.eng.verbose {
				fmt.Printf("init poison %s: %v: %s\n", fr.fi.name, ci.in, why)
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Unsupported{why}
			} else if ci.op == iStore {
				if p, ok := fr.get(w, &ci.ops[0]).(Ptr); ok && p.o != nil {
					n := w.sizeof(ci.t)
					for i := 0; i < n && p.off+i < len(p.o.cells); i++ {
						p.o.cells[p.off+i] = Unsupported{why}
					}
				}
			}
		}
	}()
	w.instr(fr, ci)
}

func (w *Worker) instr(fr *frame, ci *cinstr) {
	switch ci.op {
	case iCall:
		k := ci.aux.(*callInfo)
		if k.static != nil {
			if k.sfi == nil {
				k.sfi = w.info(k.static)
			}
			args := make([]Value, len(ci.ops)-1)
			for i := range args {
				args[i] = fr.get(w, &ci.ops[i+1])
			}
			fr.regs[ci.dst] = w.callFn(k.sfi, args, nil)
			return
		}
		if k.bi != nil {
			args := make([]Value, len(ci.ops)-1)
			for i := range args {
				args[i] = fr.get(w, &ci.ops[i+1])
			}
			fr.regs[ci.dst] = w.builtin(k.bi, args, ci)
			return
		}
		fn, args := w.prepCall(fr, ci)
		fr.regs[ci.dst] = w.callValue(fn, args)
	case iAlloc:
		fr.regs[ci.dst] = w.alloc(ci.t)
	case iBinOp:
		fr.regs[ci.dst] = w.binop(ci, fr.get(w, &ci.ops[0]), fr.get(w, &ci.ops[1]))
	case iUnOp:
		x := fr.get(w, &ci.ops[0])
		switch ci.tok {
		case token.MUL:
			if w.race != nil {
				w.raceRead(x)
			}
			if p, ok := x.(Ptr); ok && p.o != nil && p.off < len(p.o.cells) && !isAgg(ci.t) {
				fr.regs[ci.dst] = p.o.cells[p.off]
				return
			}
			fr.regs[ci.dst] = w.load(x, ci.t)
		case token.ARROW:
			fr.regs[ci.dst] = w.chanRecv(x, ci)
		case token.NOT:
			switch x := x.(type) {
			case bool:
				fr.regs[ci.dst] = !x
			default:
				fr.regs[ci.dst] = w.fromTerm(w.tt.Not(w.boolTerm(x)))
			}
		case token.SUB:
			switch x := x.(type) {
			case uint64:
				fr.regs[ci.dst] = -x & mask(ci.bk.w)
			case float64:
				fr.regs[ci.dst] = -x
			default:
				fr.regs[ci.dst] = w.fromTerm(w.tt.Neg(w.term(x, ci.bk.w)))
			}
		case token.XOR:
			switch x := x.(type) {
			case uint64:
				fr.regs[ci.dst] = ^x & mask(ci.bk.w)
			default:
				fr.regs[ci.dst] = w.fromTerm(w.tt.BNot(w.term(x, ci.bk.w)))
			}
		default:
			panic("unop " + ci.tok.String())
		}
	case iStore:
		p := fr.get(w, &ci.ops[0])
		v := fr.get(w, &ci.ops[1])
		w.store(p, ci.t, v)
	case iFieldAddr:
		switch p := fr.get(w, &ci.ops[0]).(type) {
		case Ptr:
			if p.o == nil {
				w.runtimePanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[ci.dst] = Ptr{p.o, p.off + ci.n}
		case SymPtr:
			q := w.resolvePtr(p)
			fr.regs[ci.dst] = Ptr{q.o, q.off + ci.n}
		case Unsupported:
			w.unsupported(p.why)
		default:
			panic(fmt.Sprintf("fieldaddr %T", p))
		}
	case iField:
		a := fr.get(w, &ci.ops[0])
		ag, ok := a.(Agg)
		if !ok {
			if u, ok := a.(Unsupported); ok {
				w.unsupported(u.why)
			}
			panic(fmt.Sprintf("field of %T", a))
		}
		if ci.flag {
			fr.regs[ci.dst] = ag[ci.n : ci.n+ci.n2 : ci.n+ci.n2]
		} else {
			fr.regs[ci.dst] = ag[ci.n]
		}
	case iIndexAddr:
		fr.regs[ci.dst] = w.indexAddr(ci, fr.get(w, &ci.ops[0]), fr.get(w, &ci.ops[1]))
	case iIndex:
		x := fr.get(w, &ci.ops[0])
		idx := fr.get(w, &ci.ops[1])
		switch x := x.(type) {
		case Agg:
			if t, ok := idx.(*Term); ok && !ci.flag {
				w.boundsCheck(t, ci.n)
				o := &Obj{cells: x}
				fr.regs[ci.dst] = w.loadSym(SymPtr{o, 0, ci.n2, ci.n, t}, ci.t)
				return
			}
			i := w.checkedIndex(idx, ci.n)
			if ci.flag {
				fr.regs[ci.dst] = x[i*ci.n2 : (i+1)*ci.n2 : (i+1)*ci.n2]
			} else {
				fr.regs[ci.dst] = x[i]
			}
		case string, *SStr:
			fr.regs[ci.dst] = w.strIndex(x, idx)
		case Unsupported:
			w.unsupported(x.why)
		default:
			panic(fmt.Sprintf("index of %T", x))
		}
	case iExtract:
		t := fr.get(w, &ci.ops[0])
		tp, ok := t.(Tuple)
		if !ok {
			if u, ok := t.(Unsupported); ok {
				fr.regs[ci.dst] = u
				return
			}
			panic(fmt.Sprintf("extract from %T in %s: %v", t, fr.fi.name, ci.in))
		}
		fr.regs[ci.dst] = tp[ci.n]
	case iChangeType:
		fr.regs[ci.dst] = fr.get(w, &ci.ops[0])
	case iChangeInterface:
		fr.regs[ci.dst] = fr.get(w, &ci.ops[0])
	case iMakeInterface:
		v := fr.get(w, &ci.ops[0])
		if u, ok := v.(Unsupported); ok && !w.inInit {
			w.unsupported(u.why)
		}
		fr.regs[ci.dst] = Iface{ci.aux.(types.Type), v}
	case iTypeAssert:
		fr.regs[ci.dst] = w.typeAssert(ci, fr.get(w, &ci.ops[0]))
	case iConvert:
		fr.regs[ci.dst] = w.convert(fr.get(w, &ci.ops[0]), ci.aux.(types.Type), ci.t)
	case iMakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(w, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: ci.ops[0].c.(*Closure).fn, env: env}
	case iMakeMap:
		fr.regs[ci.dst] = w.newMap()
	case iMakeSlice:
		n := w.concInt(fr.get(w, &ci.ops[0]))
		c := w.concInt(fr.get(w, &ci.ops[1]))
		if n < 0 || n > c {
			w.targetPanicStr("runtime error: makeslice: len out of range")
		}
		if c > 50_000_000 {
			w.unsupported("huge makeslice")
		}
		fr.regs[ci.dst] = w.makeSlice(ci.t, n, c)
	case iMapUpdate:
		m, ok := fr.get(w, &ci.ops[0]).(*MapObj)
		if !ok {
			w.unsupported("map update on poison")
		}
		if w.race != nil && m != nil {
			w.race.mapWrite(w, m)
		}
		w.mapSet(m, fr.get(w, &ci.ops[1]), fr.get(w, &ci.ops[2]))
	case iLookup:
		x := fr.get(w, &ci.ops[0])
		k := fr.get(w, &ci.ops[1])
		switch m := x.(type) {
		case *MapObj:
			if w.race != nil && m != nil {
				w.race.mapRead(w, m)
			}
			i := w.mapFind(m, k)
			var v Value
			if i >= 0 {
				v = m.entries[i].v
			} else {
				v = w.zero(ci.aux.(types.Type))
			}
			if ci.flag {
				fr.regs[ci.dst] = Tuple{v, i >= 0}
			} else {
				fr.regs[ci.dst] = v
			}
		case string, *SStr:
			fr.regs[ci.dst] = w.strIndex(m, k)
		case Unsupported:
			w.unsupported(m.why)
		default:
			panic(fmt.Sprintf("lookup %T", x))
		}
	case iRange:
		fr.regs[ci.dst] = w.rangeIter(fr.get(w, &ci.ops[0]))
	case iNext:
		fr.regs[ci.dst] = w.iterNext(fr.get(w, &ci.ops[0]).(*Iter), ci)
	case iSlice:
		fr.regs[ci.dst] = w.slice(ci, fr.get(w, &ci.ops[0]), fr.get(w, &ci.ops[1]), fr.get(w, &ci.ops[2]), fr.get(w, &ci.ops[3]))
	case iSliceToArrayPtr:
		s := fr.get(w, &ci.ops[0]).(Slice)
		if s.len < ci.n {
			w.targetPanicStr("runtime error: cannot convert slice to array pointer")
		}
		fr.regs[ci.dst] = Ptr{s.o, s.off}
	case iPanic:
		v := fr.get(w, &ci.ops[0])
		panic(targetPanic{v: v, msg: w.panicText(v), where: w.where()})
	case iDefer:
		fn, args := w.prepCall(fr, ci)
		fr.defers = append(fr.defers, deferred{fn, args, ci})
	case iRunDefers:
		w.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
	case iGo:
		fn, args := w.prepCall(fr, ci)
		w.spawn(fn, args, ci)
	case iMakeChan:
		c := &ChanObj{cap: w.concInt(fr.get(w, &ci.ops[0]))}
		if !w.inInit {
			w.serial++
			c.serial = w.serial
		}
		fr.regs[ci.dst] = c
	case iSend:
		w.chanSend(fr.get(w, &ci.ops[0]), fr.get(w, &ci.ops[1]))
	case iSelect:
		fr.regs[ci.dst] = w.selectOp(fr, ci)
	default:
		panic(fmt.Sprintf("instr %T", ci.in))
	}
}

func (w *Worker) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	s := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				s = "(" + i.t.String() + ")"
			}
		}()
		s = w.render(w.sprintV(i))
	}()
	return s
}

func (w *Worker) runtimePanic(msg string) {
	panic(targetPanic{v: w.runtimeErr(msg), msg: "runtime error: " + msg, rt: true, where: w.where()})
}

func (w *Worker) targetPanicStr(msg string) {
	panic(targetPanic{v: w.runtimeErr(strings.TrimPrefix(msg, "runtime error: ")), msg: msg, rt: true, where: w.where()})
}

// runtimeErr makes an error value; we use errors.errorString.
func (w *Worker) runtimeErr(msg string) Value {
	return w.mkError("runtime error: " + msg)
}

func (w *Worker) mkError(msg Value) Value {
	t := w.eng.errorStringT
	p := Ptr{w.newObj([]Value{msg}), 0}
	return Iface{types.NewPointer(t), p}
}

func (w *Worker) makeSlice(elem types.Type, n, c int) Slice {
	sz := w.sizeof(elem)
	cells := make([]Value, 0, c*sz)
	if sz == 1 {
		z := w.zeroCells(elem, nil)[0]
		for i := 0; i < c; i++ {
			cells = append(cells, z)
		}
	} else if sz > 0 {
		z := w.zeroCells(elem, nil)
		for i := 0; i < c; i++ {
			cells = append(cells, z...)
		}
	}
	return Slice{w.newObj(cells), 0, n, c}
}

func (w *Worker) boundsCheck(t *Term, n int) {
	c := w.tt.Cmp(OUlt, t, w.tt.Const(t.w, uint64(n)))
	if t.w < 64 && uint64(n) > mask(t.w) {
		return
	}
	if !w.decide(c) {
		w.runtimePanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
}

func (w *Worker) checkedIndex(idx Value, n int) int {
	switch x := idx.(type) {
	case uint64:
		if x >= uint64(n) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n))
		}
		return int(x)
	case *Term:
		w.boundsCheck(x, n)
		return int(w.concretize(x))
	case Unsupported:
		w.unsupported(x.why)
	}
	panic(fmt.Sprintf("checkedIndex %T", idx))
}

func (w *Worker) strIndex(s, idx Value) Value {
	n := strLen(s)
	if t, ok := idx.(*Term); ok {
		w.boundsCheck(t, n)
		o := &Obj{cells: strBytes(s)}
		return w.loadSym(SymPtr{o, 0, 1, n, t}, types.Typ[types.Uint8])
	}
	return strByte(s, w.checkedIndex(idx, n))
}

func (w *Worker) indexAddr(ci *cinstr, x, idx Value) Value {
	var o *Obj
	var base, n int
	switch x := x.(type) {
	case Ptr:
		if x.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		o, base, n = x.o, x.off, ci.n
	case SymPtr:
		p := w.resolvePtr(x)
		o, base, n = p.o, p.off, ci.n
	case Slice:
		o, base, n = x.o, x.off, x.len
	case Unsupported:
		w.unsupported(x.why)
	default:
		panic(fmt.Sprintf("indexaddr %T", x))
	}
	switch i := idx.(type) {
	case uint64:
		if i >= uint64(n) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return Ptr{o, base + int(i)*ci.n2}
	case *Term:
		w.boundsCheck(i, n)
		if n == 1 {
			return Ptr{o, base}
		}
		return SymPtr{o, base, ci.n2, n, i}
	case Unsupported:
		w.unsupported(i.why)
	}
	panic(fmt.Sprintf("indexaddr idx %T", idx))
}

func (w *Worker) optInt(v Value, def int) int {
	if v == nil {
		return def
	}
	return w.concInt(v)
}

func (w *Worker) slice(ci *cinstr, x, lo, hi, mx Value) Value {
	switch s := x.(type) {
	case string, *SStr:
		n := strLen(s)
		// symbolic bounds: check validity before enumerating
		h := n
		if t, ok := hi.(*Term); ok {
			if !w.decide(w.tt.Cmp(OUle, t, w.tt.Const(t.w, uint64(n)))) {
				w.runtimePanic(fmt.Sprintf("slice bounds out of range [:?] with length %d", n))
			}
			h = int(w.concretize(t))
		} else if hi != nil {
			h = w.concInt(hi)
		}
		l := 0
		if t, ok := lo.(*Term); ok {
			if h >= 0 && !w.decide(w.tt.Cmp(OUle, t, w.tt.Const(t.w, uint64(h)))) {
				w.runtimePanic(fmt.Sprintf("slice bounds out of range [?:%d]", h))
			}
			l = int(w.concretize(t))
		} else if lo != nil {
			l = w.concInt(lo)
		}
		if h < 0 || h > n {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return strSlice(s, l, h)
	case Slice:
		t := ci.aux.(types.Type).Underlying().(*types.Slice)
		sz := w.sizeof(t.Elem())
		return w.resliceChecked(s, lo, hi, mx, sz)
	case Ptr:
		if s.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		a := ci.aux.(types.Type).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(a.Len())
		return w.resliceChecked(Slice{s.o, s.off, n, n}, lo, hi, mx, w.sizeof(a.Elem()))
	case Unsupported:
		w.unsupported(s.why)
	}
	panic(fmt.Sprintf("slice of %T", x))
}

func (w *Worker) resliceChecked(s Slice, lo, hi, mx Value, sz int) Value {
	m := w.optInt(mx, s.cap)
	if t, ok := hi.(*Term); ok {
		if !w.decide(w.tt.Cmp(OUle, t, w.tt.Const(t.w, uint64(m)))) {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [:?] with capacity %d", m))
		}
	}
	h := w.optInt(hi, s.len)
	if t, ok := lo.(*Term); ok && h >= 0 {
		if !w.decide(w.tt.Cmp(OUle, t, w.tt.Const(t.w, uint64(h)))) {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [?:%d]", h))
		}
	}
	l := w.optInt(lo, 0)
	if m < 0 || m > s.cap {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, s.cap))
	}
	if h < 0 || h > m {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if s.o == nil {
		return Slice{}
	}
	return Slice{s.o, s.off + l*sz, h - l, m - l}
}

func (w *Worker) rangeIter(x Value) *Iter {
	switch x := x.(type) {
	case string, *SStr:
		return &Iter{isStr: true, s: x}
	case *MapObj:
		it := &Iter{m: x}
		if x != nil {
			if w.race != nil {
				w.race.mapRead(w, x)
			}
			var live []int
			for i := range x.entries {
				if !x.entries[i].dead {
					live = append(live, i)
				}
			}
			it.order = w.mapIterOrder(live)
		}
		return it
	case Unsupported:
		w.unsupported(x.why)
	}
	panic(fmt.Sprintf("range over %T", x))
}

// mapIterOrder picks an iteration order. With map-order exploration on, all
// permutations up to 3 entries (and insertion/reverse order beyond) are explored.
func (w *Worker) mapIterOrder(live []int) []int {
	if !w.mapOrder || len(live) < 2 || w.inInit {
		return live
	}
	if len(live) <= 3 {
		out := make([]int, 0, len(live))
		rest := append([]int(nil), live...)
		for len(rest) > 0 {
			k := w.choose(len(rest))
			out = append(out, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		return out
	}
	var how int
	if len(live) > 8 { // one choice for all the big maps of a run
		if w.bigOrder < 0 {
			w.bigOrder = w.choose(3)
		}
		how = w.bigOrder
	} else {
		how = w.choose(3)
	}
	switch how {
	case 1:
		out := make([]int, len(live))
		for i, x := range live {
			out[len(live)-1-i] = x
		}
		return out
	case 2:
		return append(append([]int(nil), live[len(live)/2:]...), live[:len(live)/2]...)
	}
	return live
}

func (w *Worker) iterNext(it *Iter, ci *cinstr) Value {
	if it.isStr {
		n := strLen(it.s)
		if it.pos >= n {
			return Tuple{false, zU64, zU64}
		}
		i := it.pos
		r, sz := w.decodeRune(it.s, i)
		it.pos += sz
		return Tuple{true, uint64(i), r}
	}
	for it.pos < len(it.order) {
		e := &it.m.entries[it.order[it.pos]]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{true, e.k, e.v}
	}
	tt := ci.in.(*ssa.Next).Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zero(t)
	}
	return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

// decodeRune decodes the rune at byte i; it forks on symbolic lead bytes.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	b := strByte(s, i)
	switch x := b.(type) {
	case uint64:
		if x < 0x80 {
			return x, 1
		}
	case *Term:
		if w.decide(w.tt.Cmp(OUlt, x, w.tt.Const(8, 0x80))) {
			return w.fromTerm(w.tt.Zext(x, 32)), 1
		}
	}
	hi := min(i+4, strLen(s))
	f := w.eng.fn("unicode/utf8", "DecodeRuneInString")
	r := w.execFn(w.info(f), []Value{strSlice(s, i, hi)}, nil).(Tuple)
	return r[0], w.concInt(r[1])
}

func (w *Worker) typeAssert(ci *cinstr, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		if u, ok := v.(Unsupported); ok {
			w.unsupported(u.why)
		}
		panic(fmt.Sprintf("typeassert on %T", v))
	}
	good := false
	var res Value
	if it, isI := ci.t.Underlying().(*types.Interface); isI {
		good = i.t != nil && w.implements(i.t, it)
		res = i
	} else {
		good = i.t != nil && (i.t == ci.t || types.Identical(i.t, ci.t))
		res = i.v
	}
	if ci.flag {
		if !good {
			return Tuple{w.zero(ci.t), false}
		}
		return Tuple{res, true}
	}
	if !good {
		ts := "nil"
		if i.t != nil {
			ts = i.t.String()
		}
		w.runtimePanic("interface conversion: interface is " + ts + ", not " + ci.t.String())
	}
	return res
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(t, it)
}
