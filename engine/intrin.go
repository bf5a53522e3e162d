package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sendOnly = types.SendOnly

func chanElem(t types.Type) types.Type { return t.(*types.Chan).Elem() }

var intrinsics map[string]intrinsic

func init() {
	noop := func(w *Worker, fi *fnInfo, a []Value) Value { return nil }
	zero := func(w *Worker, fi *fnInfo, a []Value) Value { return w.zeroResult(fi) }
	arg0 := func(w *Worker, fi *fnInfo, a []Value) Value { return a[0] }
	intrinsics = map[string]intrinsic{
		// ---- harness API ----
		zz + "Byte": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.newVar(w.mustStr(a[0], "input name"), 8)
		},
		zz + "Bool": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.newVar(w.mustStr(a[0], "input name"), 0)
		},
		zz + "rawInt": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.fromTerm(w.tt.Zext(w.newVar(w.mustStr(a[0], "input name"), 8), 64))
		},
		zz + "Choice": func(w *Worker, fi *fnInfo, a []Value) Value {
			n := w.concInt(a[1])
			if n <= 1 {
				return zU64
			}
			v := w.newVar(w.mustStr(a[0], "input name"), 8)
			w.assume(w.fromTerm(w.tt.Cmp(OUlt, v, w.tt.Const(8, uint64(n)))))
			return w.concretize(v)
		},
		zz + "Assume": func(w *Worker, fi *fnInfo, a []Value) Value { w.assume(a[0]); return nil },
		zz + "Assert": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.assert(a[0], w.render(a[1]))
			return nil
		},
		zz + "Observe": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.impure("observe")
			w.observes = append(w.observes, a[0])
			return nil
		},
		zz + "Reach": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.impure("reach")
			w.reached = append(w.reached, w.mustStr(a[0], "reach label"))
			return nil
		},
		zz + "Tier":     func(w *Worker, fi *fnInfo, a []Value) Value { return uint64(w.run.tier) },
		// Env sets a variable of the environment and initialises the calling package again
		zz + "Env": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.impure("environment")
			name, ok := a[0].(string)
			if !ok {
				w.unsupported("symbolic name of an environment variable")
			}
			w.hostData["env:"+name] = a[1]
			pkg := w.cur.fr.fi.fn.Pkg
			w.initPkg(pkg)
			if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
				w.writeCell(w.globalPtr(w.gslot(g)).(Ptr).o, 0, false)
			}
			w.reinit = pkg
			w.callFn(w.info(pkg.Func("init")), nil, nil)
			w.reinit = nil
			return nil
		},
		zz + "Symbolic": func(w *Worker, fi *fnInfo, a []Value) Value { return true },
		zz + "Schedules": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.sched = w.decideV(a[0])
			return nil
		},
		zz + "MapOrders": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.mapOrder = w.decideV(a[0])
			return nil
		},
		zz + "Races": func(w *Worker, fi *fnInfo, a []Value) Value {
			if w.decideV(a[0]) {
				w.race = newRace()
			} else {
				w.race = nil
			}
			return nil
		},
		zz + "Delay": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.impure("delay")
			w.delay(w.concInt(a[0]))
			return nil
		},
		zz + "Yield": func(w *Worker, fi *fnInfo, a []Value) Value { w.impure("yield"); w.yield(); return nil },
		zz + "And": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.fromTerm(w.tt.And(w.boolTerm(a[0]), w.boolTerm(a[1])))
		},
		zz + "Or": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.fromTerm(w.tt.Or(w.boolTerm(a[0]), w.boolTerm(a[1])))
		},
		zz + "Unsupported": func(w *Worker, fi *fnInfo, a []Value) Value {
			w.unsupported(w.render(a[0]))
			return nil
		},
		zz + "Concrete": func(w *Worker, fi *fnInfo, a []Value) Value {
			b := strBytes(a[0])
			out := make([]Value, len(b))
			for i, x := range b {
				out[i] = w.conc(x)
			}
			return mkStr(out)
		},

		// ---- runtime-ish ----
		"strings.(*Builder).copyCheck": noop,
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        arg0,
		"internal/abi.Escape":          arg0,
		"internal/bytealg.MakeNoZero": func(w *Worker, fi *fnInfo, a []Value) Value {
			n := w.concInt(a[0])
			return w.makeSlice(types.Typ[types.Uint8], n, n)
		},
		"runtime.SetFinalizer":                      noop,
		"runtime.KeepAlive":                         noop,
		"runtime.Gosched":                           func(w *Worker, fi *fnInfo, a []Value) Value { w.yield(); return nil },
		"runtime.GOMAXPROCS":                        func(w *Worker, fi *fnInfo, a []Value) Value { return uint64(8) },
		"runtime.NumCPU":                            func(w *Worker, fi *fnInfo, a []Value) Value { return uint64(8) },
		"runtime/debug.Stack":                       zero,
		"runtime/debug.ReadBuildInfo":               zero,
		"internal/godebug.New":                      func(w *Worker, fi *fnInfo, a []Value) Value { return w.alloc(fi.resT.(*types.Pointer).Elem()) },
		"(*internal/godebug.Setting).Value":         func(w *Worker, fi *fnInfo, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"internal/godebug.registerMetric":           noop,
		"os.Getenv":                                 func(w *Worker, fi *fnInfo, a []Value) Value { v, _ := w.envVar(a[0]); return v },
		"os.LookupEnv":                              func(w *Worker, fi *fnInfo, a []Value) Value { v, ok := w.envVar(a[0]); return Tuple{v, ok} },
		"os.Exit": func(w *Worker, fi *fnInfo, a []Value) Value {
			panic(targetPanic{v: w.mkError("os.Exit"), msg: "process exit via os.Exit", where: w.where()})
		},
		"log.Fatal":        fatal,
		"log.Fatalf":       fatal,
		"log.Fatalln":      fatal,
		"log.Print":        noop,
		"log.Printf":       noop,
		"log.Println":      noop,
		"time.Sleep":       func(w *Worker, fi *fnInfo, a []Value) Value { w.yield(); return nil },
		"time.now":         func(w *Worker, fi *fnInfo, a []Value) Value { return Tuple{uint64(1700000000), uint64(0), uint64(1)} },
		"time.runtimeNano": func(w *Worker, fi *fnInfo, a []Value) Value { return uint64(1) },
		"time.Now":         zero,

		// ---- strings/bytes primitives ----
		"internal/bytealg.IndexByte":           func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexByte(w.sliceBytes(a[0].(Slice)), a[1]) },
		"internal/bytealg.IndexByteString":     func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexByte(strBytes(a[0]), a[1]) },
		"strings.IndexByte":                    func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexByte(strBytes(a[0]), a[1]) },
		"bytes.IndexByte":                      func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexByte(w.sliceBytes(a[0].(Slice)), a[1]) },
		"internal/bytealg.LastIndexByteString": func(w *Worker, fi *fnInfo, a []Value) Value { return w.lastIndexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.LastIndexByte":       func(w *Worker, fi *fnInfo, a []Value) Value { return w.lastIndexByte(w.sliceBytes(a[0].(Slice)), a[1]) },
		"strings.LastIndexByte":                func(w *Worker, fi *fnInfo, a []Value) Value { return w.lastIndexByte(strBytes(a[0]), a[1]) },
		"strings.Index":                        func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexSub(strBytes(a[0]), strBytes(a[1])) },
		"internal/stringslite.Index":           func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexSub(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.IndexString":         func(w *Worker, fi *fnInfo, a []Value) Value { return w.indexSub(strBytes(a[0]), strBytes(a[1])) },
		"bytes.Index": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.indexSub(w.sliceBytes(a[0].(Slice)), w.sliceBytes(a[1].(Slice)))
		},
		"strings.LastIndex":            func(w *Worker, fi *fnInfo, a []Value) Value { return w.lastIndexSub(strBytes(a[0]), strBytes(a[1])) },
		"strings.Contains":             func(w *Worker, fi *fnInfo, a []Value) Value { return w.containsSub(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.CountString": func(w *Worker, fi *fnInfo, a []Value) Value { return w.countByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Count":       func(w *Worker, fi *fnInfo, a []Value) Value { return w.countByte(w.sliceBytes(a[0].(Slice)), a[1]) },
		"internal/bytealg.Equal": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.strEq(mkStr(w.sliceBytes(a[0].(Slice))), mkStr(w.sliceBytes(a[1].(Slice))))
		},
		"bytes.Equal": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.strEq(mkStr(w.sliceBytes(a[0].(Slice))), mkStr(w.sliceBytes(a[1].(Slice))))
		},
		"internal/bytealg.CompareString": func(w *Worker, fi *fnInfo, a []Value) Value { return w.compareStr(a[0], a[1]) },
		"strings.Compare":                func(w *Worker, fi *fnInfo, a []Value) Value { return w.compareStr(a[0], a[1]) },
		"internal/bytealg.Compare": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.compareStr(mkStr(w.sliceBytes(a[0].(Slice))), mkStr(w.sliceBytes(a[1].(Slice))))
		},
		"runtime.cmpstring":          func(w *Worker, fi *fnInfo, a []Value) Value { return w.compareStr(a[0], a[1]) },
		"strings.ToLower":            func(w *Worker, fi *fnInfo, a []Value) Value { return w.caseConv(fi, a[0], 'A', 'Z', 32) },
		"strings.ToUpper":            func(w *Worker, fi *fnInfo, a []Value) Value { return w.caseConv(fi, a[0], 'a', 'z', 0xe0) },
		"strings.Clone":              arg0,
		"internal/stringslite.Clone": arg0,

		// ---- math ----
		"math.Float64bits":     func(w *Worker, fi *fnInfo, a []Value) Value { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits": func(w *Worker, fi *fnInfo, a []Value) Value { return math.Float64frombits(w.conc(a[0])) },
		"math.Float32bits":     func(w *Worker, fi *fnInfo, a []Value) Value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits": func(w *Worker, fi *fnInfo, a []Value) Value {
			return float64(math.Float32frombits(uint32(w.conc(a[0]))))
		},
		"math.Min":   func(w *Worker, fi *fnInfo, a []Value) Value { return math.Min(a[0].(float64), a[1].(float64)) },
		"math.Max":   func(w *Worker, fi *fnInfo, a []Value) Value { return math.Max(a[0].(float64), a[1].(float64)) },
		"math.Floor": func(w *Worker, fi *fnInfo, a []Value) Value { return math.Floor(a[0].(float64)) },
		"math.Ceil":  func(w *Worker, fi *fnInfo, a []Value) Value { return math.Ceil(a[0].(float64)) },
		"math.Trunc": func(w *Worker, fi *fnInfo, a []Value) Value { return math.Trunc(a[0].(float64)) },
		"math.Sqrt":  func(w *Worker, fi *fnInfo, a []Value) Value { return math.Sqrt(a[0].(float64)) },
		"math.Abs":   func(w *Worker, fi *fnInfo, a []Value) Value { return math.Abs(a[0].(float64)) },

		// ---- sync ----
		"(*sync.Mutex).Lock":      lockOp,
		"(*sync.Mutex).TryLock":   tryLockOp,
		"(*sync.Mutex).Unlock":    unlockOp,
		"(*sync.RWMutex).Lock":    lockOp,
		"(*sync.RWMutex).Unlock":  unlockOp,
		"(*sync.RWMutex).RLock":   rlockOp,
		"(*sync.RWMutex).RUnlock": runlockOp,
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done":  func(w *Worker, fi *fnInfo, a []Value) Value { return wgAdd(w, fi, []Value{a[0], ^uint64(0)}) },
		"(*sync.WaitGroup).Wait":  wgWait,
		"(*sync.Pool).Get":        poolGet,
		"(*sync.Pool).Put":        noop,
		"(*sync.Map).Load":        smLoad,
		"(*sync.Map).Store":       func(w *Worker, fi *fnInfo, a []Value) Value { smSet(w, a[0], a[1], a[2]); return nil },
		"(*sync.Map).LoadOrStore": smLoadOrStore,
		"(*sync.Map).Delete":      func(w *Worker, fi *fnInfo, a []Value) Value { m := smap(w, a[0]); w.mapDelete(m, a[1]); return nil },
		"(*sync.Map).Range":       smRange,
		"(*sync/atomic.Value).Load": func(w *Worker, fi *fnInfo, a []Value) Value {
			return w.resolvePtr(a[0]).o.cells[w.resolvePtr(a[0]).off]
		},
		"(*sync/atomic.Value).Store": func(w *Worker, fi *fnInfo, a []Value) Value {
			p := w.resolvePtr(a[0])
			w.writeCell(p.o, p.off, a[1])
			return nil
		},

		// ---- errors ----
		"errors.Is": func(w *Worker, fi *fnInfo, a []Value) Value { return w.errIs(a[0].(Iface), a[1].(Iface), 0) },
		"errors.As": errAs,

		// ---- misc ----
		"crypto/sha256.Sum256": func(w *Worker, fi *fnInfo, a []Value) Value {
			b := w.concBytes(w.sliceBytes(a[0].(Slice)))
			h := sha256.Sum256(b)
			out := make(Agg, 32)
			for i := range h {
				out[i] = byteVals[h[i]]
			}
			return out
		},
		"maps.clone": func(w *Worker, fi *fnInfo, a []Value) Value {
			i := a[0].(Iface)
			m := i.v.(*MapObj)
			c := w.newMap()
			s := c.serial
			*c = *snapshotMap(m)
			c.serial = s
			return Iface{i.t, c}
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"sort.SliceIsSorted": func(w *Worker, fi *fnInfo, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			for i := s.len - 1; i > 0; i-- {
				if w.decideV(w.callValue(a[1], []Value{uint64(i), uint64(i - 1)})) {
					return false
				}
			}
			return true
		},
		"mime.TypeByExtension": zero,
	}
	for _, n := range []string{"CyanString", "GreenString", "HiCyanString", "MagentaString", "RedString", "YellowString", "BlueString", "HiRedString", "HiGreenString", "HiYellowString", "WhiteString", "BlackString", "HiBlueString", "HiMagentaString", "HiBlackString", "HiWhiteString"} {
		intrinsics["github.com/fatih/color."+n] = func(w *Worker, fi *fnInfo, a []Value) Value {
			s := a[1].(Slice)
			if s.len == 0 {
				return a[0] // color.String formats only when arguments are given (Sprint otherwise)
			}
			return w.sprintf(a[0], s, nil)
		}
	}
	initFmt()
	initRegexp()
	initDocs()
	initBig()
}

const zz = "github.com/g-rath/osv-detector/internal/zzsym."

func (w *Worker) envVar(name Value) (Value, bool) {
	n, ok := name.(string)
	if !ok {
		w.unsupported("symbolic name of an environment variable")
	}
	if v, ok := w.hostData["env:"+n]; ok {
		return v, true
	}
	return "", false
}

func fatal(w *Worker, fi *fnInfo, a []Value) Value {
	panic(targetPanic{v: w.mkError("log.Fatal"), msg: "process exit via " + fi.name, where: w.where()})
}

func (w *Worker) concBytes(b []Value) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			w.unsupported("symbolic bytes where concrete ones are needed")
		}
		out[i] = byte(u)
	}
	return out
}

// pkgIntrinsic handles families of functions.
func (w *Worker) pkgIntrinsic(path string, fn *ssa.Function) intrinsic {
	if path == "sync/atomic" || path == "internal/runtime/atomic" {
		if len(fn.Blocks) > 0 {
			return nil
		}
		n := fn.Name()
		switch {
		case strings.HasPrefix(n, "Load"):
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				if p.o == nil {
					w.runtimePanic("invalid memory address or nil pointer dereference")
				}
				if w.race != nil {
					w.race.acquire(w.cur, cellKey{p.o, p.off})
				}
				return p.o.cells[p.off]
			}
		case strings.HasPrefix(n, "Store"):
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				w.atomicWrite(p, a[1])
				return nil
			}
		case strings.HasPrefix(n, "Add"):
			bk := basicInfo(fn.Signature.Results().At(0).Type())
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				v := w.intop(token.ADD, p.o.cells[p.off], a[1], bk, 0)
				w.atomicWrite(p, v)
				return v
			}
		case strings.HasPrefix(n, "CompareAndSwap"):
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				if w.decideV(w.eq(p.o.cells[p.off], a[1])) {
					w.atomicWrite(p, a[2])
					return true
				}
				return false
			}
		case strings.HasPrefix(n, "Swap"):
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				old := p.o.cells[p.off]
				w.atomicWrite(p, a[1])
				return old
			}
		case strings.HasPrefix(n, "Or"), strings.HasPrefix(n, "And"):
			or := strings.HasPrefix(n, "Or")
			return func(w *Worker, fi *fnInfo, a []Value) Value {
				p := w.resolvePtr(a[0])
				old := w.conc(p.o.cells[p.off])
				nv := old & w.conc(a[1])
				if or {
					nv = old | w.conc(a[1])
				}
				w.atomicWrite(p, nv)
				return old
			}
		}
	}
	if path == "internal/race" || path == "internal/msan" || path == "internal/asan" {
		return func(w *Worker, fi *fnInfo, a []Value) Value { return w.zeroResult(fi) }
	}
	return nil
}

func (w *Worker) atomicWrite(p Ptr, v Value) {
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	r := w.race
	w.race = nil
	w.writeCell(p.o, p.off, v)
	w.race = r
	if r != nil {
		r.acquire(w.cur, cellKey{p.o, p.off})
		r.release(w.cur, cellKey{p.o, p.off})
	}
}

// ---- string primitives ----

func (w *Worker) indexByte(b []Value, c Value) Value {
	r := w.tt.Const(64, ^uint64(0))
	ct := w.term(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		r = w.tt.Ite(w.known(w.tt.Eq(w.term(b[i], 8), ct)), w.tt.Const(64, uint64(i)), r)
	}
	return w.fromTerm(r)
}
func (w *Worker) lastIndexByte(b []Value, c Value) Value {
	r := w.tt.Const(64, ^uint64(0))
	ct := w.term(c, 8)
	for i := 0; i < len(b); i++ {
		r = w.tt.Ite(w.known(w.tt.Eq(w.term(b[i], 8), ct)), w.tt.Const(64, uint64(i)), r)
	}
	return w.fromTerm(r)
}
func (w *Worker) indexSub(b, s []Value) Value {
	r := w.tt.Const(64, ^uint64(0))
	for i := len(b) - len(s); i >= 0; i-- {
		c := w.bytesEqT(b[i:i+len(s)], s)
		r = w.tt.Ite(c, w.tt.Const(64, uint64(i)), r)
	}
	return w.fromTerm(r)
}
func (w *Worker) lastIndexSub(b, s []Value) Value {
	r := w.tt.Const(64, ^uint64(0))
	for i := 0; i+len(s) <= len(b); i++ {
		c := w.bytesEqT(b[i:i+len(s)], s)
		r = w.tt.Ite(c, w.tt.Const(64, uint64(i)), r)
	}
	return w.fromTerm(r)
}
func (w *Worker) containsSub(b, s []Value) Value {
	r := w.tt.False
	for i := 0; i+len(s) <= len(b); i++ {
		r = w.tt.Or(r, w.bytesEqT(b[i:i+len(s)], s))
	}
	return w.fromTerm(r)
}
func (w *Worker) countByte(b []Value, c Value) Value {
	r := w.tt.Const(64, 0)
	ct := w.term(c, 8)
	for _, x := range b {
		r = w.tt.Bin(OAdd, r, w.tt.Ite(w.known(w.tt.Eq(w.term(x, 8), ct)), w.tt.Const(64, 1), w.tt.Const(64, 0)))
	}
	return w.fromTerm(r)
}
func (w *Worker) compareStr(a, b Value) Value {
	lt := w.boolTerm(w.strLess(a, b))
	eq := w.boolTerm(w.strEq(a, b))
	m1 := w.tt.Const(64, ^uint64(0))
	return w.fromTerm(w.tt.Ite(eq, w.tt.Const(64, 0), w.tt.Ite(lt, m1, w.tt.Const(64, 1))))
}

func (w *Worker) caseConv(fi *fnInfo, s Value, lo, hi, add uint64) Value {
	if x, ok := s.(string); ok {
		if fi.fn.Name() == "ToLower" {
			return strings.ToLower(x)
		}
		return strings.ToUpper(x)
	}
	b := strBytes(s)
	asc := w.tt.True
	for _, x := range b {
		asc = w.tt.And(asc, w.known(w.tt.Cmp(OUlt, w.term(x, 8), w.tt.Const(8, 0x80))))
	}
	if !w.decide(asc) {
		return w.execFn(fi, []Value{s}, nil)
	}
	out := make([]Value, len(b))
	for i, x := range b {
		t := w.term(x, 8)
		in := w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, lo), t), w.tt.Cmp(OUle, t, w.tt.Const(8, hi)))
		out[i] = w.fromTerm(w.tt.Ite(w.known(in), w.tt.Bin(OAdd, t, w.tt.Const(8, add)), t))
	}
	return mkStr(out)
}

// ---- sync ----

func (w *Worker) syncCell(v Value) (Ptr, func() uint64, func(uint64)) {
	p := w.resolvePtr(v)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	get := func() uint64 { u, _ := p.o.cells[p.off].(uint64); return u }
	set := func(x uint64) {
		r := w.race
		w.race = nil
		md := w.mergeDepth
		w.mergeDepth = 0 // lock state is balanced inside a pure call
		w.writeCell(p.o, p.off, x)
		w.mergeDepth = md
		w.race = r
	}
	return p, get, set
}

func lockOp(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, set := w.syncCell(a[0])
	w.yield()
	w.block(func() bool { return get() == 0 }, "mutex lock")
	set(1)
	if w.race != nil {
		w.race.acquire(w.cur, cellKey{p.o, p.off})
	}
	return nil
}
func tryLockOp(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, set := w.syncCell(a[0])
	if get() != 0 {
		return false
	}
	set(1)
	if w.race != nil {
		w.race.acquire(w.cur, cellKey{p.o, p.off})
	}
	return true
}
func unlockOp(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, set := w.syncCell(a[0])
	if get() != 1 {
		w.targetPanicStr("fatal error: sync: unlock of unlocked mutex")
	}
	set(0)
	if w.race != nil {
		w.race.release(w.cur, cellKey{p.o, p.off})
	}
	return nil
}
func rlockOp(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, set := w.syncCell(a[0])
	w.yield()
	w.block(func() bool { return get() != 1 }, "rwmutex rlock")
	set(get() + 2)
	if w.race != nil {
		w.race.acquire(w.cur, cellKey{p.o, p.off})
	}
	return nil
}
func runlockOp(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, set := w.syncCell(a[0])
	if get() < 2 {
		w.targetPanicStr("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	set(get() - 2)
	if w.race != nil {
		w.race.release(w.cur, cellKey{p.o, p.off})
	}
	return nil
}
func wgAdd(w *Worker, fi *fnInfo, a []Value) Value {
	w.impure("waitgroup")
	p, get, set := w.syncCell(a[0])
	v := get() + w.conc(a[1])
	if int64(v) < 0 {
		w.targetPanicStr("sync: negative WaitGroup counter")
	}
	set(v)
	if w.race != nil {
		w.race.release(w.cur, cellKey{p.o, p.off})
	}
	return nil
}
func wgWait(w *Worker, fi *fnInfo, a []Value) Value {
	p, get, _ := w.syncCell(a[0])
	w.block(func() bool { return get() == 0 }, "waitgroup wait")
	if w.race != nil {
		w.race.acquire(w.cur, cellKey{p.o, p.off})
	}
	return nil
}

func poolGet(w *Worker, fi *fnInfo, a []Value) Value {
	p := w.resolvePtr(a[0])
	st := fi.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			f := p.o.cells[p.off+w.fieldOff(st, i)]
			if c, ok := f.(*Closure); ok && c != nil {
				return w.callValue(c, nil)
			}
		}
	}
	return Iface{}
}

func smap(w *Worker, v Value) *MapObj {
	p := w.resolvePtr(v)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if m, ok := p.o.cells[p.off].(*MapObj); ok {
		return m
	}
	m := w.newMap()
	m.serial = p.o.serial
	if p.o.serial == 0 && !w.inInit {
		old := p.o.cells[p.off]
		w.journal = append(w.journal, undo{fn: func() { p.o.cells[p.off] = old }})
	}
	p.o.cells[p.off] = m
	return m
}

func smLoad(w *Worker, fi *fnInfo, a []Value) Value {
	m := smap(w, a[0])
	w.yield()
	if w.race != nil {
		w.race.acquire(w.cur, m)
	}
	if i := w.mapFind(m, a[1]); i >= 0 {
		return Tuple{m.entries[i].v, true}
	}
	return Tuple{Iface{}, false}
}

func smSet(w *Worker, mv, k, v Value) {
	m := smap(w, mv)
	w.yield()
	if w.race != nil {
		w.race.acquire(w.cur, m)
		w.race.release(w.cur, m)
	}
	md := w.mergeDepth
	if i, ok := v.(Iface); ok && i.t != nil && strings.HasSuffix(i.t.String(), "regexp.Regexp") {
		w.mergeDepth = 0 // a regexp cache: dropping the entry at the end of a local path is harmless
	}
	w.mapSet(m, k, v)
	w.mergeDepth = md
}

func smLoadOrStore(w *Worker, fi *fnInfo, a []Value) Value {
	m := smap(w, a[0])
	if w.race != nil {
		w.race.acquire(w.cur, m)
	}
	if i := w.mapFind(m, a[1]); i >= 0 {
		return Tuple{m.entries[i].v, true}
	}
	smSet(w, a[0], a[1], a[2])
	return Tuple{a[2], false}
}

func smRange(w *Worker, fi *fnInfo, a []Value) Value {
	m := smap(w, a[0])
	for i := range m.entries {
		if m.entries[i].dead {
			continue
		}
		if !w.decideV(w.callValue(a[1], []Value{m.entries[i].k, m.entries[i].v})) {
			break
		}
	}
	return nil
}

// ---- errors ----

func (w *Worker) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	f := w.methodByName(i.t, name)
	if f == nil {
		return nil, false
	}
	return w.callFn(w.info(f), append([]Value{i.v}, args...), nil), true
}

func (w *Worker) comparable(t types.Type) bool { return types.Comparable(t) }

func (w *Worker) errIs(err, target Iface, depth int) Value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if depth > 50 {
		w.unsupported("errors.Is depth")
	}
	if w.comparable(target.t) && w.decideV(w.eq(err, target)) {
		return true
	}
	if f := w.methodByName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if w.decideV(w.callFn(w.info(f), []Value{err.v, target}, nil)) {
			return true
		}
	}
	for _, u := range w.unwrap(err) {
		if w.decideV(w.errIs(u, target, depth+1)) {
			return true
		}
	}
	return false
}

func (w *Worker) unwrap(err Iface) []Iface {
	f := w.methodByName(err.t, "Unwrap")
	if f == nil {
		return nil
	}
	r := w.callFn(w.info(f), []Value{err.v}, nil)
	switch r := r.(type) {
	case Iface:
		if r.t == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range w.sliceBytes(r) {
			if i, ok := x.(Iface); ok && i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func errAs(w *Worker, fi *fnInfo, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil {
		return false
	}
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		w.targetPanicStr("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	var rec func(e Iface) bool
	rec = func(e Iface) bool {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.implements(e.t, it) {
				w.store(target.v, et, e)
				return true
			}
		} else if types.Identical(e.t, et) {
			w.store(target.v, et, e.v)
			return true
		}
		if f := w.methodByName(e.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if w.decideV(w.callFn(w.info(f), []Value{e.v, target}, nil)) {
				return true
			}
		}
		for _, u := range w.unwrap(e) {
			if rec(u) {
				return true
			}
		}
		return false
	}
	return rec(err)
}

// ---- sort.Slice: runs the real pdqsort_func/insertion code with a host swapper ----

func sortSlice(w *Worker, fi *fnInfo, a []Value) Value {
	i := a[0].(Iface)
	s := i.v.(Slice)
	sz := w.sizeof(i.t.Underlying().(*types.Slice).Elem())
	swap := &Closure{name: "swap", host: func(w *Worker, args []Value) Value {
		p, q := w.concInt(args[0]), w.concInt(args[1])
		if p == q {
			return nil
		}
		x := append([]Value(nil), s.o.cells[s.off+p*sz:s.off+(p+1)*sz]...)
		y := append([]Value(nil), s.o.cells[s.off+q*sz:s.off+(q+1)*sz]...)
		w.writeCells(s.o, s.off+p*sz, y)
		w.writeCells(s.o, s.off+q*sz, x)
		return nil
	}}
	ls := Agg{a[1], swap}
	if fi.fn.Name() == "SliceStable" {
		f := w.eng.fn("sort", "stable_func")
		w.callFn(w.info(f), []Value{ls, uint64(s.len)}, nil)
		return nil
	}
	limit := 0
	for n := s.len; n > 0; n >>= 1 {
		limit++
	}
	f := w.eng.fn("sort", "pdqsort_func")
	w.callFn(w.info(f), []Value{ls, zU64, uint64(s.len), uint64(limit)}, nil)
	return nil
}

var _ = constant.MakeBool
var _ = fmt.Sprint
