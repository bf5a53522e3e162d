package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the target run as host goroutines that pass a baton: exactly
// one runs at any time, so all engine state is accessed sequentially.

type gor struct {
	id    int
	wake  chan struct{}
	fr    *frame
	depth int
	ready func() bool // nil = runnable
	done  bool
	vc    []int
	until int // sleeping until this virtual time
}

func (w *Worker) runMain(fn *ssa.Function) {
	g := &gor{id: 0, wake: make(chan struct{})}
	w.gors = []*gor{g}
	w.cur = g
	w.callFnNoMerge(w.info(fn), nil)
}

func (w *Worker) callFnNoMerge(fi *fnInfo, args []Value) Value { return w.execFn(fi, args, nil) }

func (w *Worker) spawn(fn Value, args []Value, ci *cinstr) {
	w.impure("go statement")
	if w.inInit {
		return
	}
	g := &gor{id: len(w.gors), wake: make(chan struct{})}
	w.gors = append(w.gors, g)
	if w.race != nil {
		w.race.fork(w.cur, g)
	}
	go func() {
		<-g.wake
		if w.killing {
			g.done = true
			w.killAck <- struct{}{}
			return
		}
		var out any
		func() {
			defer func() { out = recover() }()
			w.invokeCall(fn, args, ci)
		}()
		g.done = true
		if _, ok := out.(killGor); ok || w.killing {
			w.killAck <- struct{}{}
			return
		}
		if out != nil {
			// an uncaught panic or abort ends the whole path: hand it to main
			w.abortVal = out
			w.cur = w.gors[0]
			w.gors[0].wake <- struct{}{}
			return
		}
		// pick another goroutine
		n := w.pick(nil)
		if n == nil {
			w.abortVal = pathAbort{kind: "deadlock", why: "all goroutines are asleep"}
			n = w.gors[0]
		}
		w.cur = n
		n.wake <- struct{}{}
	}()
	w.yield()
}

func (w *Worker) runnable() []*gor {
	var out []*gor
	for _, g := range w.gors {
		if !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the next goroutine to run; prefer keeps running when scheduling
// exploration is off.
func (w *Worker) pick(prefer *gor) (res *gor) {
	rs := w.runnable()
	if len(rs) == 0 {
		// everybody waits: let virtual time pass
		next := -1
		for _, g := range w.gors {
			if !g.done && g.until > w.clock && (next < 0 || g.until < next) {
				next = g.until
			}
		}
		if next < 0 {
			return nil
		}
		w.clock = next
		rs = w.runnable()
	}
	if !w.sched {
		if prefer != nil {
			return prefer
		}
		return rs[0]
	}
	if prefer != nil { // switching away from a goroutine that could go on
		if w.preempts >= 2+w.run.tier {
			return prefer
		}
		defer func() {
			if res != prefer {
				w.preempts++
			}
		}()
	}
	k := 0
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.abortVal = x
			}
		}()
		k = w.choose(len(rs))
	}()
	return rs[k]
}

func (w *Worker) switchTo(n *gor) {
	me := w.cur
	if n == me {
		return
	}
	w.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if w.killing {
		panic(killGor{})
	}
	if me.id == 0 && w.abortVal != nil {
		x := w.abortVal
		w.abortVal = nil
		panic(x)
	}
}

// yield is a scheduling point.
func (w *Worker) yield() {
	if len(w.gors) <= 1 || w.killing || !w.sched {
		return
	}
	w.switchTo(w.pick(w.cur))
}

// delay lets virtual time pass for the current goroutine.
func (w *Worker) delay(n int) {
	me := w.cur
	if n <= 0 {
		return
	}
	me.until = w.clock + n
	w.block(func() bool { return w.clock >= me.until }, "sleep")
	me.until = 0
}

// block waits until ready holds.
func (w *Worker) block(ready func() bool, why string) {
	if ready() {
		return
	}
	w.impure("blocking operation")
	me := w.cur
	me.ready = ready
	n := w.pick(nil)
	if n == nil {
		me.ready = nil
		if me.id == 0 {
			panic(pathAbort{kind: "deadlock", why: why})
		}
		w.abortVal = pathAbort{kind: "deadlock", why: why}
		w.switchTo(w.gors[0])
	} else {
		w.switchTo(n)
	}
	me.ready = nil
	if !ready() {
		panic(fmt.Sprintf("woken while not ready: %s", why))
	}
}

func (w *Worker) killAll() {
	if len(w.gors) <= 1 {
		return
	}
	w.killing = true
	for _, g := range w.gors[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-w.killAck
		}
	}
	w.killing = false
}

// ---- channels ----

func (w *Worker) chanSend(cv, v Value) {
	c, ok := cv.(*ChanObj)
	if !ok {
		w.unsupported("send on poison")
	}
	w.impure("channel send")
	if c == nil {
		w.block(func() bool { return false }, "send on nil channel")
	}
	w.yield()
	if c.closed {
		w.targetPanicStr("send on closed channel")
	}
	if w.race != nil {
		w.race.release(w.cur, c)
	}
	if c.cap > 0 {
		w.block(func() bool { return len(c.buf) < c.cap || c.closed }, "chan send")
		if c.closed {
			w.targetPanicStr("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	p := &pendSend{v: v}
	c.pend = append(c.pend, p)
	w.block(func() bool { return p.done || c.closed }, "chan send")
	if !p.done {
		w.targetPanicStr("send on closed channel")
	}
}

func (c *ChanObj) canRecv() bool {
	return len(c.buf) > 0 || len(c.pend) > 0 || c.closed
}

func (w *Worker) recvNow(c *ChanObj) (Value, bool) {
	if w.race != nil {
		w.race.acquire(w.cur, c)
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.pend) > 0 {
		p := c.pend[0]
		c.pend = c.pend[1:]
		p.done = true
		return p.v, true
	}
	return nil, false
}

func (w *Worker) chanRecv(cv Value, ci *cinstr) Value {
	c, ok := cv.(*ChanObj)
	if !ok {
		w.unsupported("receive on poison")
	}
	w.impure("channel receive")
	if c == nil {
		w.block(func() bool { return false }, "receive on nil channel")
	}
	w.yield()
	w.block(c.canRecv, "chan receive")
	v, ok := w.recvNow(c)
	if !ok {
		et := ci.in.(*ssa.UnOp).X.Type().Underlying()
		v = w.zero(chanElem(et))
	}
	if ci.flag {
		return Tuple{v, ok}
	}
	return v
}

func (w *Worker) chanClose(cv Value) {
	w.impure("close")
	c := cv.(*ChanObj)
	if c == nil {
		w.targetPanicStr("close of nil channel")
	}
	if c.closed {
		w.targetPanicStr("close of closed channel")
	}
	if w.race != nil {
		w.race.release(w.cur, c)
	}
	c.closed = true
}

func (w *Worker) selectOp(fr *frame, ci *cinstr) Value {
	w.impure("select")
	in := ci.in.(*ssa.Select)
	n := len(in.States)
	chans := make([]*ChanObj, n)
	for i := range in.States {
		c, ok := fr.get(w, &ci.ops[2*i]).(*ChanObj)
		if !ok {
			w.unsupported("select on poison")
		}
		chans[i] = c
	}
	readyList := func() []int {
		var out []int
		for i, s := range in.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if s.Dir == sendOnly {
				if c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvq > 0) {
					out = append(out, i)
				}
			} else if c.canRecv() {
				out = append(out, i)
			}
		}
		return out
	}
	w.yield()
	rl := readyList()
	if len(rl) == 0 {
		if !in.Blocking {
			return w.selectResult(in, -1, nil, false)
		}
		w.block(func() bool { return len(readyList()) > 0 }, "select")
		rl = readyList()
	}
	k := 0
	if len(rl) > 1 {
		k = w.choose(len(rl))
	}
	i := rl[k]
	if in.States[i].Dir == sendOnly {
		c := chans[i]
		if c.closed {
			w.targetPanicStr("send on closed channel")
		}
		v := fr.get(w, &ci.ops[2*i+1])
		if c.cap == 0 {
			w.unsupported("select send on unbuffered channel")
		}
		if w.race != nil {
			w.race.release(w.cur, c)
		}
		c.buf = append(c.buf, v)
		return w.selectResult(in, i, nil, false)
	}
	v, ok := w.recvNow(chans[i])
	return w.selectResult(in, i, v, ok)
}

func (w *Worker) selectResult(in *ssa.Select, idx int, v Value, ok bool) Value {
	out := Tuple{uint64(int64(idx)), ok}
	for i, s := range in.States {
		if s.Dir == sendOnly {
			continue
		}
		if i == idx && ok {
			out = append(out, v)
		} else {
			out = append(out, w.zero(chanElem(s.Chan.Type().Underlying())))
		}
	}
	return out
}
