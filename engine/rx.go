package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"
)

// Regular expressions: the pattern is compiled natively (syntax.Prog); matching
// over symbolic text is done by a reachability formula F(pc,pos) ("a match can be
// completed from here") and a leftmost-first walk that branches on F.

type rx struct {
	expr   string
	prog   *syntax.Prog
	loops  bool
	ncap   int
	native *regexp.Regexp
}

func initRegexp() {
	mk := func(w *Worker, expr string, t types.Type) (Value, error) {
		if o, ok := w.regexes[expr]; ok {
			return Ptr{o, 0}, nil
		}
		re, err := regexp.Compile(expr)
		if err != nil {
			return nil, err
		}
		sre, err := syntax.Parse(expr, syntax.Perl)
		if err != nil {
			return nil, err
		}
		maxCap := sre.MaxCap()
		capNames := sre.CapNames()
		prog, err := syntax.Compile(sre.Simplify())
		if err != nil {
			return nil, err
		}
		old := w.inInit
		w.inInit = true
		p := w.alloc(t)
		names := make([]Value, len(capNames))
		for i, n := range capNames {
			names[i] = n
		}
		st := t.Underlying().(*types.Struct)
		set := func(name string, v Value) {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					p.o.cells[w.fieldOff(st, i)] = v
				}
			}
		}
		set("expr", expr)
		set("numSubexp", uint64(maxCap))
		set("subexpNames", w.newSlice(names, len(names)))
		set("matchcap", uint64(prog.NumCap))
		if pt := w.eng.typ("regexp/syntax", "Prog"); pt != nil {
			pp := w.alloc(pt)
			ps := pt.Underlying().(*types.Struct)
			for i := 0; i < ps.NumFields(); i++ {
				if ps.Field(i).Name() == "NumCap" {
					pp.o.cells[w.fieldOff(ps, i)] = uint64(prog.NumCap)
				}
			}
			set("prog", pp)
		}
		r := &rx{expr: expr, prog: prog, ncap: prog.NumCap, native: re}
		r.loops = (&matcher{r: r}).hasEmptyLoop()
		p.o.host = r
		w.inInit = old
		w.regexes[expr] = p.o
		return p, nil
	}
	intrinsics["regexp.MustCompile"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		v, err := mk(w, w.mustStr(a[0], "regexp"), fi.resT.(*types.Pointer).Elem())
		if err != nil {
			panic(targetPanic{v: w.mkError(err.Error()), msg: "regexp: Compile: " + err.Error(), where: w.where()})
		}
		return v
	}
	intrinsics["regexp.Compile"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		v, err := mk(w, w.mustStr(a[0], "regexp"), fi.resT.(*types.Tuple).At(0).Type().(*types.Pointer).Elem())
		if err != nil {
			return Tuple{Ptr{}, w.mkError(err.Error())}
		}
		return Tuple{v, Iface{}}
	}
	intrinsics["regexp.MatchString"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		expr := w.mustStr(a[0], "regexp")
		re, err := regexp.Compile(expr)
		if err != nil {
			return Tuple{false, w.mkError(err.Error())}
		}
		_ = re
		t := w.eng.typ("regexp", "Regexp")
		v, _ := mk(w, expr, t)
		m := newMatcher(w, v.(Ptr).o.host.(*rx), strBytes(a[1]))
		return Tuple{w.fromTerm(m.anyFrom(0)), Iface{}}
	}
	// func (re *Regexp) doExecute(r io.RuneReader, b []byte, s string, pos int, ncap int, dstCap []int) []int
	intrinsics["(*regexp.Regexp).doExecute"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		r := w.rxOf(a[0])
		var in []Value
		if s, ok := a[2].(Slice); ok && s.o != nil {
			in = w.sliceBytes(s)
		} else {
			in = strBytes(a[3])
		}
		pos := w.concInt(a[4])
		ncap := w.concInt(a[5])
		dst := a[6].(Slice)
		caps := w.rxMatch(r, in, pos, ncap)
		if caps == nil {
			return Slice{}
		}
		if ncap == 0 {
			return w.newSlice([]Value{}, 0)
		}
		cells := make([]Value, len(caps))
		for i, c := range caps {
			cells[i] = uint64(int64(c))
		}
		return w.appendCells(dst, cells, len(cells), 1, types.Typ[types.Int])
	}
	intrinsics["(*regexp.Regexp).doMatch"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		r := w.rxOf(a[0])
		var in []Value
		if s, ok := a[2].(Slice); ok && s.o != nil {
			in = w.sliceBytes(s)
		} else {
			in = strBytes(a[3])
		}
		return w.fromTerm(newMatcher(w, r, in).anyFrom(0))
	}
}

func (w *Worker) rxOf(v Value) *rx {
	p, ok := v.(Ptr)
	if !ok || p.o == nil {
		if u, ok := v.(Unsupported); ok {
			w.unsupported(u.why)
		}
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	r, ok := p.o.host.(*rx)
	if !ok {
		w.unsupported("unknown regexp object")
	}
	return r
}

type matcher struct {
	w    *Worker
	r    *rx
	in   []Value
	memo map[[2]int]*Term
	busy map[[2]int]bool
	rn   []Value // rune at each char start (uint64 or *Term w=32), nil when not decoded
	wd   []int
}

func newMatcher(w *Worker, r *rx, in []Value) *matcher {
	return &matcher{w: w, r: r, in: in, memo: map[[2]int]*Term{}, busy: map[[2]int]bool{}, rn: make([]Value, len(in)), wd: make([]int, len(in))}
}

func (m *matcher) runeAt(pos int) (Value, int) {
	if m.wd[pos] == 0 {
		switch b := m.in[pos].(type) {
		case uint64:
			if b < 0x80 {
				m.rn[pos], m.wd[pos] = b, 1
				break
			}
			r, sz := m.w.decodeRune(mkStr(m.in), pos)
			m.rn[pos], m.wd[pos] = r, sz
		default:
			r, sz := m.w.decodeRune(mkStr(m.in), pos)
			m.rn[pos], m.wd[pos] = r, sz
		}
	}
	return m.rn[pos], m.wd[pos]
}

// prevRune: the rune before pos, or -1.
func (m *matcher) isWord(pos int) *Term {
	w := m.w
	if pos < 0 || pos >= len(m.in) {
		return w.tt.False
	}
	b := w.term(m.in[pos], 8)
	rng := func(lo, hi uint64) *Term {
		return w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, lo), b), w.tt.Cmp(OUle, b, w.tt.Const(8, hi)))
	}
	return w.known(w.tt.Or(w.tt.Or(rng('a', 'z'), rng('A', 'Z')), w.tt.Or(rng('0', '9'), w.tt.Eq(b, w.tt.Const(8, '_')))))
}

func (m *matcher) isByte(pos int, c uint64) *Term {
	if pos < 0 || pos >= len(m.in) {
		return m.w.tt.False
	}
	return m.w.known(m.w.tt.Eq(m.w.term(m.in[pos], 8), m.w.tt.Const(8, c)))
}

func (m *matcher) empty(op syntax.EmptyOp, pos int) *Term {
	w := m.w
	c := w.tt.True
	if op&syntax.EmptyBeginText != 0 {
		c = w.tt.And(c, w.tt.Bool(pos == 0))
	}
	if op&syntax.EmptyEndText != 0 {
		c = w.tt.And(c, w.tt.Bool(pos == len(m.in)))
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		c = w.tt.And(c, m.isByte(pos-1, '\n'))
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(m.in) {
		c = w.tt.And(c, m.isByte(pos, '\n'))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		same := w.tt.Eq(m.isWord(pos-1), m.isWord(pos))
		if op&syntax.EmptyWordBoundary != 0 {
			c = w.tt.And(c, w.tt.Not(same))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			c = w.tt.And(c, same)
		}
	}
	return c
}

func (m *matcher) runeCond(i *syntax.Inst, r Value) *Term {
	w := m.w
	if u, ok := r.(uint64); ok {
		return w.tt.Bool(i.MatchRune(rune(sext(u, 32))))
	}
	t := r.(*Term)
	// r is a symbolic rune; when it is a zero-extended byte (ASCII path) build ranges
	lim := rune(0x7f)
	base := t
	width := uint8(32)
	if t.op == OZext && t.args[0].w == 8 {
		base, width = t.args[0], 8
	} else {
		lim = unicode.MaxRune
		v := w.concretize(t)
		return w.tt.Bool(i.MatchRune(rune(sext(v, 32))))
	}
	c := w.tt.False
	for lo := rune(0); lo <= lim; {
		if !i.MatchRune(lo) {
			lo++
			continue
		}
		hi := lo
		for hi < lim && i.MatchRune(hi+1) {
			hi++
		}
		if lo == hi {
			c = w.tt.Or(c, w.tt.Eq(base, w.tt.Const(width, uint64(lo))))
		} else {
			x := w.tt.Cmp(OUle, base, w.tt.Const(width, uint64(hi)))
			if lo > 0 {
				x = w.tt.And(w.tt.Cmp(OUle, w.tt.Const(width, uint64(lo)), base), x)
			}
			c = w.tt.Or(c, x)
		}
		lo = hi + 1
	}
	return w.known(c)
}

// F: a match can be completed from instruction pc at byte position pos.
func (m *matcher) F(pc uint32, pos int) *Term {
	k := [2]int{int(pc), pos}
	if t, ok := m.memo[k]; ok {
		return t
	}
	if m.busy[k] {
		return m.w.tt.False
	}
	m.busy[k] = true
	w := m.w
	i := &m.r.prog.Inst[pc]
	var t *Term
	switch i.Op {
	case syntax.InstFail:
		t = w.tt.False
	case syntax.InstMatch:
		t = w.tt.True
	case syntax.InstNop, syntax.InstCapture:
		t = m.F(i.Out, pos)
	case syntax.InstAlt, syntax.InstAltMatch:
		t = w.tt.Or(m.F(i.Out, pos), m.F(i.Arg, pos))
	case syntax.InstEmptyWidth:
		c := m.empty(syntax.EmptyOp(i.Arg), pos)
		if c == w.tt.False {
			t = c
		} else {
			t = w.tt.And(c, m.F(i.Out, pos))
		}
	default: // rune instructions
		if pos >= len(m.in) {
			t = w.tt.False
			break
		}
		r, sz := m.runeAt(pos)
		c := m.runeCond(i, r)
		if c == w.tt.False {
			t = c
		} else {
			t = w.tt.And(c, m.F(i.Out, pos+sz))
		}
	}
	delete(m.busy, k)
	// results computed while a cycle was cut are only cached at the outermost level
	if len(m.busy) == 0 || !m.cyclic() {
		m.memo[k] = t
	}
	return t
}

func (m *matcher) cyclic() bool {
	// programs without empty loops never cut a cycle; a cheap conservative test
	return m.r.loops
}

func (m *matcher) hasEmptyLoop() bool {
	p := m.r.prog
	state := make([]int8, len(p.Inst))
	var dfs func(pc uint32) bool
	dfs = func(pc uint32) bool {
		switch state[pc] {
		case 1:
			return true
		case 2:
			return false
		}
		state[pc] = 1
		i := &p.Inst[pc]
		r := false
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			r = dfs(i.Out) || dfs(i.Arg)
		case syntax.InstNop, syntax.InstCapture, syntax.InstEmptyWidth:
			r = dfs(i.Out)
		}
		state[pc] = 2
		return r
	}
	for pc := range p.Inst {
		if dfs(uint32(pc)) {
			return true
		}
	}
	return false
}

func (m *matcher) anyFrom(pos int) *Term {
	w := m.w
	c := w.tt.False
	for p := pos; p <= len(m.in); {
		c = w.tt.Or(c, m.F(uint32(m.r.prog.Start), p))
		if c == w.tt.True {
			return c
		}
		if p == len(m.in) {
			break
		}
		_, sz := m.runeAt(p)
		p += sz
	}
	return c
}

// rxMatch finds the leftmost-first match at or after pos.
func (w *Worker) rxMatch(r *rx, in []Value, pos, ncap int) []int {
	conc := true
	for _, b := range in {
		if _, ok := b.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc && pos == 0 {
		// the native library decides concrete text
		b := w.concBytes(in)
		loc := r.native.FindSubmatchIndex(b)
		if loc == nil {
			return nil
		}
		if ncap == 0 {
			return []int{}
		}
		if ncap > len(loc) {
			ncap = len(loc)
		}
		return loc[:ncap]
	}
	m := newMatcher(w, r, in)
	start := -1
	for p := pos; ; {
		if w.decide(m.F(uint32(r.prog.Start), p)) {
			start = p
			break
		}
		if p >= len(in) {
			return nil
		}
		_, sz := m.runeAt(p)
		p += sz
	}
	if ncap == 0 {
		return []int{}
	}
	caps := make([]int, ncap)
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = start
	pc := uint32(r.prog.Start)
	p := start
	visited := map[[2]int]bool{}
	for {
		i := &r.prog.Inst[pc]
		switch i.Op {
		case syntax.InstMatch:
			caps[1] = p
			return caps
		case syntax.InstAlt, syntax.InstAltMatch:
			k := [2]int{int(pc), p}
			if !visited[k] && w.decide(m.F(i.Out, p)) {
				visited[k] = true
				pc = i.Out
			} else {
				pc = i.Arg
			}
		case syntax.InstNop:
			pc = i.Out
		case syntax.InstCapture:
			if int(i.Arg) < ncap && i.Arg >= 2 {
				caps[i.Arg] = p
			}
			pc = i.Out
		case syntax.InstEmptyWidth:
			pc = i.Out
		case syntax.InstFail:
			panic("regexp walk reached fail")
		default:
			if p >= len(in) {
				panic("regexp walk past end")
			}
			_, sz := m.runeAt(p)
			p += sz
			pc = i.Out
		}
	}
}

var _ = utf8.RuneError
