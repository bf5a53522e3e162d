package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Document decoding and encoding over text with symbolic holes. Structure must be
// concrete; symbolic bytes may appear inside string literals, restricted (by an
// explicit, checked condition) to bytes that need no escaping.

type nkind uint8

const (
	nNull nkind = iota
	nBool
	nNum
	nStr
	nArr
	nObj
)

type node struct {
	kind  nkind
	b     bool
	s     Value // string value, or raw text for numbers
	items []*node
	keys  []Value
	raw   []Value
}

var jsonNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)

type docErr struct{ msg string }

type dparser struct {
	w   *Worker
	in  []Value
	pos int
	fl  string
}

func (p *dparser) fail(f string, a ...any) { panic(docErr{fmt.Sprintf(f, a...)}) }

// at returns the concrete byte at pos (0 at the end).
func (p *dparser) at(i int) byte {
	if i >= len(p.in) {
		return 0
	}
	t, ok := p.in[i].(*Term)
	for ok && t.op == OIte { // text merged from several paths: take them apart
		if p.w.decide(t.args[0]) {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
		p.in[i] = t
		if t.isConst() {
			p.in[i] = t.val
			ok = false
		}
	}
	u, ok := p.in[i].(uint64)
	if !ok {
		return 1 // symbolic: never structural
	}
	return byte(u)
}
func (p *dparser) cur() byte { return p.at(p.pos) }
func (p *dparser) ws() {
	for p.pos < len(p.in) {
		switch p.cur() {
		case ' ', '\t', '\n', '\r':
			p.pos++
		default:
			return
		}
	}
}

func (p *dparser) notStructural() {
	if p.pos < len(p.in) {
		if _, ok := p.in[p.pos].(uint64); !ok {
			p.w.unsupported("symbolic byte in a structural position of a " + p.fl + " document")
		}
	}
}

func (w *Worker) requireByte(b Value, what string, bad string) {
	t, ok := b.(*Term)
	if !ok {
		return
	}
	c := w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, 0x20), t), w.tt.Cmp(OUlt, t, w.tt.Const(8, 0x7f)))
	for i := 0; i < len(bad); i++ {
		c = w.tt.And(c, w.tt.Not(w.tt.Eq(t, w.tt.Const(8, uint64(bad[i])))))
	}
	if !w.decide(c) {
		w.unsupported("symbolic byte needing escapes in " + what)
	}
}

// plainByte is the byte itself if it needs no special treatment, else one of
// its concrete values (one path each).
func (w *Worker) plainByte(b Value, what string, bad string) Value {
	t, ok := b.(*Term)
	if !ok {
		return b
	}
	c := w.tt.And(w.tt.Cmp(OUle, w.tt.Const(8, 0x20), t), w.tt.Cmp(OUlt, t, w.tt.Const(8, 0x80)))
	for i := 0; i < len(bad); i++ {
		c = w.tt.And(c, w.tt.Not(w.tt.Eq(t, w.tt.Const(8, uint64(bad[i])))))
	}
	if w.decide(c) {
		return b
	}
	if !w.decide(w.tt.Cmp(OUlt, t, w.tt.Const(8, 0x80))) {
		w.unsupported("symbolic non-ASCII byte in " + what)
	}
	return w.concretize(t)
}

// conc is the byte at the position, one path for each of its values.
func (p *dparser) conc() byte {
	if p.pos < len(p.in) {
		return byte(p.w.conc(p.in[p.pos]))
	}
	return 0
}

func (p *dparser) str() Value {
	p.pos++ // opening quote
	var out []Value
	for {
		if p.pos >= len(p.in) {
			p.fail("unexpected end of input")
		}
		b := p.in[p.pos]
		u, ok := b.(uint64)
		if !ok {
			b = p.w.plainByte(b, p.fl+" string", "\"\\")
			if u, ok = b.(uint64); !ok {
				out = append(out, b)
				p.pos++
				continue
			}
		}
		switch {
		case u == '"':
			p.pos++
			return mkStr(out)
		case u == '\\':
			p.pos++
			e := p.conc()
			p.pos++
			switch e {
			case 'n':
				out = append(out, byteVals['\n'])
			case 't':
				out = append(out, byteVals['\t'])
			case 'r':
				out = append(out, byteVals['\r'])
			case 'b':
				out = append(out, byteVals['\b'])
			case 'f':
				out = append(out, byteVals['\f'])
			case '"', '\\', '/':
				out = append(out, byteVals[e])
			case 'u':
				h := ""
				for i := 0; i < 4; i++ {
					h += string(rune(p.conc()))
					p.pos++
				}
				x, err := strconv.ParseUint(h, 16, 32)
				if err != nil {
					p.fail("invalid \\u escape")
				}
				var buf [4]byte
				n := utf8.EncodeRune(buf[:], rune(x))
				for i := 0; i < n; i++ {
					out = append(out, byteVals[buf[i]])
				}
			default:
				p.fail("invalid escape")
			}
		case u < 0x20:
			p.fail("invalid character in string literal")
		default:
			out = append(out, b)
			p.pos++
		}
	}
}

func (p *dparser) word() string {
	s := ""
	for p.pos < len(p.in) {
		c := p.cur()
		if c == 1 {
			p.notStructural()
		}
		if strings.IndexByte(" \t\r\n,]}:", c) >= 0 {
			break
		}
		s += string(rune(c))
		p.pos++
	}
	return s
}

func (p *dparser) value() *node {
	p.ws()
	if p.pos >= len(p.in) {
		p.fail("unexpected end of input")
	}
	start := p.pos
	n := p.value1()
	n.raw = p.in[start:p.pos]
	return n
}

func (p *dparser) value1() *node {
	switch p.cur() {
	case '{':
		p.pos++
		n := &node{kind: nObj}
		p.ws()
		if p.cur() == '}' {
			p.pos++
			return n
		}
		for {
			p.ws()
			p.notStructural()
			if p.cur() != '"' {
				p.fail("invalid character looking for beginning of object key string")
			}
			k := p.str()
			p.ws()
			if p.cur() != ':' {
				p.fail("invalid character after object key")
			}
			p.pos++
			n.keys = append(n.keys, k)
			n.items = append(n.items, p.value())
			p.ws()
			switch p.cur() {
			case ',':
				p.pos++
				continue
			case '}':
				p.pos++
				return n
			}
			p.notStructural()
			p.fail("invalid character after object key:value pair")
		}
	case '[':
		p.pos++
		n := &node{kind: nArr}
		p.ws()
		if p.cur() == ']' {
			p.pos++
			return n
		}
		for {
			n.items = append(n.items, p.value())
			p.ws()
			switch p.cur() {
			case ',':
				p.pos++
				continue
			case ']':
				p.pos++
				return n
			}
			p.notStructural()
			p.fail("invalid character after array element")
		}
	case '"':
		return &node{kind: nStr, s: p.str()}
	}
	wd := p.word()
	switch wd {
	case "null":
		return &node{kind: nNull}
	case "true", "false":
		return &node{kind: nBool, b: wd == "true", s: wd}
	}
	if _, err := strconv.ParseFloat(wd, 64); err == nil && wd[0] != '+' && wd[0] != '.' && (p.fl != "json" || jsonNumber.MatchString(wd)) {
		return &node{kind: nNum, s: wd}
	}
	if p.fl == "yaml" {
		p.w.unsupported("YAML plain scalar " + wd)
	}
	p.fail("invalid character looking for beginning of value")
	return nil
}

func (w *Worker) parseJSON(in []Value, fl string) (n *node, err *docErr) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(docErr); ok {
				n, err = nil, &e
				return
			}
			panic(x)
		}
	}()
	p := &dparser{w: w, in: slices.Clone(in), fl: fl}
	p.ws()
	if fl == "yaml" {
		if p.pos >= len(in) {
			return nil, nil
		}
		if c := p.cur(); c != '{' && c != '[' && c != '"' && c != 'n' {
			return w.parseYAMLBlock(in), nil
		}
	}
	n = p.value()
	p.ws()
	if p.pos < len(p.in) {
		p.notStructural()
		p.fail("invalid character after top-level value")
	}
	return n, nil
}

// ---- a small block-style YAML reader: mappings, sequences of scalars/mappings ----

type yline struct {
	ind int
	b   []Value
}

func (w *Worker) parseYAMLBlock(in []Value) *node {
	var lines []yline
	var cur []Value
	flush := func() {
		ind := 0
		for ind < len(cur) && isB(cur[ind], ' ') {
			ind++
		}
		if ind < len(cur) && !isB(cur[ind], '#') {
			lines = append(lines, yline{ind, cur[ind:]})
		}
		cur = nil
	}
	for _, b := range in {
		if isB(b, '\n') {
			flush()
			continue
		}
		cur = append(cur, b)
	}
	flush()
	pos := 0
	n := w.yblock(lines, &pos, 0)
	if pos < len(lines) {
		w.unsupported("YAML document outside the supported subset")
	}
	return n
}

func isB(v Value, c byte) bool { u, ok := v.(uint64); return ok && u == uint64(c) }

func (w *Worker) yscalar(b []Value) *node {
	for len(b) > 0 && isB(b[len(b)-1], ' ') {
		b = b[:len(b)-1]
	}
	if len(b) == 0 {
		return &node{kind: nNull}
	}
	if isB(b[0], '{') || isB(b[0], '[') {
		return w.yflow(b)
	}
	if isB(b[0], '"') {
		p := &dparser{w: w, in: slices.Clone(b), fl: "yaml"}
		return p.value()
	}
	if isB(b[0], '\'') && isB(b[len(b)-1], '\'') && len(b) >= 2 {
		for _, x := range b[1 : len(b)-1] {
			w.requireByte(x, "yaml single-quoted string", "'")
			if isB(x, '\'') {
				w.unsupported("quote in YAML single-quoted string")
			}
		}
		return &node{kind: nStr, s: mkStr(b[1 : len(b)-1])}
	}
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			w.unsupported("symbolic YAML plain scalar")
		}
	}
	s := string(w.concBytes(b))
	switch s {
	case "null", "~":
		return &node{kind: nNull}
	case "true", "false":
		return &node{kind: nBool, b: s == "true", s: s}
	}
	if strings.ContainsAny(s, "#&*!|>%@`{}[]") || strings.Contains(s, ": ") {
		w.unsupported("YAML plain scalar " + s)
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return &node{kind: nNum, s: s}
	}
	return &node{kind: nStr, s: s}
}

// yflow reads a flow mapping or sequence on one line.
func (w *Worker) yflow(b []Value) *node {
	n := &node{kind: nObj}
	cl := byte('}')
	if isB(b[0], '[') {
		n.kind, cl = nArr, ']'
	}
	if len(b) < 2 || !isB(b[len(b)-1], cl) {
		w.unsupported("YAML flow collection outside the supported subset")
	}
	var items [][]Value
	var cur []Value
	depth := 0
	var q byte
	for _, x := range b[1 : len(b)-1] {
		switch {
		case q != 0:
			if isB(x, q) {
				q = 0
			}
		case isB(x, '"') || isB(x, '\''):
			q = byte(x.(uint64))
		case isB(x, '{') || isB(x, '['):
			depth++
		case isB(x, '}') || isB(x, ']'):
			depth--
			if depth < 0 {
				w.unsupported("YAML flow collection outside the supported subset")
			}
		case isB(x, ',') && depth == 0:
			items = append(items, cur)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	if q != 0 || depth != 0 {
		w.unsupported("YAML flow collection outside the supported subset")
	}
	trim := func(b []Value) []Value {
		for len(b) > 0 && isB(b[0], ' ') {
			b = b[1:]
		}
		for len(b) > 0 && isB(b[len(b)-1], ' ') {
			b = b[:len(b)-1]
		}
		return b
	}
	if cur = trim(cur); len(cur) > 0 || (len(items) > 0 && n.kind == nObj) {
		items = append(items, cur)
	}
	for _, it := range items {
		it = trim(it)
		if len(it) == 0 {
			w.unsupported("empty item in a YAML flow collection")
		}
		if n.kind == nArr {
			if ycolon(it) >= 0 && !isB(it[0], '{') && !isB(it[0], '[') {
				w.unsupported("pair in a YAML flow sequence")
			}
			n.items = append(n.items, w.yscalar(it))
			continue
		}
		ci := ycolon(it)
		if ci < 0 {
			w.unsupported("YAML flow mapping item without a key")
		}
		n.keys = append(n.keys, w.yscalar(it[:ci]).s)
		n.items = append(n.items, w.yscalar(trim(it[ci+1:])))
	}
	return n
}

func (w *Worker) yblock(lines []yline, pos *int, ind int) *node {
	if *pos >= len(lines) {
		return &node{kind: nNull}
	}
	l := lines[*pos]
	if isB(l.b[0], '-') && (len(l.b) == 1 || isB(l.b[1], ' ')) {
		n := &node{kind: nArr}
		me := l.ind
		for *pos < len(lines) && lines[*pos].ind == me && isB(lines[*pos].b[0], '-') {
			rest := lines[*pos].b[1:]
			sk := 1
			for len(rest) > 0 && isB(rest[0], ' ') {
				rest = rest[1:]
				sk++
			}
			if ci := ycolon(rest); ci >= 0 && len(rest) > 0 && !isB(rest[0], '{') {
				// inline mapping inside the sequence item
				lines[*pos] = yline{me + sk, rest}
				n.items = append(n.items, w.yblock(lines, pos, me+sk))
				continue
			}
			*pos++
			if len(rest) == 0 {
				if *pos < len(lines) && lines[*pos].ind > me {
					n.items = append(n.items, w.yblock(lines, pos, lines[*pos].ind))
				} else {
					n.items = append(n.items, &node{kind: nNull})
				}
				continue
			}
			n.items = append(n.items, w.yscalar(rest))
		}
		return n
	}
	n := &node{kind: nObj}
	me := l.ind
	for *pos < len(lines) && lines[*pos].ind == me {
		b := lines[*pos].b
		ci := ycolon(b)
		if ci < 0 {
			w.unsupported("YAML line without a key")
		}
		k := w.yscalar(b[:ci])
		rest := b[ci+1:]
		for len(rest) > 0 && isB(rest[0], ' ') {
			rest = rest[1:]
		}
		*pos++
		var v *node
		if len(rest) == 0 {
			if *pos < len(lines) && (lines[*pos].ind > me || (lines[*pos].ind == me && isB(lines[*pos].b[0], '-'))) {
				v = w.yblock(lines, pos, lines[*pos].ind)
			} else {
				v = &node{kind: nNull}
			}
		} else {
			v = w.yscalar(rest)
		}
		n.keys = append(n.keys, k.s)
		n.items = append(n.items, v)
	}
	return n
}

// ycolon finds the "key:" separator of a block mapping line.
func ycolon(b []Value) int {
	if len(b) > 0 && (isB(b[0], '"') || isB(b[0], '\'')) {
		q := byte(b[0].(uint64))
		for i := 1; i < len(b); i++ {
			if isB(b[i], q) {
				if i+1 < len(b) && isB(b[i+1], ':') {
					return i + 1
				}
				return -1
			}
		}
		return -1
	}
	for i := range b {
		if isB(b[i], ':') && (i+1 == len(b) || isB(b[i+1], ' ')) {
			return i
		}
	}
	return -1
}

// ---- typed decoding ----

type decoder struct {
	w   *Worker
	fl  string // json | yaml | toml
	err string // first error (json/yaml continue after a type mismatch)

	strict bool // fields that are not known are an error
}

func (d *decoder) mismatch(n *node, t types.Type) {
	kind := []string{"null", "bool", "number", "string", "array", "object"}[n.kind]
	msg := d.fl + ": cannot unmarshal " + kind + " into Go value of type " + types.TypeString(t, nil)
	if d.fl == "toml" {
		panic(docErr{msg})
	}
	if d.err == "" {
		d.err = msg
	}
}

func (d *decoder) into(p Ptr, t types.Type, n *node) {
	w := d.w
	// pointers
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == nNull {
			w.store(p, t, Ptr{})
			return
		}
		cur, _ := p.o.cells[p.off].(Ptr)
		if cur.o == nil {
			cur = w.alloc(pt.Elem())
			w.store(p, t, cur)
		}
		d.into(cur, pt.Elem(), n)
		return
	}
	// custom decoders
	if _, isNamed := t.(*types.Named); isNamed || true {
		ptr := types.NewPointer(t)
		switch d.fl {
		case "json":
			if _, ok := t.(*types.Named); ok {
				if f := w.methodByName(ptr, "UnmarshalJSON"); f != nil {
					if n.kind == nNull && !strings.HasSuffix(t.String(), "RawMessage") {
						// encoding/json calls UnmarshalJSON with null as well
					}
					r := w.callFn(w.info(f), []Value{p, w.newByteSlice(n.raw)}, nil)
					if e, ok := r.(Iface); ok && e.t != nil && d.err == "" {
						d.err = w.render(w.sprintV(e))
					}
					return
				}
			}
		case "yaml":
			if _, ok := t.(*types.Named); ok && n.kind != nNull {
				if f := w.methodByName(ptr, "UnmarshalYAML"); f != nil {
					nt := w.eng.typ("gopkg.in/yaml.v3", "Node")
					np := w.alloc(nt)
					np.o.host = n
					st := nt.Underlying().(*types.Struct)
					kinds := map[nkind]uint64{nArr: 2, nObj: 4, nStr: 8, nNum: 8, nBool: 8, nNull: 8}
					for i := 0; i < st.NumFields(); i++ {
						switch st.Field(i).Name() {
						case "Kind":
							np.o.cells[w.fieldOff(st, i)] = kinds[n.kind]
						case "Value":
							if n.s != nil {
								np.o.cells[w.fieldOff(st, i)] = n.s
							}
						case "Tag":
							np.o.cells[w.fieldOff(st, i)] = map[nkind]string{nArr: "!!seq", nObj: "!!map", nStr: "!!str", nNum: "!!float", nBool: "!!bool", nNull: "!!null"}[n.kind]
						}
					}
					r := w.callFn(w.info(f), []Value{p, np}, nil)
					if e, ok := r.(Iface); ok && e.t != nil && d.err == "" {
						d.err = w.render(w.sprintV(e))
					}
					return
				}
			}
		}
		if _, ok := t.(*types.Named); ok && n.kind == nStr && d.fl != "json" {
			if f := w.methodByName(ptr, "UnmarshalText"); f != nil {
				r := w.callFn(w.info(f), []Value{p, w.newByteSlice(strBytes(n.s))}, nil)
				if e, ok := r.(Iface); ok && e.t != nil && d.err == "" {
					d.err = w.render(w.sprintV(e))
				}
				return
			}
		}
	}
	if n.kind == nNull {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			w.store(p, t, w.zero(t))
		}
		return
	}
	bk := basicInfo(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.kind != nObj {
			d.mismatch(n, t)
			return
		}
		d.intoStruct(p, t, u, n)
	case *types.Map:
		if n.kind != nObj {
			d.mismatch(n, t)
			return
		}
		m, _ := p.o.cells[p.off].(*MapObj)
		if m == nil {
			m = w.newMap()
			w.store(p, t, m)
		}
		for i, k := range n.keys {
			if d.fl == "yaml" {
				for j := 0; j < i; j++ {
					if w.decideV(w.strEq(n.keys[j], k)) {
						panic(docErr{"yaml: mapping key already defined"})
					}
				}
			}
			tmp := w.alloc(u.Elem())
			e0 := d.err
			d.into(tmp, u.Elem(), n.items[i])
			if d.fl == "yaml" && d.err != "" && e0 == "" {
				// yaml drops entries whose value failed to decode
				continue
			}
			w.mapSet(m, k, w.load(tmp, u.Elem()))
		}
	case *types.Slice:
		if n.kind == nStr && basicInfo(u.Elem()).w == 8 && d.fl == "json" {
			b, err := base64.StdEncoding.DecodeString(string(w.concBytes(strBytes(n.s))))
			if err != nil {
				if d.err == "" {
					d.err = err.Error()
				}
				return
			}
			w.store(p, t, w.newByteSlice(strBytes(string(b))))
			return
		}
		if n.kind != nArr {
			d.mismatch(n, t)
			return
		}
		sz := w.sizeof(u.Elem())
		s := w.makeSlice(u.Elem(), len(n.items), len(n.items))
		for i, x := range n.items {
			d.into(Ptr{s.o, s.off + i*sz}, u.Elem(), x)
		}
		w.store(p, t, s)
	case *types.Array:
		w.unsupported("decoding into array")
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.mismatch(n, t)
			return
		}
		w.store(p, t, d.generic(n))
	case *types.Basic:
		switch {
		case bk.isStr:
			if n.kind == nStr {
				w.store(p, t, n.s)
				return
			}
			if d.fl == "yaml" && (n.kind == nNum || n.kind == nBool) {
				w.store(p, t, n.s)
				return
			}
			d.mismatch(n, t)
		case bk.isBool:
			if n.kind != nBool {
				d.mismatch(n, t)
				return
			}
			w.store(p, t, n.b)
		case bk.isInt:
			if n.kind != nNum {
				d.mismatch(n, t)
				return
			}
			i, err := strconv.ParseInt(w.mustStr(n.s, "number"), 10, 64)
			if err != nil {
				d.mismatch(n, t)
				return
			}
			w.store(p, t, uint64(i)&mask(bk.w))
		case bk.isFlt:
			if n.kind != nNum {
				d.mismatch(n, t)
				return
			}
			f, _ := strconv.ParseFloat(w.mustStr(n.s, "number"), 64)
			w.store(p, t, f)
		default:
			w.unsupported("decode into " + t.String())
		}
	default:
		w.unsupported("decode into " + t.String())
	}
}

func (d *decoder) generic(n *node) Value {
	w := d.w
	anyT := types.Universe.Lookup("any").Type()
	switch n.kind {
	case nNull:
		return Iface{}
	case nBool:
		return Iface{types.Typ[types.Bool], n.b}
	case nNum:
		s := w.mustStr(n.s, "number")
		if d.fl != "json" {
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				if d.fl == "toml" {
					return Iface{types.Typ[types.Int64], uint64(i)}
				}
				return Iface{types.Typ[types.Int], uint64(i)}
			}
		}
		f, _ := strconv.ParseFloat(s, 64)
		return Iface{types.Typ[types.Float64], f}
	case nStr:
		return Iface{types.Typ[types.String], n.s}
	case nArr:
		cells := make([]Value, len(n.items))
		for i, x := range n.items {
			cells[i] = d.generic(x)
		}
		return Iface{types.NewSlice(anyT), w.newSlice(cells, len(cells))}
	default:
		m := w.newMap()
		for i, k := range n.keys {
			w.mapSet(m, k, d.generic(n.items[i]))
		}
		return Iface{types.NewMap(types.Typ[types.String], anyT), m}
	}
}

type sfield struct {
	name      string
	off       int
	t         types.Type
	omitempty bool
	depth     int
	tagged    bool
	str       bool
}

// fieldsOf lists the document fields of a struct (embedded structs flattened).
func (w *Worker) fieldsOf(st *types.Struct, fl string) []sfield {
	var all []sfield
	var walk func(st *types.Struct, base, depth int)
	walk = func(st *types.Struct, base, depth int) {
		off := base
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			o := off
			off += w.sizeof(f.Type())
			tag, has := reflect.StructTag(st.Tag(i)).Lookup(fl)
			if fl == "yaml" && !has && st.Tag(i) != "" && !strings.Contains(st.Tag(i), ":") {
				tag, has = st.Tag(i), true
			}
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			if f.Embedded() {
				inner, isS := f.Type().Underlying().(*types.Struct)
				flat := isS && parts[0] == "" && fl != "yaml"
				for _, x := range parts[1:] {
					if x == "inline" && isS {
						flat = true
					}
				}
				if flat {
					walk(inner, o, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			name := parts[0]
			if name == "" {
				name = f.Name()
				if fl == "yaml" {
					name = strings.ToLower(name)
				}
			}
			sf := sfield{name: name, off: o, t: f.Type(), depth: depth, tagged: parts[0] != ""}
			for _, x := range parts[1:] {
				if x == "omitempty" {
					sf.omitempty = true
				}
				if x == "string" {
					sf.str = true
				}
			}
			all = append(all, sf)
		}
	}
	walk(st, 0, 0)
	// dominance: shallowest wins
	best := map[string]int{}
	for i, f := range all {
		if j, ok := best[f.name]; !ok || f.depth < all[j].depth || (f.depth == all[j].depth && f.tagged && !all[j].tagged) {
			best[f.name] = i
		}
	}
	var out []sfield
	for i, f := range all {
		if best[f.name] == i {
			out = append(out, f)
		}
	}
	return out
}

func (d *decoder) intoStruct(p Ptr, t types.Type, st *types.Struct, n *node) {
	w := d.w
	fs := w.fieldsOf(st, d.fl)
	for i, k := range n.keys {
		if d.fl == "yaml" {
			for j := 0; j < i; j++ {
				if w.decideV(w.strEq(n.keys[j], k)) {
					panic(docErr{"yaml: mapping key already defined"})
				}
			}
		}
		var hit *sfield
		for fi := range fs {
			if w.decideV(w.strEq(k, fs[fi].name)) {
				hit = &fs[fi]
				break
			}
		}
		if hit == nil && d.fl != "yaml" {
			if ks, ok := k.(string); ok {
				for fi := range fs {
					if strings.EqualFold(fs[fi].name, ks) {
						hit = &fs[fi]
						break
					}
				}
			}
		}
		if hit != nil {
			d.into(Ptr{p.o, p.off + hit.off}, hit.t, n.items[i])
		} else if d.strict && d.err == "" {
			d.err = d.fl + ": unknown field"
		}
	}
}

// sdec is a streaming decoder: what its reader holds is taken at once.
type sdec struct {
	r        Iface
	read     bool
	buf      []Value
	err, bad Iface // what ended the reading; what ended the decoding
	strict   bool
}

func (d *sdec) fill(w *Worker) {
	if d.read {
		return
	}
	d.read = true
	r := w.callFn(w.info(w.eng.fn("io", "ReadAll")), []Value{d.r}, nil).(Tuple)
	d.buf = append([]Value(nil), w.sliceBytes(r[0].(Slice))...)
	d.err = r[1].(Iface)
}

// ioErr is one of the errors of package io.
func (w *Worker) ioErr(name string) Iface {
	g := w.eng.global("io", name)
	return w.load(w.globalPtr(w.gslot(g)), g.Type().(*types.Pointer).Elem()).(Iface)
}

// parseFirst reads one JSON value and gives what follows it; cut tells that the input ended within it.
func (w *Worker) parseFirst(in []Value) (n *node, rest []Value, cut bool, err *docErr) {
	p := &dparser{w: w, in: slices.Clone(in), fl: "json"}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(docErr); ok {
				n, rest, cut, err = nil, nil, p.pos >= len(p.in), &e
				return
			}
			panic(x)
		}
	}()
	n = p.value()
	return n, p.in[p.pos:], false, nil
}

func (w *Worker) decodeTop(fl string, n *node, target Value) (res Value) {
	return w.decodeWith(fl, n, target, false)
}

func (w *Worker) decodeWith(fl string, n *node, target Value, strict bool) (res Value) {
	ti, ok := target.(Iface)
	if !ok || ti.t == nil {
		return w.mkError(fl + ": Unmarshal(nil)")
	}
	pt, ok := ti.t.Underlying().(*types.Pointer)
	if !ok {
		return w.mkError(fl + ": Unmarshal(non-pointer " + ti.t.String() + ")")
	}
	p := w.resolvePtr(ti.v)
	if p.o == nil {
		return w.mkError(fl + ": Unmarshal(nil " + ti.t.String() + ")")
	}
	d := &decoder{w: w, fl: fl, strict: strict}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(docErr); ok {
				res = w.mkError(e.msg)
				return
			}
			panic(x)
		}
	}()
	w.touch(p.o.serial)
	d.into(p, pt.Elem(), n)
	if d.err != "" {
		return w.mkError(d.err)
	}
	return Iface{}
}

// ---- TOML subset ----

func (w *Worker) parseTOML(in []Value) (root *node, err *docErr) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(docErr); ok {
				root, err = nil, &e
				return
			}
			panic(x)
		}
	}()
	p := &tomlParser{dparser{w: w, in: slices.Clone(in), fl: "toml"}}
	return p.doc(), nil
}

var tomlFloat = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)

type tomlParser struct{ dparser }

func (p *tomlParser) hws() {
	for p.cur() == ' ' || p.cur() == '\t' {
		p.pos++
	}
}
func (p *tomlParser) skip() {
	for p.pos < len(p.in) {
		switch p.cur() {
		case ' ', '\t', '\n', '\r':
			p.pos++
		case '#':
			for p.pos < len(p.in) && p.cur() != '\n' {
				p.pos++
			}
		default:
			return
		}
	}
}
func (p *tomlParser) key1() Value {
	p.hws()
	p.notStructural()
	if p.cur() == '"' {
		return p.str()
	}
	if p.cur() == '\'' {
		return p.literal()
	}
	s := ""
	for p.pos < len(p.in) {
		c := p.cur()
		if c == '_' || c == '-' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			s += string(rune(c))
			p.pos++
			continue
		}
		break
	}
	if s == "" {
		p.notStructural()
		p.fail("toml: invalid key")
	}
	return s
}
func (p *tomlParser) keyPath() []Value {
	ks := []Value{p.key1()}
	for {
		p.hws()
		if p.cur() != '.' {
			return ks
		}
		p.pos++
		ks = append(ks, p.key1())
	}
}
func (p *tomlParser) find(n *node, k Value) int {
	for i := range n.keys {
		if p.w.decideV(p.w.strEq(n.keys[i], k)) {
			return i
		}
	}
	return -1
}
func (p *tomlParser) sub(n *node, k Value) *node {
	if i := p.find(n, k); i >= 0 {
		c := n.items[i]
		if c.kind == nArr && len(c.items) > 0 {
			c = c.items[len(c.items)-1]
		}
		if c.kind != nObj {
			p.fail("toml: key already defined")
		}
		return c
	}
	c := &node{kind: nObj}
	n.keys = append(n.keys, k)
	n.items = append(n.items, c)
	return c
}
func (p *tomlParser) doc() *node {
	root := &node{kind: nObj}
	cur := root
	for {
		p.skip()
		if p.pos >= len(p.in) {
			return root
		}
		if p.cur() == '[' {
			p.pos++
			arr := false
			if p.cur() == '[' {
				arr = true
				p.pos++
			}
			ks := p.keyPath()
			p.hws()
			if p.cur() != ']' {
				p.fail("toml: expected ]")
			}
			p.pos++
			if arr {
				if p.cur() != ']' {
					p.fail("toml: expected ]]")
				}
				p.pos++
			}
			t := root
			for _, k := range ks[:len(ks)-1] {
				t = p.sub(t, k)
			}
			last := ks[len(ks)-1]
			if arr {
				i := p.find(t, last)
				if i < 0 {
					t.keys = append(t.keys, last)
					t.items = append(t.items, &node{kind: nArr})
					i = len(t.items) - 1
				}
				if t.items[i].kind != nArr {
					p.fail("toml: key already defined")
				}
				cur = &node{kind: nObj}
				t.items[i].items = append(t.items[i].items, cur)
			} else {
				cur = p.sub(t, last)
			}
			continue
		}
		p.kv(cur)
		p.hws()
		if p.cur() == '#' {
			p.skip()
			continue
		}
		if p.pos < len(p.in) && p.cur() != '\n' && p.cur() != '\r' {
			p.notStructural()
			p.fail("toml: expected newline")
		}
	}
}
func (p *tomlParser) kv(cur *node) {
	ks := p.keyPath()
	p.hws()
	if p.cur() != '=' {
		p.notStructural()
		p.fail("toml: expected =")
	}
	p.pos++
	v := p.tval()
	t := cur
	for _, k := range ks[:len(ks)-1] {
		t = p.sub(t, k)
	}
	k := ks[len(ks)-1]
	if p.find(t, k) >= 0 {
		p.fail("toml: key already defined")
	}
	t.keys = append(t.keys, k)
	t.items = append(t.items, v)
}

// literal parses a single-quoted string, which has no escapes.
func (p *tomlParser) literal() Value {
	p.pos++
	var out []Value
	for {
		if p.pos >= len(p.in) {
			p.fail("toml: unterminated string")
		}
		b := p.w.plainByte(p.in[p.pos], "toml literal", "'")
		p.pos++
		if u, ok := b.(uint64); ok {
			if u == '\'' {
				return mkStr(out)
			}
			if u < 0x20 && u != '\t' || u == 0x7f {
				p.fail("toml: invalid character in literal string")
			}
		}
		out = append(out, b)
	}
}
func (p *tomlParser) triple(c byte) bool {
	return p.at(p.pos+1) == c && p.at(p.pos+2) == c
}
func (p *tomlParser) tval() *node {
	p.hws()
	switch p.cur() {
	case '"':
		if p.triple('"') {
			p.w.unsupported("toml multi-line string")
		}
		return &node{kind: nStr, s: p.str()}
	case '\'':
		if p.triple('\'') {
			p.w.unsupported("toml multi-line string")
		}
		return &node{kind: nStr, s: p.literal()}
	case '[':
		p.pos++
		n := &node{kind: nArr}
		for {
			p.skip()
			if p.cur() == ']' {
				p.pos++
				return n
			}
			n.items = append(n.items, p.tval())
			p.skip()
			if p.cur() == ',' {
				p.pos++
				continue
			}
			if p.cur() == ']' {
				p.pos++
				return n
			}
			p.notStructural()
			p.fail("toml: bad array")
		}
	case '{':
		p.pos++
		n := &node{kind: nObj}
		p.hws()
		if p.cur() == '}' {
			p.pos++
			return n
		}
		for {
			p.kv(n)
			p.hws()
			if p.cur() == ',' {
				p.pos++
				continue
			}
			if p.cur() == '}' {
				p.pos++
				return n
			}
			p.notStructural()
			p.fail("toml: bad inline table")
		}
	}
	wd := p.word()
	switch wd {
	case "true", "false":
		return &node{kind: nBool, b: wd == "true"}
	}
	if tomlFloat.MatchString(wd) {
		return &node{kind: nNum, s: wd}
	}
	p.notStructural()
	if wd != "" && strings.ContainsAny(wd[:1], "0123456789+-in") {
		p.w.unsupported("toml value " + wd)
	}
	p.fail("toml: invalid value")
	return nil
}

// ---- XML subset ----

type xev struct {
	kind byte // s start, e end, t text
	name Value
	text []Value
}

type xdec struct {
	ev  []xev
	pos int
}

func (w *Worker) parseXML(in []Value) ([]xev, *docErr) {
	var evs []xev
	var stack []Value
	i := 0
	var text []Value
	flush := func() {
		if len(text) > 0 {
			evs = append(evs, xev{kind: 't', text: text})
			text = nil
		}
	}
	rootSeen := false
	for i < len(in) {
		if !isB(in[i], '<') {
			w.requireByte(in[i], "xml text", "<&>")
			if isB(in[i], '&') {
				// named entities
				j := i
				for j < len(in) && !isB(in[j], ';') {
					j++
				}
				if j >= len(in) {
					return nil, &docErr{"XML syntax error: invalid character entity"}
				}
				m := map[string]byte{"lt": '<', "gt": '>', "amp": '&', "quot": '"', "apos": '\''}
				c, ok := m[string(w.concBytes(in[i+1:j]))]
				if !ok {
					return nil, &docErr{"XML syntax error: invalid character entity"}
				}
				text = append(text, byteVals[c])
				i = j + 1
				continue
			}
			text = append(text, in[i])
			i++
			continue
		}
		flush()
		j := i + 1
		if j < len(in) && (isB(in[j], '?') || isB(in[j], '!')) {
			for j < len(in) && !isB(in[j], '>') {
				j++
			}
			i = j + 1
			continue
		}
		end := false
		if j < len(in) && isB(in[j], '/') {
			end = true
			j++
		}
		s := j
		for j < len(in) && !isB(in[j], '>') && !isB(in[j], '/') && !isB(in[j], ' ') {
			w.requireByte(in[j], "xml name", "<&>/ \"'=:")
			j++
		}
		name := mkStr(in[s:j])
		self := false
		for j < len(in) && !isB(in[j], '>') {
			self = isB(in[j], '/')
			j++
		}
		if j >= len(in) || strLen(name) == 0 {
			return nil, &docErr{"XML syntax error: unexpected EOF"}
		}
		i = j + 1
		if end {
			if len(stack) == 0 || !w.decideV(w.strEq(stack[len(stack)-1], name)) {
				return nil, &docErr{"XML syntax error: unexpected end element"}
			}
			stack = stack[:len(stack)-1]
			evs = append(evs, xev{kind: 'e', name: name})
			continue
		}
		rootSeen = true
		evs = append(evs, xev{kind: 's', name: name})
		if self {
			evs = append(evs, xev{kind: 'e', name: name})
		} else {
			stack = append(stack, name)
		}
	}
	flush()
	if len(stack) > 0 {
		return nil, &docErr{"XML syntax error: unexpected EOF"}
	}
	if !rootSeen {
		return nil, &docErr{"EOF"}
	}
	return evs, nil
}

// xmlSpan returns the index of the end event matching the start event at i.
func xmlSpan(ev []xev, i int) int {
	d := 0
	for j := i; j < len(ev); j++ {
		switch ev[j].kind {
		case 's':
			d++
		case 'e':
			d--
			if d == 0 {
				return j
			}
		}
	}
	return len(ev) - 1
}

func (w *Worker) startElem(name Value) Iface {
	t := w.eng.typ("encoding/xml", "StartElement")
	return Iface{t, Agg{"", name, Slice{}}}
}

func (w *Worker) xmlInto(p Ptr, t types.Type, ev []xev, i int) {
	end := xmlSpan(ev, i)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		cur, _ := p.o.cells[p.off].(Ptr)
		if cur.o == nil {
			cur = w.alloc(pt.Elem())
			w.store(p, t, cur)
		}
		w.xmlInto(cur, pt.Elem(), ev, i)
		return
	}
	if _, ok := t.(*types.Named); ok {
		if f := w.methodByName(types.NewPointer(t), "UnmarshalXML"); f != nil {
			dt := w.eng.typ("encoding/xml", "Decoder")
			dp := w.alloc(dt)
			dp.o.host = &xdec{ev: ev[i+1 : end+1]}
			r := w.callFn(w.info(f), []Value{p, dp, w.startElem(ev[i].name).v}, nil)
			if e, ok := r.(Iface); ok && e.t != nil {
				panic(docErr{w.render(w.sprintV(e))})
			}
			return
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		tmp := w.alloc(sl.Elem())
		w.xmlInto(tmp, sl.Elem(), ev, i)
		s, _ := p.o.cells[p.off].(Slice)
		cells := tmp.o.cells
		w.store(p, t, w.appendCells(s, cells, 1, w.sizeof(sl.Elem()), sl.Elem()))
		return
	}
	if basicInfo(t).isStr {
		var out []Value
		d := 0
		for j := i; j <= end; j++ {
			switch ev[j].kind {
			case 's':
				d++
			case 'e':
				d--
			case 't':
				if d == 1 {
					out = append(out, ev[j].text...)
				}
			}
		}
		w.store(p, t, mkStr(out))
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		w.unsupported("xml decode into " + t.String())
	}
	type xf struct {
		path []string
		off  int
		t    types.Type
	}
	var fs []xf
	off := 0
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		tag := reflect.StructTag(st.Tag(k)).Get("xml")
		o := off
		off += w.sizeof(f.Type())
		name := strings.Split(tag, ",")[0]
		if f.Name() == "XMLName" {
			if name != "" && !w.decideV(w.strEq(ev[i].name, name)) {
				panic(docErr{"expected element type <" + name + ">"})
			}
			w.store(Ptr{p.o, p.off + o}, f.Type(), Agg{"", ev[i].name})
			continue
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		fs = append(fs, xf{strings.Split(name, ">"), o, f.Type()})
	}
	var walk func(i int, prefix []string)
	walk = func(i int, prefix []string) {
		end := xmlSpan(ev, i)
		for j := i + 1; j < end; {
			if ev[j].kind != 's' {
				j++
				continue
			}
			e := xmlSpan(ev, j)
			done := false
			for _, f := range fs {
				if len(f.path) <= len(prefix) {
					continue
				}
				match := true
				for q := range prefix {
					if f.path[q] != prefix[q] {
						match = false
					}
				}
				if !match || !w.decideV(w.strEq(ev[j].name, f.path[len(prefix)])) {
					continue
				}
				if len(f.path) == len(prefix)+1 {
					w.xmlInto(Ptr{p.o, p.off + f.off}, f.t, ev, j)
					done = true
					break
				}
				walk(j, append(append([]string(nil), prefix...), f.path[len(prefix)]))
				done = true
				break
			}
			_ = done
			j = e + 1
		}
	}
	walk(i, nil)
}

// ---- encoding ----

type encoder struct {
	w  *Worker
	fl string
	o  []Value
}

func (e *encoder) lit(s string) { e.o = append(e.o, strBytes(s)...) }

func (e *encoder) str(s Value) {
	e.lit("\"")
	if x, ok := s.(string); ok {
		for _, r := range x {
			switch {
			case r == '"' || r == '\\':
				e.lit("\\" + string(r))
			case r == '\n':
				e.lit("\\n")
			case r == '\t':
				e.lit("\\t")
			case r == '\r':
				e.lit("\\r")
			case r < 0x20 || r == '<' || r == '>' || r == '&' || r == 0x2028 || r == 0x2029:
				e.lit(fmt.Sprintf("\\u%04x", r))
			default:
				e.lit(string(r))
			}
		}
	} else {
		for _, b := range strBytes(s) {
			b = e.w.plainByte(b, "encoded string", "\"\\<>&")
			if u, ok := b.(uint64); ok && (u < 0x20 || u == '"' || u == '\\' || u == '<' || u == '>' || u == '&') {
				e.str2(byte(u))
				continue
			}
			e.o = append(e.o, b)
		}
	}
	e.lit("\"")
}
func (e *encoder) str2(c byte) {
	switch c {
	case '"', '\\':
		e.lit("\\" + string(rune(c)))
	case '\n':
		e.lit("\\n")
	case '\t':
		e.lit("\\t")
	case '\r':
		e.lit("\\r")
	default:
		e.lit(fmt.Sprintf("\\u%04x", c))
	}
}

func (e *encoder) isEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case string, *SStr:
		return strLen(x) == 0
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case Slice:
		return x.len == 0
	case *MapObj:
		return x == nil || x.live == 0
	case Ptr:
		return x.o == nil
	case Iface:
		return x.t == nil
	case *Term:
		return e.w.decideV(e.w.eq(x, map[bool]Value{true: false, false: zU64}[x.w == 0]))
	}
	return false
}

func (e *encoder) enc(v Value, t types.Type) {
	w := e.w
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		i := v.(Iface)
		if i.t == nil {
			e.lit("null")
			return
		}
		e.enc(i.v, i.t)
		return
	}
	if e.fl == "json" {
		for _, name := range []string{"MarshalJSON"} {
			if f := w.methodByName(t, name); f != nil {
				if p, ok := v.(Ptr); ok && p.o == nil {
					e.lit("null")
					return
				}
				r := w.callFn(w.info(f), []Value{v}, nil).(Tuple)
				if er := r[1].(Iface); er.t != nil {
					panic(docErr{w.render(w.sprintV(er))})
				}
				e.o = append(e.o, w.sliceBytes(r[0].(Slice))...)
				return
			}
		}
	}
	bk := basicInfo(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(Ptr)
		if p.o == nil {
			e.lit("null")
			return
		}
		e.enc(w.load(p, u.Elem()), u.Elem())
	case *types.Struct:
		a := v.(Agg)
		e.lit("{")
		first := true
		for _, f := range w.fieldsOf(u, e.fl) {
			n := w.sizeof(f.t)
			var fv Value
			if isAgg(f.t) {
				fv = a[f.off : f.off+n : f.off+n]
			} else {
				fv = a[f.off]
			}
			if f.omitempty && e.isEmpty(fv, f.t) {
				continue
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.str(f.name)
			e.lit(":")
			e.enc(fv, f.t)
		}
		e.lit("}")
	case *types.Slice:
		s := v.(Slice)
		if s.o == nil {
			if e.fl == "yaml" {
				e.lit("[]")
			} else {
				e.lit("null")
			}
			return
		}
		if basicInfo(u.Elem()).w == 8 && e.fl == "json" {
			e.str(base64.StdEncoding.EncodeToString(w.concBytes(w.sliceBytes(s))))
			return
		}
		sz := w.sizeof(u.Elem())
		e.lit("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				e.lit(",")
			}
			e.enc(w.load(Ptr{s.o, s.off + i*sz}, u.Elem()), u.Elem())
		}
		e.lit("]")
	case *types.Map:
		m := v.(*MapObj)
		if m == nil {
			e.lit("null")
			return
		}
		type kv struct {
			k string
			v Value
		}
		var kvs []kv
		for i := range m.entries {
			if m.entries[i].dead {
				continue
			}
			kvs = append(kvs, kv{w.mustStr(m.entries[i].k, "map key to encode"), m.entries[i].v})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		e.lit("{")
		for i, x := range kvs {
			if i > 0 {
				e.lit(",")
			}
			e.str(x.k)
			e.lit(":")
			e.enc(x.v, u.Elem())
		}
		e.lit("}")
	case *types.Basic:
		switch {
		case bk.isStr:
			e.str(v)
		case bk.isBool:
			if w.decideV(v) {
				e.lit("true")
			} else {
				e.lit("false")
			}
		case bk.isInt:
			c := w.conc(v)
			if bk.signed {
				e.lit(strconv.FormatInt(sext(c, bk.w), 10))
			} else {
				e.lit(strconv.FormatUint(c, 10))
			}
		case bk.isFlt:
			e.lit(strconv.FormatFloat(v.(float64), 'g', -1, 64))
		}
	default:
		w.unsupported("encode " + t.String())
	}
}

func (w *Worker) encode(v Value, fl string) (out []Value, err *docErr) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(docErr); ok {
				err = &e
				return
			}
			panic(x)
		}
	}()
	e := &encoder{w: w, fl: fl}
	i := v.(Iface)
	if i.t == nil {
		return strBytes("null"), nil
	}
	e.enc(i.v, i.t)
	return e.o, nil
}

func initDocs() {
	un := func(fl string, parse func(w *Worker, b []Value) (*node, *docErr)) intrinsic {
		return func(w *Worker, fi *fnInfo, a []Value) Value {
			n, err := parse(w, append([]Value(nil), w.sliceBytes(a[0].(Slice))...))
			if err != nil {
				return w.mkError(fl + ": " + err.msg)
			}
			if n == nil {
				return Iface{}
			}
			return w.decodeTop(fl, n, a[1])
		}
	}
	intrinsics["encoding/json.Unmarshal"] = un("json", func(w *Worker, b []Value) (*node, *docErr) { return w.parseJSON(b, "json") })
	intrinsics["gopkg.in/yaml.v3.Unmarshal"] = un("yaml", func(w *Worker, b []Value) (*node, *docErr) { return w.parseJSON(b, "yaml") })
	intrinsics["github.com/BurntSushi/toml.Unmarshal"] = un("toml", func(w *Worker, b []Value) (*node, *docErr) { return w.parseTOML(b) })
	intrinsics["(*gopkg.in/yaml.v3.Node).Decode"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		p := w.resolvePtr(a[0])
		n, ok := p.o.host.(*node)
		if !ok {
			w.unsupported("yaml.Node without content")
		}
		return w.decodeTop("yaml", n, a[1])
	}
	intrinsics["encoding/json.Marshal"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		o, err := w.encode(a[0], "json")
		if err != nil {
			return Tuple{Slice{}, w.mkError("json: " + err.msg)}
		}
		return Tuple{w.newByteSlice(o), Iface{}}
	}
	intrinsics["encoding/json.MarshalIndent"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		return intrinsics["encoding/json.Marshal"](w, fi, a[:1])
	}
	intrinsics["encoding/json.Valid"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		_, err := w.parseJSON(w.sliceBytes(a[0].(Slice)), "json")
		return err == nil
	}
	// streaming encoders keep their writer in the host field
	enc := func(pkg, fl string) {
		intrinsics[pkg+".NewEncoder"] = func(w *Worker, fi *fnInfo, a []Value) Value {
			p := w.alloc(fi.resT.(*types.Pointer).Elem())
			p.o.host = a[0].(Iface)
			return p
		}
		intrinsics["(*"+pkg+".Encoder).SetIndent"] = func(w *Worker, fi *fnInfo, a []Value) Value { return nil }
		intrinsics["(*"+pkg+".Encoder).SetEscapeHTML"] = func(w *Worker, fi *fnInfo, a []Value) Value { return nil }
		intrinsics["(*"+pkg+".Encoder).Close"] = func(w *Worker, fi *fnInfo, a []Value) Value { return Iface{} }
		intrinsics["(*"+pkg+".Encoder).Encode"] = func(w *Worker, fi *fnInfo, a []Value) Value {
			o, err := w.encode(a[1], fl)
			if err != nil {
				return w.mkError(fl + ": " + err.msg)
			}
			o = append(o, byteVals['\n'])
			r, _ := w.callMethod(w.resolvePtr(a[0]).o.host.(Iface), "Write", w.newByteSlice(o))
			return r.(Tuple)[1]
		}
	}
	enc("encoding/json", "json")
	enc("gopkg.in/yaml.v3", "yaml")
	intrinsics["gopkg.in/yaml.v3.Marshal"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		o, err := w.encode(a[0], "yaml")
		if err != nil {
			return Tuple{Slice{}, w.mkError("yaml: " + err.msg)}
		}
		return Tuple{w.newByteSlice(o), Iface{}}
	}
	dec := func(pkg, fl string) {
		intrinsics[pkg+".NewDecoder"] = func(w *Worker, fi *fnInfo, a []Value) Value {
			p := w.alloc(fi.resT.(*types.Pointer).Elem())
			p.o.host = &sdec{r: a[0].(Iface)}
			return p
		}
		known := func(w *Worker, fi *fnInfo, a []Value) Value {
			on := true
			if len(a) > 1 {
				on = w.decideV(a[1])
			}
			w.resolvePtr(a[0]).o.host.(*sdec).strict = on
			return nil
		}
		intrinsics["(*"+pkg+".Decoder).DisallowUnknownFields"] = known
		intrinsics["(*"+pkg+".Decoder).KnownFields"] = known
		for _, m := range []string{"Token", "Buffered", "InputOffset", "UseNumber"} {
			intrinsics["(*"+pkg+".Decoder)."+m] = func(w *Worker, fi *fnInfo, a []Value) Value {
				w.unsupported(pkg + ".Decoder." + m)
				return nil
			}
		}
		more := func(w *Worker, d *sdec) bool {
			for len(d.buf) > 0 && (isB(d.buf[0], ' ') || isB(d.buf[0], '\n') || isB(d.buf[0], '\r') || isB(d.buf[0], '\t')) {
				d.buf = d.buf[1:]
			}
			return len(d.buf) > 0
		}
		intrinsics["(*"+pkg+".Decoder).More"] = func(w *Worker, fi *fnInfo, a []Value) Value {
			d := w.resolvePtr(a[0]).o.host.(*sdec)
			d.fill(w)
			return more(w, d) && !isB(d.buf[0], ']') && !isB(d.buf[0], '}')
		}
		intrinsics["(*"+pkg+".Decoder).Decode"] = func(w *Worker, fi *fnInfo, a []Value) Value {
			d := w.resolvePtr(a[0]).o.host.(*sdec)
			d.fill(w)
			if d.bad.t != nil {
				return d.bad
			}
			if fl == "yaml" { // one document
				if d.err.t != nil {
					return d.err
				}
				n, err := w.parseJSON(d.buf, fl)
				d.buf = nil
				if err != nil {
					return w.mkError(fl + ": " + err.msg)
				}
				if n == nil {
					return w.ioErr("EOF")
				}
				return w.decodeWith(fl, n, a[1], d.strict)
			}
			if !more(w, d) {
				if d.err.t != nil {
					d.bad = d.err
				} else {
					d.bad = w.ioErr("EOF")
				}
				return d.bad
			}
			n, rest, cut, err := w.parseFirst(d.buf)
			if err != nil {
				switch {
				case cut && d.err.t != nil:
					d.bad = d.err
				case cut:
					d.bad = w.ioErr("ErrUnexpectedEOF")
				default:
					d.bad = w.mkError(err.msg).(Iface)
				}
				return d.bad
			}
			d.buf = rest
			return w.decodeWith(fl, n, a[1], d.strict)
		}
	}
	dec("encoding/json", "json")
	dec("gopkg.in/yaml.v3", "yaml")

	intrinsics["encoding/xml.Unmarshal"] = func(w *Worker, fi *fnInfo, a []Value) (res Value) {
		evs, err := w.parseXML(w.sliceBytes(a[0].(Slice)))
		if err != nil {
			return w.mkError(err.msg)
		}
		ti := a[1].(Iface)
		pt := ti.t.Underlying().(*types.Pointer)
		defer func() {
			if x := recover(); x != nil {
				if e, ok := x.(docErr); ok {
					res = w.mkError(e.msg)
					return
				}
				panic(x)
			}
		}()
		i := 0
		for i < len(evs) && evs[i].kind != 's' {
			i++
		}
		w.xmlInto(w.resolvePtr(ti.v), pt.Elem(), evs, i)
		return Iface{}
	}
	intrinsics["(*encoding/xml.Decoder).Token"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		d := w.resolvePtr(a[0]).o.host.(*xdec)
		if d.pos >= len(d.ev) {
			return Tuple{Iface{}, w.load(w.globalPtr(w.gslot(w.eng.global("io", "EOF"))), w.eng.global("io", "EOF").Type().(*types.Pointer).Elem())}
		}
		e := d.ev[d.pos]
		d.pos++
		switch e.kind {
		case 's':
			return Tuple{w.startElem(e.name), Iface{}}
		case 'e':
			return Tuple{Iface{w.eng.typ("encoding/xml", "EndElement"), Agg{"", e.name}}, Iface{}}
		}
		return Tuple{Iface{w.eng.typ("encoding/xml", "CharData"), w.newByteSlice(e.text)}, Iface{}}
	}
	intrinsics["(*encoding/xml.Decoder).DecodeElement"] = func(w *Worker, fi *fnInfo, a []Value) (res Value) {
		d := w.resolvePtr(a[0]).o.host.(*xdec)
		start := d.pos - 1
		if start < 0 || d.ev[start].kind != 's' {
			w.unsupported("DecodeElement away from its start element")
		}
		ti := a[1].(Iface)
		pt := ti.t.Underlying().(*types.Pointer)
		end := xmlSpan(d.ev, start)
		defer func() {
			if x := recover(); x != nil {
				if e, ok := x.(docErr); ok {
					res = w.mkError(e.msg)
					return
				}
				panic(x)
			}
		}()
		w.xmlInto(w.resolvePtr(ti.v), pt.Elem(), d.ev, start)
		d.pos = end + 1
		return Iface{}
	}
	intrinsics["(*encoding/xml.Decoder).Skip"] = func(w *Worker, fi *fnInfo, a []Value) Value {
		d := w.resolvePtr(a[0]).o.host.(*xdec)
		depth := 0
		for d.pos < len(d.ev) {
			e := d.ev[d.pos]
			d.pos++
			if e.kind == 's' {
				depth++
			} else if e.kind == 'e' {
				if depth == 0 {
					return Iface{}
				}
				depth--
			}
		}
		return Iface{}
	}
}
