package main

// A small vector-clock race detector over heap cells and maps, used by the
// concurrency harnesses.

type raceState struct {
	clocks map[int][]int
	sync   map[any][]int
	cells  map[cellKey]*access
	maps   map[*MapObj]*access
	found  map[string]bool
}
type cellKey struct {
	o   *Obj
	off int
}
type access struct {
	wg, wc int // last writer goroutine and its clock
	reads  map[int]int
	where  string
}

func newRace() *raceState {
	return &raceState{clocks: map[int][]int{0: {1}}, sync: map[any][]int{}, cells: map[cellKey]*access{}, maps: map[*MapObj]*access{}, found: map[string]bool{}}
}

func at(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func joinVC(a, b []int) []int {
	out := append([]int(nil), a...)
	for i, x := range b {
		for len(out) <= i {
			out = append(out, 0)
		}
		if x > out[i] {
			out[i] = x
		}
	}
	return out
}
func (r *raceState) tick(g *gor) {
	c := append([]int(nil), r.clocks[g.id]...)
	for len(c) <= g.id {
		c = append(c, 0)
	}
	c[g.id]++
	r.clocks[g.id] = c
}
func (r *raceState) fork(p, c *gor) {
	v := append([]int(nil), r.clocks[p.id]...)
	for len(v) <= c.id {
		v = append(v, 0)
	}
	v[c.id] = 1
	r.clocks[c.id] = v
	r.tick(p)
}
func (r *raceState) release(g *gor, k any) {
	r.sync[k] = joinVC(r.sync[k], r.clocks[g.id])
	r.tick(g)
}
func (r *raceState) acquire(g *gor, k any) {
	r.clocks[g.id] = joinVC(r.clocks[g.id], r.sync[k])
}

func (r *raceState) report(w *Worker, what, other string) {
	key := w.where() + " / " + other
	if r.found[key] {
		return
	}
	r.found[key] = true
	w.candidate("race", "data race ("+what+") between "+w.where()+" and "+other, w.where(), w.model)
}

func (r *raceState) wr(w *Worker, a *access, what string) {
	g := w.cur.id
	vc := r.clocks[g]
	if a.wc > 0 && a.wg != g && at(vc, a.wg) < a.wc {
		r.report(w, what, a.where)
	}
	for rg, rc := range a.reads {
		if rg != g && at(vc, rg) < rc {
			r.report(w, what, a.where)
		}
	}
	a.wg, a.wc = g, at(vc, g)
	a.reads = nil
	a.where = w.where()
}
func (r *raceState) rd(w *Worker, a *access, what string) {
	g := w.cur.id
	vc := r.clocks[g]
	if a.wc > 0 && a.wg != g && at(vc, a.wg) < a.wc {
		r.report(w, what, a.where)
	}
	if a.reads == nil {
		a.reads = map[int]int{}
	}
	a.reads[g] = at(vc, g)
	if a.where == "" {
		a.where = w.where()
	}
}

func (r *raceState) write(w *Worker, o *Obj, off int) {
	if len(w.gors) <= 1 || w.inModel() {
		return
	}
	k := cellKey{o, off}
	a := r.cells[k]
	if a == nil {
		a = &access{}
		r.cells[k] = a
	}
	r.wr(w, a, "write")
}
func (r *raceState) mapWrite(w *Worker, m *MapObj) {
	if len(w.gors) <= 1 || w.inModel() {
		return
	}
	a := r.maps[m]
	if a == nil {
		a = &access{}
		r.maps[m] = a
	}
	r.wr(w, a, "map write")
}
func (r *raceState) mapRead(w *Worker, m *MapObj) {
	if len(w.gors) <= 1 || w.inModel() {
		return
	}
	a := r.maps[m]
	if a == nil {
		a = &access{}
		r.maps[m] = a
	}
	r.rd(w, a, "map read")
}
func (w *Worker) raceRead(p Value) {
	q, ok := p.(Ptr)
	if !ok || q.o == nil || len(w.gors) <= 1 || w.inModel() {
		return
	}
	k := cellKey{q.o, q.off}
	a := w.race.cells[k]
	if a == nil {
		a = &access{}
		w.race.cells[k] = a
	}
	w.race.rd(w, a, "read")
}

// inModel: accesses made by harness/model code are not the target's races.
func (w *Worker) inModel() bool {
	fr := w.cur.fr
	return fr == nil || fr.fi.model || w.inInit
}
