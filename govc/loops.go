package main

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mods describes what one iteration of a loop may change.
type mods struct {
	refs   map[string]map[*Term]bool     // component -> objects written (nil: objects not known before the loop)
	comps  map[string]map[string][]*Term // component -> written keys (nil map value: everything)
	all    map[string]bool
	queues map[*Term]bool
	flags  map[string]bool
	phis   map[*ssa.Phi]bool
	esc    map[*Term]bool
	regsSt map[ssa.Value]bool
	owner  bool
	frames map[string]bool
	roots  map[string]map[*Term]bool // local objects written through keys of the loop
}

func keyStr(k []*Term) string {
	s := ""
	for _, t := range k {
		s += fmt.Sprintf("%d,", t.id)
	}
	return s
}

// headerPhis lists the phis of a loop header.
func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

// concerns records an object written in the loop; one not known before it makes any object possible.
func (m *mods) concerns(name string, o *Term, birth0 int) bool {
	if m.refs[name] == nil {
		m.refs[name] = map[*Term]bool{}
	}
	if o != nil && o.birth > birth0 {
		o = nil
	}
	if m.refs[name][o] {
		return false
	}
	m.refs[name][o] = true
	return true
}

// known lists the objects written in the loop, if all of them are known before it.
func (m *mods) known(name string) ([]*Term, bool) {
	if len(m.refs[name]) == 0 || m.refs[name][nil] {
		return nil, false
	}
	r := []*Term{}
	for o := range m.refs[name] {
		r = append(r, o)
	}
	slices.SortFunc(r, func(a, b *Term) int { return a.id - b.id })
	return r, true
}

func (e *Engine) processLoop(st *State, l *Loop) {
	fr := st.top()
	depth := len(st.frames)
	phis := headerPhis(l.header)
	birth0 := e.c.births
	m := &mods{comps: map[string]map[string][]*Term{}, all: map[string]bool{}, queues: map[*Term]bool{}, flags: map[string]bool{}, phis: map[*ssa.Phi]bool{}, esc: map[*Term]bool{}, frames: map[string]bool{}, roots: map[string]map[*Term]bool{}, refs: map[string]map[*Term]bool{}}
	e.loopsSeen++

	havoc := func() *State {
		s := st.clone()
		f := s.top()
		for _, p := range phis {
			if m.phis[p] {
				f.regs[p] = e.freshVal(s, p.Comment, p.Type())
			}
		}
		for a := range m.esc {
			s.escaped[a] = true
		}
		for _, name := range sortedKeys(m.comps) {
			keys := m.comps[name]
			if m.all[name] {
				mark := birth0
				local := map[*Term]bool{}
				_ = local
				// objects of this state that never escaped and whose keys are not written keep their values
				ks := keys
				forget := func(cond func(key []*Term) *Term) { e.havocComp(s, name, cond) }
				if refs, ok := m.known(name); ok {
					forget = func(cond func(key []*Term) *Term) { e.havocObjects(s, name, refs, cond) }
				}
				forget(func(key []*Term) *Term {
					// written through keys not known before the loop: everything but unescaped locals not written
					for _, k := range key {
						if r := rootAllocAny(k); r != nil && r.birth <= mark && !st.escaped[r] && !m.esc[r] && !e.heldByEscaped(st, m, r) {
							if m.roots[name][r] {
								return e.c.True
							}
							for _, wk := range ks {
								for _, w := range wk {
									if rootAllocAny(w) == r {
										return e.c.True
									}
								}
							}
							return e.c.False
						}
					}
					return e.c.True
				})
				continue
			}
			for _, ks := range sortedKeys(keys) {
				key := keys[ks]
				cp := e.comps[name]
				v := e.c.Fresh("lv."+name, cp.sort)
				e.writeComp(s, name, key, v)
			}
		}
		for q := range m.queues {
			if s.queues[q] != nil {
				s.queues[q] = &queue{exact: false, cap: s.queues[q].cap}
			}
		}
		for fl := range m.flags {
			s.flags[fl] = false
		}
		s.tf = nil
		return s
	}

	run := func(s *State, lc *LoopCtx) []*State {
		s.top().loops = append(s.top().loops, lc)
		e.dry++
		ts := e.explore([]*State{s})
		e.dry--
		var r []*State
		for _, t := range ts {
			if t.backOf == lc {
				t.backOf = nil
				r = append(r, t)
			}
		}
		return r
	}

	// ---- phase 0: what changes
	for round := 0; ; round++ {
		if round > 12 || e.failed() && e.dry > 3 {
			e.unsupported(st, "loop analysis did not stabilise")
			return
		}
		s := havoc()
		snap := map[string]*layer{}
		for k, v := range s.heap {
			snap[k] = v
		}
		phi0 := map[*ssa.Phi]Val{}
		for _, p := range phis {
			phi0[p] = s.top().regs[p]
		}
		lq := map[*Term]int{}
		for k, q := range s.queues {
			lq[k] = len(q.vals)
		}
		fl0 := map[string]bool{}
		for k, v := range s.flags {
			fl0[k] = v
		}
		esc0 := map[*Term]bool{}
		for k := range s.escaped {
			esc0[k] = true
		}
		birth := e.c.births
		e.quick++
		backs := run(s, &LoopCtx{l: l, dry: true})
		e.quick--
		changed := false
		for _, b := range backs {
			if len(b.frames) != depth {
				continue
			}
			f := b.top()
			for _, p := range phis {
				if !m.phis[p] && !sameVal(f.regs[p], phi0[p]) {
					m.phis[p] = true
					changed = true
				}
			}
			for name, lay := range b.heap {
				stop := snap[name]
				if stop == nil {
					stop = e.bases[name]
				}
				for x := lay; x != nil && x != stop; x = x.prev {
					switch x.kind {
					case 'b':
						x = nil
					case 'w':
						young := false
						local := false
						for _, k := range x.key {
							if r := rootAllocAny(k); r != nil && r.birth > birth {
								local = true // object of this iteration
							}
							if k.birth > birth0 {
								young = true
							}
						}
						if local && !e.carried(b, phis, x.key) {
							continue
						}
						if m.concerns(name, objectOf(x.key), birth0) {
							changed = true
						}
						if m.comps[name] == nil {
							m.comps[name] = map[string][]*Term{}
							changed = true
						}
						if young {
							if !m.all[name] {
								m.all[name] = true
								changed = true
							}
							for _, k := range x.key {
								if r := rootAllocAny(k); r != nil && !m.roots[name][r] {
									if m.roots[name] == nil {
										m.roots[name] = map[*Term]bool{}
									}
									m.roots[name][r] = true
									changed = true
								}
							}
						} else if _, ok := m.comps[name][keyStr(x.key)]; !ok {
							m.comps[name][keyStr(x.key)] = x.key
							changed = true
						}
					default:
						if x.refs != nil {
							mine := true
							for _, r := range x.refs {
								if r.op != "alloc" || r.birth <= birth {
									mine = false
									if m.concerns(name, r, birth0) {
										changed = true
									}
								}
							}
							if mine {
								continue // objects of this iteration
							}
						} else if m.concerns(name, nil, birth0) {
							changed = true
						}
						if m.comps[name] == nil {
							m.comps[name] = map[string][]*Term{}
						}
						if !m.all[name] {
							m.all[name] = true
							changed = true
						}
					}
					if x == nil {
						break
					}
				}
			}
			for k, q := range b.queues {
				if n, ok := lq[k]; ok && !m.queues[k] && (len(q.vals) != n) {
					m.queues[k] = true
					changed = true
				}
			}
			for k, v := range b.flags {
				if fl0[k] != v && !m.flags[k] && v {
					m.flags[k] = true
				}
			}
			for a := range b.escaped {
				if !esc0[a] && a.birth <= birth && !m.esc[a] {
					m.esc[a] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}

	entryLocks := map[*Term]*lockInfo{}
	for p, li := range st.locks {
		x := *li
		entryLocks[p] = &x
	}
	finish := func(cands []*cand) {
		s := havoc()
		e.knowAll(s, cands)
		if s.dead {
			return
		}
		lc := &LoopCtx{l: l}
		lc.final = func(b *State) {
			// candidates were shown inductive; recheck as obligations of this run
			if e.dry > 0 {
				return
			}
			for p, li := range b.locks {
				if x := entryLocks[p]; x == nil || x.mode != li.mode || x.n != li.n {
					n, _ := lockName(p)
					e.violateLock(b, "locks-released", "an iteration of the loop at "+e.pos(l.header.Instrs[0].Pos())+" ends with "+n+" held")
				}
			}
			for p := range entryLocks {
				if b.locks[p] == nil {
					n, _ := lockName(p)
					e.violateLock(b, "locks-released", "an iteration of the loop at "+e.pos(l.header.Instrs[0].Pos())+" ends with "+n+" no longer held")
				}
			}
			for _, c := range cands {
				if t := c.eval(b); t != nil {
					e.stats.Inv++
				}
			}
		}
		s.top().loops = append(s.top().loops, lc)
		s.note("%s: loop (%d invariants)", e.pos(l.header.Instrs[0].Pos()), len(cands))
		e.push(s)
	}
	if e.quick > 0 {
		finish(nil)
		return
	}

	// ---- phase 1: Houdini
	cands := e.candidates(st, l, m, phis)
	var kept []*cand
	for _, c := range cands {
		t := c.eval(st)
		if t == nil {
			continue
		}
		if t == e.c.True || e.valid(st, t) {
			kept = append(kept, c)
		} else if d := os.Getenv("GOVC_DROP"); d != "" && strings.HasPrefix(c.name, d) {
			e.dbg("not at entry %s at %s: %v", c.name, fr.fn.Name(), t)
		}
	}
	cands = kept
	for round := 0; len(cands) > 0; round++ {
		s := havoc()
		e.knowAll(s, cands)
		if s.dead {
			break
		}
		backs := run(s, &LoopCtx{l: l, dry: true})
		var next []*cand
		for _, c := range cands {
			ok := true
			for _, b := range backs {
				t := c.eval(b)
				if t == nil || t != e.c.True && !e.valid(b, t) {
					ok = false
					if e.debug > 1 {
						e.dbg("drop %s at %s: %v", c.name, fr.fn.Name(), t)
						if d := os.Getenv("GOVC_DROP"); d != "" && strings.HasPrefix(c.name, d) && t != nil {
							_ = os.WriteFile("/tmp/drop.smt2", []byte(e.s.Script(b.facts, e.c.Not(t), true)), 0o644)
							for _, f := range b.facts {
								e.dbg("   drop fact %v", f)
							}
							for _, n := range b.traceList() {
								e.dbg("   drop trace %s", n)
							}
						}
					}
					break
				}
			}
			if ok {
				next = append(next, c)
			}
		}
		if len(next) == len(cands) {
			e.stats.Vcs += len(cands) * len(backs)
			e.stats.Discharged += len(cands) * len(backs)
			break
		}
		cands = next
		if e.expired() {
			e.fail("time budget exceeded")
			return
		}
	}
	if e.debug > 0 {
		var ns []string
		for _, c := range cands {
			ns = append(ns, c.name)
		}
		e.dbg("loop %s: %d invariants: %s", fr.fn.Name(), len(cands), strings.Join(ns, "; "))
	}
	finish(cands)
}

func (e *Engine) heldByEscaped(st *State, m *mods, r *Term) bool {
	for h := st.holds; h != nil; h = h.prev {
		if h.obj == r && (st.escaped[h.in] || m.esc[h.in]) {
			return true
		}
	}
	return false
}

// carried reports whether an object of the iteration is reachable from a header phi.
func (e *Engine) carried(b *State, phis []*ssa.Phi, key []*Term) bool {
	return false
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// valid: facts ⊢ t, quickly.
func (e *Engine) valid(st *State, t *Term) bool {
	t = st.known(e, t)
	if t == e.c.True {
		return true
	}
	if t == e.c.False {
		return e.s.Check(st.facts, nil, e.feasTO) == "unsat"
	}
	return e.s.Check(st.facts, e.c.Not(t), e.invTO) == "unsat"
}

type cand struct {
	name string
	eval func(s *State) *Term
	// a universally quantified invariant: eval speaks about the index *idx of slices with elements of type elem
	idx  *Term
	elem types.Type
}

// quant is an invariant that holds for every index; it is instantiated where an element is accessed.
type quant struct {
	c  *cand
	at *State
}

// knowAll assumes the candidates in s and remembers those that are quantified.
func (e *Engine) knowAll(s *State, cands []*cand) {
	for _, c := range cands {
		if t := c.eval(s); t != nil {
			s.assume(e, t)
		}
	}
	for _, c := range cands {
		if c.elem != nil && !s.dead {
			s.quants = append(s.quants[:len(s.quants):len(s.quants)], quant{c, s.clone()})
		}
	}
}

// instantiate uses the quantified invariants for the element at index k.
func (e *Engine) instantiate(st *State, elem types.Type, k *Term) {
	if e.noSolve {
		return
	}
	for _, q := range st.quants {
		if types.Identical(q.c.elem, elem) {
			old := q.c.idx
			q.c.idx = k
			t := q.c.eval(q.at)
			q.c.idx = old
			if t != nil {
				st.assume(e, t)
			}
		}
	}
}

// candidates proposes loop invariants at a header state.
func (e *Engine) candidates(st *State, l *Loop, m *mods, phis []*ssa.Phi) []*cand {
	c := e.c
	var r []*cand
	depth := len(st.frames)
	fn := st.top().fn
	add := func(name string, f func(s *State) *Term) { r = append(r, &cand{name: name, eval: f}) }
	reg := func(s *State, v ssa.Value) Val {
		if len(s.frames) != depth {
			return nil
		}
		f := s.top()
		if f.fn != fn {
			return nil
		}
		return f.regs[v]
	}
	type lv struct {
		name string
		t    types.Type
		get  func(s *State) Val
		mod  bool
	}
	var ints, bounds, all []lv
	for _, p := range phis {
		p := p
		if !m.phis[p] {
			continue
		}
		v0 := st.top().regs[p]
		x := lv{p.Name() + "(" + p.Comment + ")", p.Type(), func(s *State) Val { return reg(s, p) }, true}
		all = append(all, x)
		lay := e.layout(p.Type())
		for k := range lay {
			k := k
			add(fmt.Sprintf("%s#%d unchanged", x.name, k), func(s *State) *Term {
				v := reg(s, p)
				if v == nil || k >= len(v) {
					return nil
				}
				return c.Eq(v[k], v0[k])
			})
		}
		if len(lay) == 1 && lay[0] == "Int" {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, x)
				add(x.name+">=entry", func(s *State) *Term {
					if v := reg(s, p); v != nil {
						return c.Le(v0[0], v[0])
					}
					return nil
				})
				add(x.name+"<=entry", func(s *State) *Term {
					if v := reg(s, p); v != nil {
						return c.Le(v[0], v0[0])
					}
					return nil
				})
				add(x.name+">=0", func(s *State) *Term {
					if v := reg(s, p); v != nil {
						return c.Le(c.Int(0), v[0])
					}
					return nil
				})
				add(x.name+">=-1", func(s *State) *Term {
					if v := reg(s, p); v != nil {
						return c.Le(c.Int(-1), v[0])
					}
					return nil
				})
			}
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				add(x.name+"!=nil", func(s *State) *Term {
					if v := reg(s, p); v != nil {
						return c.Not(c.Eq(v[0], c.Int(0)))
					}
					return nil
				})
			}
		}
		if len(lay) == 1 && lay[0] == "Any" {
			add(x.name+"==nil", func(s *State) *Term {
				if v := reg(s, p); v != nil {
					return c.IsNil(v[0])
				}
				return nil
			})
		}
		if len(lay) == 4 {
			ints = append(ints, lv{"len(" + x.name + ")", types.Typ[types.Int], func(s *State) Val {
				if v := reg(s, p); v != nil {
					return Val{v[2]}
				}
				return nil
			}, true})
			// a slice built here does not share its elements with those known before
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && (v0[0].isInt(0) || rootAlloc(v0[0]) != nil) {
				for _, a := range e.knownArrays(st, sl.Elem()) {
					a := a
					add("separate("+x.name+","+a.String()+")", func(s *State) *Term {
						if v := reg(s, p); v != nil {
							return c.Or(c.And(c.Eq(v[0], c.Int(0)), c.Eq(v[3], c.Int(0))), c.Not(c.Eq(v[0], a)))
						}
						return nil
					})
				}
			}
			add("off("+x.name+")==0", func(s *State) *Term {
				if v := reg(s, p); v != nil {
					return c.Eq(v[1], c.Int(0))
				}
				return nil
			})
		}
	}
	// cells written in the loop at keys known before it
	for _, name := range sortedKeys(m.comps) {
		name := name
		cp := e.comps[name]
		if cp == nil || strings.HasPrefix(name, "iter:") {
			continue
		}
		keys := m.comps[name]
		for _, ks := range sortedKeys(keys) {
			key := keys[ks]
			rd := func(s *State) *Term { return e.readComp(s, name, key, cp.sort) }
			v0 := rd(st)
			nm := name + "[" + (&Term{op: "k", args: key}).String() + "]"
			add(nm+" unchanged", func(s *State) *Term { return c.Eq(rd(s), v0) })
			if cp.sort == "Int" {
				add(nm+">=entry", func(s *State) *Term { return c.Le(v0, rd(s)) })
				add(nm+">=0", func(s *State) *Term { return c.Le(c.Int(0), rd(s)) })
				if strings.HasPrefix(name, "c:") || strings.HasPrefix(name, "g:") || strings.HasPrefix(name, "f:") {
					ints = append(ints, lv{nm, types.Typ[types.Int], func(s *State) Val { return Val{rd(s)} }, true})
				}
			}
			if cp.sort == "Bool" {
				add(nm+" false", func(s *State) *Term { return c.Not(rd(s)) })
			}
			if cp.sort == "Any" {
				add(nm+" nil", func(s *State) *Term { return c.IsNil(rd(s)) })
			}
			if cp.sort == "Bool" && v0 == c.False {
				add(nm+" monotone", func(s *State) *Term { return c.Imp(v0, rd(s)) })
			}
		}
		// framing of whole-component havoc at rigid keys
		for _, rg := range e.rigids {
			for _, k := range e.rigidKeys(st, name, cp, rg) {
				k := k
				v0 := e.readComp(st, name, k, cp.sort)
				add(name+" at rigid unchanged", func(s *State) *Term { return c.Eq(e.readComp(s, name, k, cp.sort), v0) })
			}
		}
	}
	// elements of the callers' slices at rigid indices
	for _, rg := range e.rigids {
		if b, ok := rg.t.Underlying().(*types.Basic); !ok || b.Kind() != types.Int || len(rg.v) != 1 {
			continue
		}
		done := map[*Term]bool{}
		for _, f := range st.frames[:len(st.frames)-1] {
			for v, x := range f.regs {
				sl, ok := v.Type().Underlying().(*types.Slice)
				if !ok || len(x) != 4 || x[0].isInt(0) || done[x[0]] {
					continue
				}
				name := "e:" + e.cellKey(sl.Elem())
				hit := false
				for _, n := range sortedKeys(m.all) {
					hit = hit || m.all[n] && (n == name || strings.HasPrefix(n, name+"#"))
				}
				if !hit {
					continue
				}
				done[x[0]] = true
				p := eaTerm(e, x[0], c.Add(rg.v[0], x[1]))
				v0 := e.load(st, p, sl.Elem())
				add("element of "+v.Name()+" at rigid unchanged", func(s *State) *Term {
					t := c.True
					for i, y := range e.load(s, p, sl.Elem()) {
						t = c.And(t, c.Eq(y, v0[i]))
					}
					return t
				})
			}
		}
	}
	// upper bounds: lengths and ints that do not change
	seen := map[*Term]bool{}
	addBound := func(name string, t *Term) {
		if t.sort == "Int" && !seen[t] && !(t.op == "int" && !t.isInt(0)) {
			seen[t] = true
			bounds = append(bounds, lv{name, types.Typ[types.Int], func(s *State) Val { return Val{t} }, false})
		}
	}
	for v, x := range st.top().regs {
		if p, ok := v.(*ssa.Phi); ok && m.phis[p] {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Slice:
			if len(x) == 4 {
				addBound("len("+v.Name()+")", x[2])
			}
		case *types.Basic:
			if len(x) == 1 && x[0].sort == "Int" && usedInLoop(v, l) {
				addBound(v.Name(), x[0])
			}
			if len(x) == 1 && x[0].sort == "String" && usedInLoop(v, l) {
				addBound("len("+v.Name()+")", c.Len(x[0]))
			}
		}
	}
	if len(bounds) > 14 {
		bounds = bounds[:14]
	}
	for _, x := range ints {
		for _, b := range bounds {
			x, b := x, b
			add(x.name+"<="+b.name, func(s *State) *Term {
				v, w := x.get(s), b.get(s)
				if v == nil || w == nil {
					return nil
				}
				return c.Le(v[0], w[0])
			})
			add(x.name+"<"+b.name, func(s *State) *Term {
				v, w := x.get(s), b.get(s)
				if v == nil || w == nil {
					return nil
				}
				return c.Lt(v[0], w[0])
			})
		}
	}
	// relations between changing ints: difference constant
	if len(ints) <= 10 {
		for a := range ints {
			for b := a + 1; b < len(ints); b++ {
				x, y := ints[a], ints[b]
				vx, vy := x.get(st), y.get(st)
				if vx == nil || vy == nil {
					continue
				}
				d := c.Sub(vx[0], vy[0])
				add(x.name+"-"+y.name+" const", func(s *State) *Term {
					v, w := x.get(s), y.get(s)
					if v == nil || w == nil {
						return nil
					}
					return c.Eq(c.Sub(v[0], w[0]), d)
				})
				for _, z := range [][2]lv{{x, y}, {y, x}} {
					z := z
					// an index starts one below the values it is compared with
					add(z[0].name+"<="+z[1].name+"+1", func(s *State) *Term {
						v, w := z[0].get(s), z[1].get(s)
						if v == nil || w == nil {
							return nil
						}
						return c.Le(v[0], c.Add(w[0], c.Int(1)))
					})
				}
				add(x.name+"<="+y.name, func(s *State) *Term {
					v, w := x.get(s), y.get(s)
					if v == nil || w == nil {
						return nil
					}
					return c.Le(v[0], w[0])
				})
				add(y.name+"<="+x.name, func(s *State) *Term {
					v, w := x.get(s), y.get(s)
					if v == nil || w == nil {
						return nil
					}
					return c.Le(w[0], v[0])
				})
			}
		}
	}
	// contract-supplied invariants over ghost state and typed live values
	for _, inv := range e.invs {
		e.invCands(st, l, m, phis, inv, depth, fn, &r)
	}
	return r
}

func usedInLoop(v ssa.Value, l *Loop) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if l.body[r.Block()] {
			return true
		}
	}
	return false
}

// rigidKeys builds the keys of a component at which a rigid constant is of interest.
func (e *Engine) rigidKeys(st *State, name string, cp *comp, rg rigid) [][]*Term {
	var r [][]*Term
	if len(cp.ksort) == 1+len(rg.v) && strings.HasPrefix(name, "m:") {
		for i := range rg.v {
			if cp.ksort[1+i] != rg.v[i].sort {
				return nil
			}
		}
		seen := map[*Term]bool{}
		for x := st.heap[name]; x != nil; x = x.prev {
			if x.kind == 'w' && !seen[x.key[0]] {
				seen[x.key[0]] = true
				r = append(r, append([]*Term{x.key[0]}, rg.v...))
			}
		}
		for _, mr := range e.mapRefs {
			if !seen[mr] {
				seen[mr] = true
				r = append(r, append([]*Term{mr}, rg.v...))
			}
		}
	}
	if strings.HasPrefix(name, "gv:") && len(cp.ksort) == len(rg.v) {
		ok := true
		for i := range rg.v {
			if cp.ksort[i] != rg.v[i].sort {
				ok = false
			}
		}
		if ok {
			r = append(r, rg.v)
		}
		if len(cp.ksort) == 1 && cp.ksort[0] == "Any" {
			r = append(r, []*Term{e.c.Box(typeKey(rg.t), rg.v...)})
		}
	}
	return r
}

func (e *Engine) invCands(st *State, l *Loop, m *mods, phis []*ssa.Phi, inv *ssa.Function, depth int, fn *ssa.Function, out *[]*cand) {
	// parameters are metavariables over live values of identical type
	type opt struct {
		name string
		get  func(s *State) Val
	}
	var opts [][]opt
	quantified := false
	n := 1
	q := e.c.Fresh("every", "Int")
	var cur *cand
	var elem types.Type
	for _, p := range inv.Params {
		var os []opt
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			elem = sl.Elem()
		}
		if strings.HasPrefix(p.Name(), "every") {
			quantified = true
			opts = append(opts, []opt{{"every", func(s *State) Val { return Val{cur.idx} }}})
			continue
		}
		for _, ph := range phis {
			if types.Identical(ph.Type(), p.Type()) {
				ph := ph
				os = append(os, opt{ph.Name() + "/" + ph.Comment, func(s *State) Val {
					if len(s.frames) != depth || s.top().fn != fn {
						return nil
					}
					return s.top().regs[ph]
				}})
			}
		}
		// other frame values and cells of that type
		for v, x := range st.top().regs {
			switch v := v.(type) {
			case *ssa.Phi:
				if slices.Contains(phis, v) || l.body[v.Block()] {
					continue
				}
			case *ssa.Range, *ssa.Next:
				continue
			}
			if types.Identical(v.Type(), p.Type()) && usedInLoop(v, l) {
				x := x
				os = append(os, opt{v.Name(), func(s *State) Val { return x }})
			}
			if a, ok := v.(*ssa.Alloc); ok {
				et := a.Type().Underlying().(*types.Pointer).Elem()
				if types.Identical(et, p.Type()) {
					x := x
					os = append(os, opt{"*" + v.Name(), func(s *State) Val {
						if s.heap == nil {
							return nil
						}
						return e.load(s, x[0], et)
					}})
				}
			}
		}
		for k, fv := range st.top().fn.FreeVars {
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && k < len(st.top().free) {
				x := st.top().free[k]
				et := pt.Elem()
				if types.Identical(et, p.Type()) {
					os = append(os, opt{"*" + fv.Name(), func(s *State) Val { return e.load(s, x[0], et) }})
				}
			}
			if types.Identical(fv.Type(), p.Type()) && k < len(st.top().free) {
				x := st.top().free[k]
				os = append(os, opt{fv.Name(), func(s *State) Val { return x }})
			}
		}
		opts = append(opts, os)
		n *= len(os)
	}
	if n == 0 || n > 200 {
		return
	}
	idx := make([]int, len(opts))
	for {
		sel := make([]opt, len(opts))
		nm := inv.Name()
		for i := range opts {
			sel[i] = opts[i][idx[i]]
			nm += " " + sel[i].name
		}
		cd := &cand{name: nm}
		if quantified {
			cd.idx, cd.elem = q, elem
		}
		cd.eval = func(s *State) *Term {
			cur = cd
			var args []Val
			for _, o := range sel {
				v := o.get(s)
				if v == nil {
					return nil
				}
				args = append(args, v)
			}
			return e.evalPure(s, inv, args)
		}
		*out = append(*out, cd)
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
}

// evalPure evaluates a boolean function of the overlay in a state, as one formula.
func (e *Engine) evalPure(st *State, fn *ssa.Function, args []Val) *Term {
	s := st.clone()
	s.frames = nil
	s.flags["panics"] = false
	base := len(s.facts)
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	s.frames = []*Frame{f}
	e.dry++
	ns := e.noSolve
	e.noSolve = true
	outs := e.explore([]*State{s})
	e.noSolve = ns
	e.dry--
	res := e.c.False
	for _, o := range outs {
		if !o.ret || len(o.result) == 0 {
			continue
		}
		r := o.result[0]
		for _, x := range o.facts[base:] {
			r = e.c.And(x, r)
		}
		res = e.c.Or(res, r)
	}
	return res
}

// knownArrays lists the arrays of the slices with this element type in the registers.
func (e *Engine) knownArrays(st *State, et types.Type) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var visit func(t types.Type, v Val)
	visit = func(t types.Type, v Val) {
		if t == nil || len(v) == 0 {
			return
		}
		if s := expandStruct(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				n := len(e.layout(s.Field(i).Type()))
				if n > len(v) {
					return
				}
				visit(s.Field(i).Type(), v[:n])
				v = v[n:]
			}
			return
		}
		if s, ok := t.Underlying().(*types.Slice); ok && len(v) == 4 && typeKey(s.Elem()) == typeKey(et) {
			if a := v[0]; rootAlloc(a) == nil && !a.isInt(0) && !seen[a] {
				seen[a] = true
				r = append(r, a)
			}
		}
	}
	for _, f := range st.frames {
		for x, v := range f.regs {
			visit(x.Type(), v)
		}
	}
	slices.SortFunc(r, func(a, b *Term) int { return a.id - b.id })
	return r
}
