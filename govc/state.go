package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FnVal struct {
	fn    *ssa.Function
	bind  []Val
	bi    *ssa.Builtin
	bound *types.Func // interface bound method: receiver in bind[0]
	recvT types.Type
	intr  func(e *Engine, st *State, args []Val, ret func(st *State, v Val))
}

type deferred struct {
	call *ssa.CallCommon
	fv   *FnVal
	fnT  *Term
	args []Val
	inv  *types.Func
}

type LoopCtx struct {
	l     *Loop
	dry   bool
	final func(st *State) // invariant check at the back edge
	from  *State
}

type Frame struct {
	fn      *ssa.Function
	regs    map[ssa.Value]Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	panicV  *Term
	panick  bool
	recov   bool
	loops   []*LoopCtx
	onRet   func(st *State, v Val)
	free    []Val
	isDefer bool // called by a defer of the frame below
	results Val
	retting bool
	late    bool
	args    []Val
}

type lockInfo struct {
	mode byte // 'w' or number of readers 'r'
	n    int
	id   int               // of the acquisition
	heap map[string]*layer // snapshot at acquisition
}

// loadedIn tells the field and the acquisition of its lock (0: not held for writing) a reference was loaded in.
type loadedIn struct {
	field string
	id    int
}

type queue struct {
	vals   []Val
	exact  bool
	closed bool
	cap    *Term
}

type goPending struct {
	frame *Frame
}

type trace struct {
	s    string
	prev *trace
}

type State struct {
	facts   []*Term
	factSet map[*Term]bool
	heap    map[string]*layer
	frames  []*Frame
	locks   map[*Term]*lockInfo
	escaped map[*Term]bool
	holds   *holdNode
	tf      *tfNode
	queues  map[*Term]*queue
	owner   map[*Term]*Term    // guarded map/slice reference -> lock pointer
	ownerIn map[*Term]loadedIn // where it was loaded
	tr      *trace
	pending []*Frame
	marks   []int
	iters   map[*Term]*iter
	flags   map[string]bool
	quants  []quant

	dead   bool
	ret    bool
	result Val
	panick bool
	panicV *Term
	backOf *LoopCtx
	spawn  string
}

type iter struct {
	mt   types.Type
	m    *Term
	it   *Term // iterator identity
	kind string
	heap map[string]*layer
}

func (st *State) hasTF(k string) bool {
	for n := st.tf; n != nil; n = n.prev {
		if n.k == k {
			return true
		}
	}
	return false
}

func (st *State) clone() *State {
	n := *st
	n.facts = st.facts[:len(st.facts):len(st.facts)]
	n.factSet = make(map[*Term]bool, len(st.factSet)+8)
	for k, v := range st.factSet {
		n.factSet[k] = v
	}
	n.heap = make(map[string]*layer, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.locks = make(map[*Term]*lockInfo, len(st.locks))
	for k, v := range st.locks {
		x := *v
		n.locks[k] = &x
	}
	n.escaped = make(map[*Term]bool, len(st.escaped))
	for k, v := range st.escaped {
		n.escaped[k] = v
	}
	n.queues = make(map[*Term]*queue, len(st.queues))
	for k, v := range st.queues {
		x := *v
		x.vals = append([]Val{}, v.vals...)
		n.queues[k] = &x
	}
	n.ownerIn = make(map[*Term]loadedIn, len(st.ownerIn))
	for k, v := range st.ownerIn {
		n.ownerIn[k] = v
	}
	n.owner = make(map[*Term]*Term, len(st.owner))
	for k, v := range st.owner {
		n.owner[k] = v
	}
	n.iters = make(map[*Term]*iter, len(st.iters))
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.flags = make(map[string]bool, len(st.flags))
	for k, v := range st.flags {
		n.flags[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.pending = append([]*Frame{}, st.pending...)
	return &n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = append([]*LoopCtx{}, f.loops...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(e *Engine, t *Term) {
	switch t.op {
	case "true":
		return
	case "false":
		st.dead = true
		return
	case "and":
		for _, a := range t.args {
			st.assume(e, a)
		}
		return
	}
	if st.factSet[t] {
		return
	}
	if st.factSet[e.c.Not(t)] {
		st.dead = true
		return
	}
	st.factSet[t] = true
	st.facts = append(st.facts, t)
	// bound equalities give a cheap congruence on constants
}

// known simplifies a condition against the facts syntactically.
func (st *State) known(e *Engine, t *Term) *Term {
	if t.isConst() {
		return t
	}
	if st.factSet[t] {
		return e.c.True
	}
	if st.factSet[e.c.Not(t)] {
		return e.c.False
	}
	switch t.op {
	case "not":
		return e.c.Not(st.known(e, t.args[0]))
	case "and":
		var as []*Term
		for _, a := range t.args {
			k := st.known(e, a)
			if k == e.c.False {
				return k
			}
			as = append(as, k)
		}
		return e.c.And(as...)
	case "=":
		for i := 0; i < 2; i++ {
			x, y := t.args[i], t.args[1-i]
			if x.op == "alloc" && !st.escaped[x] && y.op == "app" && strings.HasPrefix(y.name, "h.") {
				return e.c.False
			}
		}
	}
	return t
}

// apart uses only that what did not escape is not found in havocked memory.
func (st *State) apart(e *Engine, t *Term) *Term {
	switch t.op {
	case "not":
		return e.c.Not(st.apart(e, t.args[0]))
	case "and":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = st.apart(e, a)
			if as[i] == e.c.False {
				return e.c.False
			}
		}
		return e.c.And(as...)
	case "=":
		for i := 0; i < 2; i++ {
			x, y := t.args[i], t.args[1-i]
			if x.op == "alloc" && !st.escaped[x] {
				return st.meets(e, x, y, t)
			}
		}
	}
	return t
}

// meets is x = y for a local object x; t is what it is if nothing better is known
func (st *State) meets(e *Engine, x, y, t *Term) *Term {
	switch {
	case y.op == "app" && strings.HasPrefix(y.name, "h."):
		return e.c.False
	case y.op == "ite":
		return e.c.Ite(y.args[0], st.meets(e, x, y.args[1], nil), st.meets(e, x, y.args[2], nil))
	}
	if t == nil {
		t = e.c.Eq(x, y)
	}
	return t
}

func (st *State) note(f string, a ...any) {
	st.tr = &trace{fmt.Sprintf(f, a...), st.tr}
}

func (st *State) traceList() []string {
	var r []string
	for t := st.tr; t != nil; t = t.prev {
		r = append(r, t.s)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------- loops ----------

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				// nodes reaching b without passing s
				var st []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = r
	return r
}
