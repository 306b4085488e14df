package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Term is a hash-consed first-order term. Sorts: Int, Bool, String, Any, F64.
type Term struct {
	op    string // int str true false var app + - * div mod < <= = not and or ite s.* box alloc
	args  []*Term
	sort  string
	name  string // var/app/box name, string constant
	ival  *big.Int
	id    int
	birth int // the youngest symbol in the term
	size  int
}

type Ctx struct {
	tab    map[string]*Term
	n      int
	births int // global birth counter
	funs   map[string]*FunDecl
	tids   map[string]int
	tlist  []string
	defax  []*Term // axioms
	axseen map[string]bool
	True   *Term
	False  *Term
	fresh  map[string]int
	boxes  map[string]*BoxDecl
}

type FunDecl struct {
	name  string
	args  []string
	sort  string
	birth int
}

type BoxDecl struct {
	name  string
	sorts []string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]*FunDecl{}, tids: map[string]int{}, axseen: map[string]bool{}, fresh: map[string]int{}, boxes: map[string]*BoxDecl{}}
	c.True = c.mk("true", "Bool", "", nil)
	c.False = c.mk("false", "Bool", "", nil)
	return c
}

func (c *Ctx) mk(op, sort, name string, ival *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	sb.WriteByte('|')
	sb.WriteString(name)
	if ival != nil {
		sb.WriteByte('#')
		sb.WriteString(ival.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, sort: sort, name: name, ival: ival, args: args, id: c.n, size: 1}
	for _, a := range args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	switch op {
	case "var", "alloc":
		c.births++
		t.birth = c.births
	case "app":
		if f := c.funs[name]; f != nil && f.birth > t.birth {
			t.birth = f.birth
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(n int64) *Term       { return c.mk("int", "Int", "", big.NewInt(n)) }
func (c *Ctx) BigInt(n *big.Int) *Term { return c.mk("int", "Int", "", n) }
func (c *Ctx) Str(s string) *Term      { return c.mk("str", "String", s, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Fresh makes a new symbolic constant.
func (c *Ctx) Fresh(hint, sort string) *Term {
	hint = sanitize(hint)
	c.fresh[hint]++
	return c.mk("var", sort, fmt.Sprintf("%s!%d", hint, c.fresh[hint]), nil)
}

// Alloc makes the reference of a new object.
func (c *Ctx) Alloc(hint string) *Term {
	c.fresh["alloc"]++
	n := c.fresh["alloc"]
	return c.mk("alloc", "Int", fmt.Sprintf("%s@%d", sanitize(hint), n), big.NewInt(int64(1000000000+n)))
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// App applies an uninterpreted function.
func (c *Ctx) App(name, sort string, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := c.funs[name]; !ok {
		f := &FunDecl{name: name, sort: sort}
		for _, a := range args {
			f.args = append(f.args, a.sort)
		}
		c.funs[name] = f
	} else {
		f := c.funs[name]
		if len(f.args) != len(args) || f.sort != sort {
			return c.App(fmt.Sprintf("%s.%s.%d", name, sort, len(args)), sort, args...)
		}
		for i := range args {
			if f.args[i] != args[i].sort {
				s := name
				for _, a := range args {
					s += "." + a.sort
				}
				if s == name+"."+strings.Join(f.args, ".") {
					panic("bad sorts for " + name)
				}
				return c.App(s, sort, args...)
			}
		}
	}
	return c.mk("app", sort, name, nil, args...)
}

// FreshFun declares a new uninterpreted function with a new birth.
func (c *Ctx) FreshFun(hint string, args []string, sort string) string {
	c.fresh[hint]++
	name := sanitize(fmt.Sprintf("%s_%d", hint, c.fresh[hint]))
	c.births++
	c.funs[name] = &FunDecl{name: name, args: args, sort: sort, birth: c.births}
	return name
}

func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}
func (t *Term) isInt(n int64) bool {
	return t.op == "int" && t.ival.IsInt64() && t.ival.Int64() == n
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	}
	return c.mk("not", "Bool", "", nil, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "Bool", "", nil, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = c.Not(a)
	}
	return c.Not(c.And(n...))
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if a.sort == "Bool" {
		if a == c.True {
			return c.Or(k, b)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
		if b == c.False {
			return c.And(k, a)
		}
	}
	if b.op == "ite" && b.args[0] == k {
		b = b.args[2]
	}
	if a.op == "ite" && a.args[0] == k {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return c.mk("ite", a.sort, "", nil, k, a, b)
}

// isFA reports an interior pointer term.
func isIP(t *Term) bool {
	return t.op == "app" && (strings.HasPrefix(t.name, "fa.") || strings.HasPrefix(t.name, "ea."))
}
func isEA(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.name, "ea.") }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.False
	}
	if a.sort == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.op == "alloc" && b.op == "app" && b.name == "inj.lent" || b.op == "alloc" && a.op == "app" && a.name == "inj.lent" {
		return c.False // memory of a buffer is no other object
	}
	if a.op == "alloc" && b.op == "alloc" {
		return c.False
	}
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if x.op == "alloc" {
			if y.op == "int" || isIP(y) || y.birth < x.birth {
				return c.False
			}
		}
		if isIP(x) {
			if y.op == "int" {
				return c.False
			}
			if isIP(y) {
				if x.name != y.name {
					return c.False
				}
				r := c.True
				for i := range x.args {
					r = c.And(r, c.Eq(x.args[i], y.args[i]))
				}
				return r
			}
			// interior pointer of an object younger than the other pointer
			root := x
			for isIP(root) {
				root = root.args[0]
			}
			if root.op == "alloc" && y.birth < root.birth {
				return c.False
			}
		}
		if x.op == "ite" && (y.isConst() || y.op == "box" || y.op == "alloc" || x.sort == "Int" && (x.args[1].op == "alloc" || x.args[2].op == "alloc")) {
			e1, e2 := c.Eq(x.args[1], y), c.Eq(x.args[2], y)
			if e1.isConst() || e2.isConst() {
				return c.Ite(x.args[0], e1, e2)
			}
		}
	}
	if a.sort == "Any" {
		if a.op == "nilany" {
			return c.Eq(c.Typ(b), c.Int(0))
		}
		if b.op == "nilany" {
			return c.Eq(c.Typ(a), c.Int(0))
		}
		if b.op == "box" {
			a, b = b, a
		}
		if a.op == "box" {
			if b.op == "box" {
				if a.name != b.name {
					return c.False
				}
				r := c.True
				for i := range a.args {
					r = c.And(r, c.Eq(a.args[i], b.args[i]))
				}
				return r
			}
			r := c.Eq(c.Typ(b), c.Int(int64(c.TypeID(a.name))))
			for i := range a.args {
				r = c.And(r, c.Eq(c.Unbox(a.name, i, a.args[i].sort, b), a.args[i]))
			}
			return r
		}
	}
	if a.sort == "Int" {
		// x + c = y + d
		if d, ok := c.linDiff(a, b); ok {
			if d.Sign() != 0 {
				return c.False
			}
			return c.True
		}
	}
	if a.sort == "String" {
		if r := c.eqStr(a, b); r != nil {
			return r
		}
	}
	if injective(a) && injective(b) && a.name == b.name && len(a.args) == len(b.args) {
		r := c.True
		for i := range a.args {
			r = c.And(r, c.Eq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", "", nil, a, b)
}

func injective(t *Term) bool {
	return t.op == "app" && (t.name == "itoa" || strings.HasPrefix(t.name, "inj."))
}

func (c *Ctx) eqStr(a, b *Term) *Term {
	if a.op == "str" && a.name == "" {
		a, b = b, a
	}
	if b.op == "str" && b.name == "" && a.op == "s.++" {
		for _, x := range a.args {
			if x.op == "str" && x.name != "" {
				return c.False
			}
		}
	}
	return nil
}

// linear normal form for differences
func (c *Ctx) lin(t *Term, k *big.Int, m map[*Term]*big.Int, cst *big.Int) {
	switch t.op {
	case "int":
		cst.Add(cst, new(big.Int).Mul(k, t.ival))
	case "+":
		for _, a := range t.args {
			c.lin(a, k, m, cst)
		}
	case "-":
		c.lin(t.args[0], k, m, cst)
		c.lin(t.args[1], new(big.Int).Neg(k), m, cst)
	case "*":
		if t.args[0].op == "int" {
			c.lin(t.args[1], new(big.Int).Mul(k, t.args[0].ival), m, cst)
			return
		}
		fallthrough
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], k)
	}
}

func (c *Ctx) linDiff(a, b *Term) (*big.Int, bool) {
	m := map[*Term]*big.Int{}
	cst := new(big.Int)
	c.lin(a, big.NewInt(1), m, cst)
	c.lin(b, big.NewInt(-1), m, cst)
	for _, v := range m {
		if v.Sign() != 0 {
			return nil, false
		}
	}
	return cst, true
}

// fromLin rebuilds a normalized sum.
func (c *Ctx) fromLin(m map[*Term]*big.Int, cst *big.Int) *Term {
	var ts []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sortTerms(ts)
	var parts []*Term
	for _, t := range ts {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, c.mk("*", "Int", "", nil, c.BigInt(k), t))
		}
	}
	if cst.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, c.BigInt(cst))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.mk("+", "Int", "", nil, parts...)
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	cst := new(big.Int)
	c.lin(a, big.NewInt(1), m, cst)
	c.lin(b, big.NewInt(1), m, cst)
	return c.fromLin(m, cst)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	cst := new(big.Int)
	c.lin(a, big.NewInt(1), m, cst)
	c.lin(b, big.NewInt(-1), m, cst)
	return c.fromLin(m, cst)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		m := map[*Term]*big.Int{}
		cst := new(big.Int)
		c.lin(b, a.ival, m, cst)
		return c.fromLin(m, cst)
	}
	return c.mk("*", "Int", "", nil, a, b)
}

func (c *Ctx) Div(a, b *Term) *Term { // Go truncated division, exact for a>=0,b>0
	if a.op == "int" && b.op == "int" && b.ival.Sign() != 0 {
		return c.BigInt(new(big.Int).Quo(a.ival, b.ival))
	}
	return c.mk("div", "Int", "", nil, a, b)
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() > 0 {
		return c.BigInt(new(big.Int).Mod(a.ival, b.ival))
	}
	return c.mk("mod", "Int", "", nil, a, b)
}

func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Le(a, b *Term) *Term {
	if d, ok := c.linDiff(a, b); ok {
		return c.Bool(d.Sign() <= 0)
	}
	// len >= 0
	if a.op == "int" && a.ival.Sign() <= 0 && b.op == "s.len" {
		return c.True
	}
	return c.mk("<=", "Bool", "", nil, a, b)
}

// strings
func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.op == "s.++" {
			for _, x := range a.args {
				out = c.cat1(out, x)
			}
		} else {
			out = c.cat1(out, a)
		}
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("s.++", "String", "", nil, out...)
}

func (c *Ctx) cat1(out []*Term, x *Term) []*Term {
	if x.op == "str" && x.name == "" {
		return out
	}
	if n := len(out); n > 0 && x.op == "str" && out[n-1].op == "str" {
		out[n-1] = c.Str(out[n-1].name + x.name)
		return out
	}
	// substr(s,a,b) ++ substr(s,a+b,d) = substr(s,a,b+d)   (only when in range; skip)
	return append(out, x)
}

func (c *Ctx) Len(a *Term) *Term {
	switch a.op {
	case "str":
		return c.Int(int64(len(a.name)))
	case "s.++":
		r := c.Int(0)
		for _, x := range a.args {
			r = c.Add(r, c.Len(x))
		}
		return r
	case "ite":
		return c.Ite(a.args[0], c.Len(a.args[1]), c.Len(a.args[2]))
	}
	return c.mk("s.len", "Int", "", nil, a)
}

// Substr(s, off, n)
func (c *Ctx) Substr(s, off, n *Term) *Term {
	if n.isInt(0) {
		return c.Str("")
	}
	if off.isInt(0) && n == c.Len(s) {
		return s
	}
	if s.op == "str" && off.op == "int" && n.op == "int" && off.ival.IsInt64() && n.ival.IsInt64() {
		o, l := off.ival.Int64(), n.ival.Int64()
		if o < 0 || l <= 0 || o >= int64(len(s.name)) {
			return c.Str("")
		}
		e := o + l
		if e > int64(len(s.name)) {
			e = int64(len(s.name))
		}
		return c.Str(s.name[o:e])
	}
	if s.op == "s.++" {
		// peel a known prefix / suffix
		pl := c.Int(0)
		for i, x := range s.args {
			if pl == off {
				if n == c.Len(c.Concat(s.args[i:]...)) {
					return c.Concat(s.args[i:]...)
				}
				// n equal to length of args[i:j]
				acc := c.Int(0)
				for j := i; j < len(s.args); j++ {
					acc = c.Add(acc, c.Len(s.args[j]))
					if acc == n {
						return c.Concat(s.args[i : j+1]...)
					}
				}
			}
			pl = c.Add(pl, c.Len(x))
		}
	}
	return c.mk("s.substr", "String", "", nil, s, off, n)
}

func (c *Ctx) S(op, sort string, args ...*Term) *Term { return c.mk(op, sort, "", nil, args...) }

// interfaces
func (c *Ctx) TypeID(name string) int {
	if id, ok := c.tids[name]; ok {
		return id
	}
	c.tlist = append(c.tlist, name)
	c.tids[name] = len(c.tlist)
	return len(c.tlist)
}

func (c *Ctx) Nil() *Term { return c.mk("nilany", "Any", "", nil) }

func (c *Ctx) Box(tname string, leaves ...*Term) *Term {
	if _, ok := c.boxes[tname]; !ok {
		b := &BoxDecl{name: fmt.Sprintf("box.%d", c.TypeID(tname))}
		for _, l := range leaves {
			b.sorts = append(b.sorts, l.sort)
		}
		c.boxes[tname] = b
	}
	// box(unbox x) = x
	if len(leaves) > 0 && leaves[0].op == "unbox" && leaves[0].name == fmt.Sprintf("%s#0", tname) {
		x := leaves[0].args[0]
		ok := true
		for i, l := range leaves {
			if !(l.op == "unbox" && l.name == fmt.Sprintf("%s#%d", tname, i) && l.args[0] == x) {
				ok = false
			}
		}
		if ok {
			return c.mk("box", "Any", tname, nil, leaves...)
		}
	}
	return c.mk("box", "Any", tname, nil, leaves...)
}

func (c *Ctx) Typ(x *Term) *Term {
	switch x.op {
	case "nilany":
		return c.Int(0)
	case "box":
		return c.Int(int64(c.TypeID(x.name)))
	case "ite":
		return c.Ite(x.args[0], c.Typ(x.args[1]), c.Typ(x.args[2]))
	}
	return c.mk("typ", "Int", "", nil, x)
}

func (c *Ctx) Unbox(tname string, i int, sort string, x *Term) *Term {
	if x.op == "box" && x.name == tname {
		return x.args[i]
	}
	if x.op == "ite" {
		return c.Ite(x.args[0], c.Unbox(tname, i, sort, x.args[1]), c.Unbox(tname, i, sort, x.args[2]))
	}
	c.TypeID(tname)
	return c.mk("unbox", sort, fmt.Sprintf("%s#%d", tname, i), nil, x)
}

func (c *Ctx) IsNil(x *Term) *Term {
	if x.sort == "Any" {
		return c.Eq(c.Typ(x), c.Int(0))
	}
	return c.Eq(x, c.Int(0))
}

var maxDepth = func() int {
	if os.Getenv("GOVC_DEEP") != "" {
		return 16
	}
	return 6
}()

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > maxDepth {
		return "…"
	}
	switch t.op {
	case "int":
		return t.ival.String()
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "var", "alloc":
		return t.name
	}
	var a []string
	for _, x := range t.args {
		a = append(a, x.str(d+1))
	}
	n := t.op
	if t.op == "app" || t.op == "box" || t.op == "unbox" {
		n = t.name
		if t.op == "box" {
			n = "box:" + n
		}
	}
	if len(a) == 0 {
		return n
	}
	return n + "(" + strings.Join(a, ",") + ")"
}

// mentions reports whether t contains a symbol whose name starts with prefix.
func (t *Term) mentions(prefix string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if (t.op == "var" || t.op == "app") && strings.HasPrefix(t.name, prefix) {
		return true
	}
	for _, a := range t.args {
		if a.mentions(prefix, seen) {
			return true
		}
	}
	return false
}
