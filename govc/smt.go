package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one persistent SMT process; facts are kept on its assertion stack.
type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	stack    []*Term
	declared map[string]bool
	defined  map[*Term]bool
	post     map[*Term]string
	axof     map[*Term][]*Term
	active   map[*Term]bool
	levels   [][]*Term
	log      io.Writer
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Fallback map[string]int
	By       map[string]int
	Time     time.Duration
	cache    map[string]string
	timeout  int
	dead     bool
	errors   int
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, cache: map[string]string{}, Fallback: map[string]int{}, By: map[string]int{}, timeout: 4000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.declared = map[string]bool{}
	s.defined = map[*Term]bool{}
	s.post = map[*Term]string{}
	s.axof = map[*Term][]*Term{}
	s.active = map[*Term]bool{}
	s.levels = nil
	s.stack = nil
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		s.dead = true
		return
	}
	s.send("(set-option :global-declarations true)\n%s(declare-sort Any 0)\n(declare-sort F64 0)\n(declare-fun typ (Any) Int)\n(declare-const nilany Any)\n(assert (= (typ nilany) 0))\n", limits(s.timeout))
}

// limits bounds a query by the work done in about ms milliseconds, so that the answer does not depend on the load of the
// machine.
func limits(ms int) string {
	return fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n", ms*800, ms*3)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
	}
}

func (s *Solver) send(f string, a ...any) {
	t := fmt.Sprintf(f, a...)
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	io.WriteString(s.in, t)
}

// decls emits declarations for a term (global), returns its SMT text.
func (s *Solver) text(t *Term, w func(string)) string {
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case "str":
		return smtStr(t.name)
	case "true", "false":
		return t.op
	case "nilany":
		return "nilany"
	case "alloc", "glob":
		return t.ival.String()
	case "var":
		if !s.declared[t.name] {
			s.declared[t.name] = true
			w(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, t.sort))
		}
		return "|" + t.name + "|"
	}
	if s.defined[t] {
		return fmt.Sprintf("t%d", t.id)
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.text(a, w)
	}
	n := ""
	post := ""
	switch t.op {
	case "app":
		n = "|" + t.name + "|"
		f := s.c.funs[t.name]
		if !s.declared[t.name] {
			s.declared[t.name] = true
			w(fmt.Sprintf("(declare-fun |%s| (%s) %s)\n", t.name, strings.Join(f.args, " "), f.sort))
		}
		if len(args) == 0 {
			return n
		}
		if t.name == "itoa" {
			if !s.declared["itoa.inv"] {
				s.declared["itoa.inv"] = true
				w("(declare-fun itoa.inv (String) Int)\n")
			}
			post = fmt.Sprintf("(assert (= (itoa.inv t%d) %s))\n(assert (> (str.len t%d) 0))\n", t.id, args[0], t.id)
		}
		if strings.HasPrefix(t.name, "inj.") || isIP(t) {
			for i, a := range args {
				iv := fmt.Sprintf("|%s.inv%d|", t.name, i)
				if !s.declared[iv] {
					s.declared[iv] = true
					w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", iv, t.sort, t.args[i].sort))
				}
				post += fmt.Sprintf("(assert (= (%s t%d) %s))\n", iv, t.id, a)
			}
			if isIP(t) {
				if !s.declared["ipkind"] {
					s.declared["ipkind"] = true
					w("(declare-fun ipkind (Int) Int)\n")
				}
				post += fmt.Sprintf("(assert (< t%d 0))\n(assert (= (ipkind t%d) %d))\n", t.id, t.id, s.c.TypeID("ip:"+t.name))
			}
		}
		if strings.HasPrefix(t.name, "nn.") {
			post += fmt.Sprintf("(assert (>= t%d 0))\n", t.id)
		}
	case "box":
		b := s.c.boxes[t.name]
		n = b.name
		if !s.declared[n] {
			s.declared[n] = true
			w(fmt.Sprintf("(declare-fun %s (%s) Any)\n", n, strings.Join(b.sorts, " ")))
			for i, so := range b.sorts {
				s.declUnbox(fmt.Sprintf("%s#%d", t.name, i), so, w)
			}
		}
		post = fmt.Sprintf("(assert (= (typ t%d) %d))\n", t.id, s.c.TypeID(t.name))
		for i := range args {
			post += fmt.Sprintf("(assert (= (%s t%d) %s))\n", s.unboxName(fmt.Sprintf("%s#%d", t.name, i)), t.id, args[i])
		}
		if len(args) == 0 {
			w(fmt.Sprintf("(define-fun t%d () Any %s)\n", t.id, n))
			s.post[t] = post
			s.defined[t] = true
			return fmt.Sprintf("t%d", t.id)
		}
	case "unbox":
		s.declUnbox(t.name, t.sort, w)
		n = s.unboxName(t.name)
		// a value of the type is what boxing its parts gives
		i := strings.LastIndex(t.name, "#")
		if b := s.c.boxes[t.name[:i]]; b != nil && t.name[i:] == "#0" {
			if !s.declared[b.name] {
				s.declared[b.name] = true
				w(fmt.Sprintf("(declare-fun %s (%s) Any)\n", b.name, strings.Join(b.sorts, " ")))
			}
			var us []string
			for k, so := range b.sorts {
				u := fmt.Sprintf("%s#%d", t.name[:i], k)
				s.declUnbox(u, so, w)
				us = append(us, fmt.Sprintf("(%s %s)", s.unboxName(u), args[0]))
			}
			post += fmt.Sprintf("(assert (=> (= (typ %s) %d) (= %s (%s %s))))\n", args[0], s.c.TypeID(t.name[:i]), args[0], b.name, strings.Join(us, " "))
		}
	case "typ":
		n = "typ"
	case "+", "-", "*", "div", "mod", "<=", "=", "not", "and", "ite":
		n = t.op
	default:
		if m, ok := smtOps[t.op]; ok {
			n = m
		} else {
			panic("smt op " + t.op)
		}
	}
	x := "(" + n + " " + strings.Join(args, " ") + ")"
	if t.op == "not" && post == "" {
		return x
	}
	w(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, t.sort, x))
	s.post[t] = post
	s.defined[t] = true
	return fmt.Sprintf("t%d", t.id)
}

var smtOps = map[string]string{
	"s.++": "str.++", "s.len": "str.len", "s.substr": "str.substr", "s.prefixof": "str.prefixof", "s.suffixof": "str.suffixof",
	"s.contains": "str.contains", "s.indexof": "str.indexof", "s.tocode": "str.to_code", "s.fromcode": "str.from_code",
	"s.replace": "str.replace", "s.lt": "str.<", "s.replaceall": "str.replace_all",
}

func (s *Solver) unboxName(n string) string {
	i := strings.LastIndex(n, "#")
	return fmt.Sprintf("unbox.%d.%s", s.c.TypeID(n[:i]), n[i+1:])
}

func (s *Solver) declUnbox(n, sort string, w func(string)) {
	u := s.unboxName(n)
	if !s.declared[u] {
		s.declared[u] = true
		w(fmt.Sprintf("(declare-fun %s (Any) %s)\n", u, sort))
	}
}

func smtStr(x string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(x); i++ {
		ch := x[i]
		if ch >= 32 && ch < 127 && ch != '"' && ch != '\\' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// axioms returns the subterms of t that carry definition axioms.
func (s *Solver) axioms(t *Term) []*Term {
	if r, ok := s.axof[t]; ok {
		return r
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range t.args {
		for _, x := range s.axioms(a) {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	if s.post[t] != "" {
		out = append(out, t)
	}
	s.axof[t] = out
	return out
}

func (s *Solver) pushAssert(f *Term) {
	tx := s.text(f, func(x string) { s.send("%s", x) })
	s.send("(push 1)\n")
	var lv []*Term
	for _, x := range s.axioms(f) {
		if !s.active[x] {
			s.active[x] = true
			lv = append(lv, x)
			s.send("%s", s.post[x])
		}
	}
	s.levels = append(s.levels, lv)
	s.send("(assert %s)\n", tx)
	s.stack = append(s.stack, f)
}

func (s *Solver) popN(n int) {
	if n == 0 {
		return
	}
	s.send("(pop %d)\n", n)
	for i := 0; i < n; i++ {
		for _, x := range s.levels[len(s.levels)-1] {
			delete(s.active, x)
		}
		s.levels = s.levels[:len(s.levels)-1]
	}
	s.stack = s.stack[:len(s.stack)-n]
}

func (s *Solver) sync(facts []*Term) {
	n := 0
	for n < len(facts) && n < len(s.stack) && facts[n] == s.stack[n] {
		n++
	}
	s.popN(len(s.stack) - n)
	for _, f := range facts[n:] {
		s.pushAssert(f)
	}
}

func (s *Solver) read() string {
	type rl struct {
		l   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- rl{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
			return "dead"
		}
		return strings.TrimSpace(r.l)
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*4 + 5*time.Second):
		s.dead = true
		return "dead"
	}
}

var slowLog = os.Getenv("GOVC_SLOW") != ""

// Check decides facts ∧ extra: "sat", "unsat" or "unknown".
func (s *Solver) Check(facts []*Term, extra *Term, timeout int) string {
	if extra != nil && extra.op == "false" {
		return "unsat"
	}
	key := ""
	{
		var b strings.Builder
		for _, f := range facts {
			fmt.Fprintf(&b, "%d,", f.id)
		}
		if extra != nil {
			fmt.Fprintf(&b, "|%d", extra.id)
		}
		key = b.String()
	}
	if r, ok := s.cache[key]; ok && (r != "unknown" || timeout <= s.timeout) {
		return r
	}
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if slowLog && time.Since(t0) > 500*time.Millisecond {
			fmt.Fprintf(os.Stderr, "SLOW %v %s\n", time.Since(t0), s.cache[key])
			for _, f := range facts {
				fmt.Fprintf(os.Stderr, "   S fact %v\n", f)
			}
			fmt.Fprintf(os.Stderr, "   S goal %v\n", extra)
		}
	}()
	if s.dead {
		s.Close()
		s.dead = false
		s.start()
	}
	s.sync(facts)
	if extra != nil {
		s.pushAssert(extra)
	}
	if timeout != s.timeout {
		s.timeout = timeout
		s.send("%s", limits(timeout))
	}
	s.send("(check-sat)\n")
	s.Queries++
	r := s.read()
	for strings.HasPrefix(r, "(error") || r == "" {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SMT:", r)
		}
		s.errors++
		if s.errors > 50 {
			r = "unknown"
			break
		}
		r = s.read()
	}
	if r == "dead" || r == "timeout" {
		r = "unknown"
	}
	if extra != nil && !s.dead {
		s.popN(1)
	}
	switch r {
	case "sat":
		s.Sat++
	case "unsat":
		s.Unsat++
	default:
		s.Unknown++
		r = "unknown"
	}
	s.cache[key] = r
	return r
}

// Script writes a standalone query.
func (s *Solver) Script(facts []*Term, extra *Term, z3 bool) string {
	o := NewScript(s.c)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n(declare-sort Any 0)\n(declare-sort F64 0)\n(declare-fun typ (Any) Int)\n(declare-const nilany Any)\n(assert (= (typ nilany) 0))\n")
	all := append([]*Term{}, facts...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, f := range all {
		tx := o.text(f, func(x string) { b.WriteString(x) })
		for _, x := range o.axioms(f) {
			if !o.active[x] {
				o.active[x] = true
				b.WriteString(o.post[x])
			}
		}
		b.WriteString("(assert " + tx + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func NewScript(c *Ctx) *Solver {
	return &Solver{c: c, declared: map[string]bool{}, defined: map[*Term]bool{}, post: map[*Term]string{}, axof: map[*Term][]*Term{}, active: map[*Term]bool{}}
}

// Prove decides facts ⊢ goal with the portfolio; returns the back end or "" and the solver answer.
func (s *Solver) Prove(facts []*Term, goal *Term, timeout int) (string, string) {
	if goal.op == "true" {
		return "simplifier", "unsat"
	}
	neg := s.c.Not(goal)
	r := s.Check(facts, neg, timeout)
	if r == "unsat" {
		s.By["z3-new"]++
		return "z3-new", r
	}
	if r == "sat" {
		return "", r
	}
	// other solvers on a standalone script
	script := s.Script(facts, neg, true)
	for _, alt := range [][]string{{"cvc5", "--strings-exp", fmt.Sprintf("--tlimit=%d", timeout*2), "--lang=smt2"}, {"z3", "-in", fmt.Sprintf("-T:%d", timeout/500+1)}, {"z3-new", "-in", fmt.Sprintf("-T:%d", timeout/500+1)}} {
		t0 := time.Now()
		cmd := exec.Command(alt[0], alt[1:]...)
		if alt[0] == "cvc5" {
			cmd.Args = append(cmd.Args, "-")
		}
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		s.Time += time.Since(t0)
		s.Queries++
		ans := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
		if ans == "unsat" {
			s.By[alt[0]]++
			return alt[0], ans
		}
		if ans == "sat" {
			return "", ans
		}
	}
	return "", "unknown"
}
