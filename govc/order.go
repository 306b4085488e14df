package main

import (
	"go/ast"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The language does not order the operand x and the call of return x, f(&x). The compiler evaluates calls first, go/ssa
// goes from left to right: load such variables again before the function returns.
func (e *Engine) lateLoads(st *State, fr *Frame) {
	if fr.late {
		return
	}
	fr.late = true
	ret, ok := fr.block.Instrs[len(fr.block.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) < 2 || fr.fn.Syntax() == nil {
		return
	}
	var stmt *ast.ReturnStmt
	ast.Inspect(fr.fn.Syntax(), func(n ast.Node) bool {
		if r, ok := n.(*ast.ReturnStmt); ok && r.Pos() == ret.Pos() {
			stmt = r
		}
		return stmt == nil
	})
	if stmt == nil || len(stmt.Results) != len(ret.Results) {
		return
	}
	for i, x := range ret.Results {
		id, isVar := stmt.Results[i].(*ast.Ident)
		if !isVar {
			continue
		}
		var by ssa.Instruction = ret
		var store *ssa.Store
		if l, ok := x.(*ssa.UnOp); ok {
			// functions with defers store their results
			for _, in := range fr.block.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == l.X {
					by, store, x = s, s, s.Val
				}
			}
		}
		l, ok := x.(*ssa.UnOp)
		if !ok || l.Block() != fr.block || !onlyUse(l, by) {
			continue
		}
		switch a := l.X.(type) {
		case *ssa.Alloc:
			isVar = a.Comment == id.Name
		case *ssa.FreeVar:
			isVar = a.Name() == id.Name
		default:
			isVar = false
		}
		if isVar {
			e.execUnOp(st, fr, l)
			if store != nil {
				e.store(st, e.val(st, fr, store.Addr)[0], store.Val.Type(), e.val(st, fr, l))
			}
		}
	}
}

// plannedCovers are the coverage obligations of the task and of the contract functions it calls
func (e *Engine) plannedCovers() map[string]bool {
	r := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || !strings.Contains(e.fset.Position(fn.Pos()).Filename, "zz_gv_") {
			return
		}
		seen[fn] = true
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						if k, ok := c.Common().Args, f.Name() == "gvCover"; ok && len(k) == 1 {
							if s, ok := k[0].(*ssa.Const); ok {
								r[constant.StringVal(s.Value)] = true
							}
						}
						visit(f)
					}
				}
			}
		}
	}
	visit(e.task.fn)
	return r
}

func onlyUse(v ssa.Value, by ssa.Instruction) bool {
	for _, u := range *v.Referrers() {
		if _, dbg := u.(*ssa.DebugRef); !dbg && u != by {
			return false
		}
	}
	return true
}
