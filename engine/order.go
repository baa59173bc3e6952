package main

import (
	"go/ast"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// The gc compiler reads plain variables of an expression list after the calls of the same list (the language leaves the
// order open), go/ssa before them. sinkLoads moves such loads, so that e.g. `return res, f(&res)` means what it means
// in the built program.
func sinkLoads(fn *ssa.Function) {
	syn := fn.Syntax()
	if syn == nil || len(fn.Blocks) == 0 {
		return
	}
	var body ast.Node
	switch s := syn.(type) {
	case *ast.FuncDecl:
		body = s.Body
	case *ast.FuncLit:
		body = s.Body
	default:
		return
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			sinkList(fn, n, n.Results)
		case *ast.AssignStmt:
			sinkList(fn, n, n.Rhs)
		case *ast.CallExpr:
			sinkList(fn, n, n.Args)
		}
		return true
	})
}

func sinkList(fn *ssa.Function, at ast.Node, xs []ast.Expr) {
	if len(xs) < 2 {
		return
	}
	for i, x := range xs {
		id, ok := x.(*ast.Ident)
		if !ok || id.Name == "_" || id.Name == "nil" {
			continue
		}
		var calls []*ast.CallExpr
		for _, y := range xs[i+1:] {
			ast.Inspect(y, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.CallExpr:
					calls = append(calls, n)
				}
				return true
			})
		}
		if len(calls) > 0 {
			sinkOne(fn, id.Name, at, calls)
		}
	}
}

func sinkOne(fn *ssa.Function, name string, at ast.Node, calls []*ast.CallExpr) {
	for _, b := range fn.Blocks {
		first, last := -1, -1
		for j, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Pos() == token.NoPos {
				continue
			}
			for _, ce := range calls {
				if c.Pos() >= ce.Pos() && c.Pos() <= ce.End() {
					if first < 0 {
						first = j
					}
					last = j
				}
			}
		}
		if first < 0 {
			continue
		}
		for j := first - 1; j >= 0; j-- {
			in := b.Instrs[j]
			if p := in.Pos(); p != token.NoPos && (p < at.Pos() || p > at.End()) {
				break
			}
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			match := false
			switch v := u.X.(type) {
			case *ssa.Alloc:
				match = v.Comment == name
			case *ssa.FreeVar:
				match = v.Name() == name
			}
			if !match || usedBetween(b, u, j+1, last) {
				continue
			}
			copy(b.Instrs[j:last], b.Instrs[j+1:last+1])
			b.Instrs[last] = u
			return
		}
	}
}

func usedBetween(b *ssa.BasicBlock, u *ssa.UnOp, from, to int) bool {
	for j := from; j <= to; j++ {
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op == ssa.Value(u) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) sinkOnce(fn *ssa.Function) {
	e.sinkMu.Lock()
	defer e.sinkMu.Unlock()
	if e.sunk == nil {
		e.sunk = map[*ssa.Function]bool{}
	}
	if !e.sunk[fn] {
		e.sunk[fn] = true
		sinkLoads(fn)
	}
}
