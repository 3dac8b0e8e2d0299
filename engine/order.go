package main

import (
	"go/ast"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// gcOrder arranges the instructions of a block as the compiler does where the
// language leaves the order open: in "return x, f()" the variable x is read
// after the call, where x/tools/go/ssa reads it before.
func gcOrder(f *ssa.Function, b *ssa.BasicBlock) []ssa.Instruction {
	if len(b.Instrs) == 0 {
		return b.Instrs
	}
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) < 2 || !ret.Pos().IsValid() || f.Syntax() == nil {
		return b.Instrs
	}
	late := map[ssa.Instruction]bool{}
	var stmt *ast.ReturnStmt
	for i, r := range ret.Results {
		l, ok := r.(*ssa.UnOp)
		if !ok || l.Op != token.MUL || l.Block() != b {
			continue
		}
		a, ok := l.X.(*ssa.Alloc)
		if !ok || l.Referrers() == nil || len(*l.Referrers()) != 1 {
			continue
		}
		if stmt == nil {
			ast.Inspect(f.Syntax(), func(n ast.Node) bool {
				if s, ok := n.(*ast.ReturnStmt); ok && s.Return == ret.Pos() {
					stmt = s
				}
				return stmt == nil
			})
			if stmt == nil || len(stmt.Results) != len(ret.Results) {
				return b.Instrs
			}
		}
		if id, ok := stmt.Results[i].(*ast.Ident); ok && id.Name == a.Comment {
			late[l] = true
		}
	}
	if len(late) == 0 {
		return b.Instrs
	}
	var out, end []ssa.Instruction
	for _, i := range b.Instrs[:len(b.Instrs)-1] {
		if late[i] {
			end = append(end, i)
		} else {
			out = append(out, i)
		}
	}
	return append(append(out, end...), ret)
}
