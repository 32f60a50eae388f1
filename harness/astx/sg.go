package astx

import (
	"fmt"
	"strings"

	"go.starlark.net/syntax"
)

// ParseSG parses text with Starlark-Go.
func ParseSG(text string) (*syntax.File, error) {
	return syntax.Parse("x.star", text, 0)
}

// DumpSG returns a canonical form of a Starlark-Go tree without positions and parentheses.
func DumpSG(f *syntax.File) string { return sgStmts(f.Stmts) }

func sgStmts(xs []syntax.Stmt) string {
	var r []string
	for _, x := range xs {
		r = append(r, sgStmt(x))
	}
	return strings.Join(r, "\n")
}

func sgExprs(xs []syntax.Expr) string {
	var r []string
	for _, x := range xs {
		r = append(r, SGExpr(x))
	}
	return strings.Join(r, " ")
}

func sgStmt(s syntax.Stmt) string {
	switch x := s.(type) {
	case *syntax.AssignStmt:
		return "(assign " + x.Op.String() + " " + SGExpr(x.LHS) + " " + SGExpr(x.RHS) + ")"
	case *syntax.BranchStmt:
		return "(" + x.Token.String() + ")"
	case *syntax.DefStmt:
		return "(def " + x.Name.Name + " [" + sgExprs(x.Params) + "]\n" + sgStmts(x.Body) + "\n)"
	case *syntax.ExprStmt:
		return SGExpr(x.X)
	case *syntax.ForStmt:
		return "(forstmt " + SGExpr(x.Vars) + " " + SGExpr(x.X) + "\n" + sgStmts(x.Body) + "\n)"
	case *syntax.WhileStmt:
		return "(while " + SGExpr(x.Cond) + "\n" + sgStmts(x.Body) + "\n)"
	case *syntax.IfStmt:
		return "(ifstmt " + SGExpr(x.Cond) + "\n" + sgStmts(x.True) + "\nelse\n" + sgStmts(x.False) + "\n)"
	case *syntax.LoadStmt:
		var r []string
		for i := range x.From {
			r = append(r, x.To[i].Name+"="+x.From[i].Name)
		}
		return fmt.Sprintf("(load %v %s)", x.Module.Value, strings.Join(r, " "))
	case *syntax.ReturnStmt:
		return "(return " + SGExpr(x.Result) + ")"
	}
	panic(fmt.Sprintf("sg: %T", s))
}

// SGExpr dumps an expression.
func SGExpr(e syntax.Expr) string {
	switch x := e.(type) {
	case nil:
		return "nil"
	case *syntax.BinaryExpr:
		return "(" + x.Op.String() + " " + SGExpr(x.X) + " " + SGExpr(x.Y) + ")"
	case *syntax.CallExpr:
		return "(call " + SGExpr(x.Fn) + " [" + sgExprs(x.Args) + "])"
	case *syntax.Comprehension:
		var cl []string
		for _, c := range x.Clauses {
			switch c := c.(type) {
			case *syntax.ForClause:
				cl = append(cl, "(for "+SGExpr(c.Vars)+" in "+SGExpr(c.X)+")")
			case *syntax.IfClause:
				cl = append(cl, "(if "+SGExpr(c.Cond)+")")
			}
		}
		return fmt.Sprintf("(comp %v %s %s)", x.Curly, SGExpr(x.Body), strings.Join(cl, " "))
	case *syntax.CondExpr:
		return "(cond " + SGExpr(x.Cond) + " " + SGExpr(x.True) + " " + SGExpr(x.False) + ")"
	case *syntax.DictEntry:
		return "(kv " + SGExpr(x.Key) + " " + SGExpr(x.Value) + ")"
	case *syntax.DictExpr:
		return "{" + sgExprs(x.List) + "}"
	case *syntax.DotExpr:
		return "(. " + SGExpr(x.X) + " " + x.Name.Name + ")"
	case *syntax.Ident:
		return x.Name
	case *syntax.IndexExpr:
		return "(index " + SGExpr(x.X) + " " + SGExpr(x.Y) + ")"
	case *syntax.LambdaExpr:
		return "(lambda [" + sgExprs(x.Params) + "] " + SGExpr(x.Body) + ")"
	case *syntax.ListExpr:
		return "[" + sgExprs(x.List) + "]"
	case *syntax.Literal:
		return fmt.Sprintf("%v:%v", x.Token, x.Value)
	case *syntax.ParenExpr:
		return SGExpr(x.X)
	case *syntax.SliceExpr:
		return "(slice " + SGExpr(x.X) + " " + SGExpr(x.Lo) + " " + SGExpr(x.Hi) + " " + SGExpr(x.Step) + ")"
	case *syntax.TupleExpr:
		return "(tuple " + sgExprs(x.List) + ")"
	case *syntax.UnaryExpr:
		return "(unary " + x.Op.String() + " " + SGExpr(x.X) + ")"
	}
	panic(fmt.Sprintf("sg: %T", e))
}
