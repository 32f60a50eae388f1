// Package astx holds canonical dumps and generic traversals of syntax trees that
// do not use buildtools' own traversal code.
package astx

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// Opt controls Dump.
type Opt struct {
	KeepParens bool
	// Call may rewrite the argument dump list of a call (already dumped).
	Args func(call *build.CallExpr, args []string) []string
	// String may canonicalise a string value.
	String func(v string) string
	// Literal may canonicalise a number.
	Literal func(tok string) string
	// Override may dump a node itself.
	Override func(e build.Expr, rec func(build.Expr) string) (string, bool)
	// Loads: dump load statements (default true)
	SkipLoads bool
}

// Dump returns a canonical form of the tree: positions, comments, layout flags
// and (by default) parentheses are left out.
func Dump(e build.Expr, o Opt) string {
	var rec func(e build.Expr) string
	list := func(xs []build.Expr) string {
		var r []string
		for _, x := range xs {
			if IsNil(x) {
				continue
			}
			if _, ok := x.(*build.CommentBlock); ok {
				continue
			}
			r = append(r, rec(x))
		}
		return strings.Join(r, " ")
	}
	stmts := func(xs []build.Expr) string {
		var r []string
		for _, x := range xs {
			if IsNil(x) {
				continue
			}
			if _, ok := x.(*build.CommentBlock); ok {
				continue
			}
			if _, ok := x.(*build.LoadStmt); ok && o.SkipLoads {
				continue
			}
			r = append(r, rec(x))
		}
		return strings.Join(r, "\n")
	}
	rec = func(e build.Expr) string {
		if IsNil(e) {
			return "nil"
		}
		if o.Override != nil {
			if s, ok := o.Override(e, rec); ok {
				return s
			}
		}
		switch x := e.(type) {
		case *build.File:
			return stmts(x.Stmt)
		case *build.CommentBlock:
			return ""
		case *build.Ident:
			return x.Name
		case *build.TypedIdent:
			return "(typed " + rec(x.Ident) + " " + rec(x.Type) + ")"
		case *build.BranchStmt:
			return "(" + x.Token + ")"
		case *build.LiteralExpr:
			if o.Literal != nil {
				return "#" + o.Literal(x.Token)
			}
			return "#" + x.Token
		case *build.StringExpr:
			v := x.Value
			if o.String != nil {
				v = o.String(v)
			}
			return fmt.Sprintf("%q", v)
		case *build.CallExpr:
			if o.Args != nil {
				var args []string
				for _, a := range x.List {
					if !IsNil(a) {
						args = append(args, rec(a))
					}
				}
				return "(call " + rec(x.X) + " [" + strings.Join(o.Args(x, args), " ") + "])"
			}
			return "(call " + rec(x.X) + " [" + list(x.List) + "])"
		case *build.DotExpr:
			return "(. " + rec(x.X) + " " + x.Name + ")"
		case *build.Comprehension:
			k := "listcomp"
			if x.Curly {
				k = "dictcomp"
			}
			return "(" + k + " " + rec(x.Body) + " " + list(x.Clauses) + ")"
		case *build.ForClause:
			return "(for " + rec(x.Vars) + " in " + rec(x.X) + ")"
		case *build.IfClause:
			return "(if " + rec(x.Cond) + ")"
		case *build.KeyValueExpr:
			return "(kv " + rec(x.Key) + " " + rec(x.Value) + ")"
		case *build.DictExpr:
			var r []string
			for _, kv := range x.List {
				r = append(r, rec(kv))
			}
			return "{" + strings.Join(r, " ") + "}"
		case *build.ListExpr:
			return "[" + list(x.List) + "]"
		case *build.SetExpr:
			return "(set " + list(x.List) + ")"
		case *build.TupleExpr:
			return "(tuple " + list(x.List) + ")"
		case *build.UnaryExpr:
			return "(unary " + x.Op + " " + rec(x.X) + ")"
		case *build.BinaryExpr:
			return "(" + x.Op + " " + rec(x.X) + " " + rec(x.Y) + ")"
		case *build.AssignExpr:
			return "(assign" + x.Op + " " + rec(x.LHS) + " " + rec(x.RHS) + ")"
		case *build.ParenExpr:
			if o.KeepParens {
				return "(paren " + rec(x.X) + ")"
			}
			return rec(x.X)
		case *build.SliceExpr:
			return "(slice " + rec(x.X) + " " + rec(x.From) + " " + rec(x.To) + " " + rec(x.Step) + ")"
		case *build.IndexExpr:
			return "(index " + rec(x.X) + " " + rec(x.Y) + ")"
		case *build.LambdaExpr:
			return "(lambda [" + list(x.Params) + "] " + list(x.Body) + ")"
		case *build.ConditionalExpr:
			return "(cond " + rec(x.Test) + " " + rec(x.Then) + " " + rec(x.Else) + ")"
		case *build.LoadStmt:
			var r []string
			for i := range x.From {
				r = append(r, x.To[i].Name+"="+x.From[i].Name)
			}
			return fmt.Sprintf("(load %q %s)", x.Module.Value, strings.Join(r, " "))
		case *build.DefStmt:
			return "(def " + x.Name + " [" + list(x.Params) + "] -> " + rec(x.Type) + "\n" + stmts(x.Body) + "\n)"
		case *build.ReturnStmt:
			return "(return " + rec(x.Result) + ")"
		case *build.ForStmt:
			return "(forstmt " + rec(x.Vars) + " in " + rec(x.X) + "\n" + stmts(x.Body) + "\n)"
		case *build.IfStmt:
			return "(ifstmt " + rec(x.Cond) + "\n" + stmts(x.True) + "\nelse\n" + stmts(x.False) + "\n)"
		case *build.End:
			return "end"
		}
		panic(fmt.Sprintf("astx: unknown node %T", e))
	}
	return rec(e)
}

// IsNil reports whether e is a nil interface or nil pointer.
func IsNil(e build.Expr) bool {
	if e == nil {
		return true
	}
	switch x := e.(type) {
	case *build.StringExpr:
		return x == nil
	case *build.ListExpr:
		return x == nil
	case *build.CallExpr:
		return x == nil
	case *build.LoadStmt:
		return x == nil
	}
	return false
}

// Children returns the direct child nodes, in source order.
func Children(e build.Expr) []build.Expr {
	var r []build.Expr
	add := func(xs ...build.Expr) {
		for _, x := range xs {
			if !IsNil(x) {
				r = append(r, x)
			}
		}
	}
	switch x := e.(type) {
	case *build.File:
		add(x.Stmt...)
	case *build.TypedIdent:
		add(x.Ident, x.Type)
	case *build.CallExpr:
		add(x.X)
		add(x.List...)
	case *build.DotExpr:
		add(x.X)
	case *build.Comprehension:
		add(x.Body)
		add(x.Clauses...)
	case *build.ForClause:
		add(x.Vars, x.X)
	case *build.IfClause:
		add(x.Cond)
	case *build.KeyValueExpr:
		add(x.Key, x.Value)
	case *build.DictExpr:
		for _, kv := range x.List {
			add(kv)
		}
	case *build.ListExpr:
		add(x.List...)
	case *build.SetExpr:
		add(x.List...)
	case *build.TupleExpr:
		add(x.List...)
	case *build.UnaryExpr:
		add(x.X)
	case *build.BinaryExpr:
		add(x.X, x.Y)
	case *build.AssignExpr:
		add(x.LHS, x.RHS)
	case *build.ParenExpr:
		add(x.X)
	case *build.SliceExpr:
		add(x.X, x.From, x.To, x.Step)
	case *build.IndexExpr:
		add(x.X, x.Y)
	case *build.LambdaExpr:
		add(x.Params...)
		add(x.Body...)
	case *build.ConditionalExpr:
		add(x.Then, x.Test, x.Else)
	case *build.LoadStmt:
		add(x.Module)
		for i := range x.From {
			add(x.To[i], x.From[i])
		}
	case *build.DefStmt:
		add(x.Params...)
		if x.Type != nil {
			add(x.Type)
		}
		add(x.Body...)
	case *build.ReturnStmt:
		add(x.Result)
	case *build.ForStmt:
		add(x.Vars, x.X)
		add(x.Body...)
	case *build.IfStmt:
		add(x.Cond)
		add(x.True...)
		add(x.False...)
	}
	return r
}

// Each calls f on every node below (and including) e.
func Each(e build.Expr, f func(build.Expr)) {
	if IsNil(e) {
		return
	}
	f(e)
	for _, c := range Children(e) {
		Each(c, f)
	}
}

// AllComments lists all comment tokens reachable in the tree (including End nodes).
func AllComments(e build.Expr) []string {
	var r []string
	add := func(c *build.Comments) {
		for _, l := range [][]build.Comment{c.Before, c.Suffix, c.After} {
			for _, x := range l {
				r = append(r, strings.TrimSpace(x.Token))
			}
		}
	}
	Each(e, func(n build.Expr) {
		add(n.Comment())
		switch x := n.(type) {
		case *build.CallExpr:
			add(&x.End.Comments)
		case *build.DictExpr:
			add(&x.End.Comments)
		case *build.ListExpr:
			add(&x.End.Comments)
		case *build.SetExpr:
			add(&x.End.Comments)
		case *build.TupleExpr:
			add(&x.End.Comments)
		case *build.ParenExpr:
			add(&x.End.Comments)
		case *build.Comprehension:
			add(&x.End.Comments)
		case *build.LoadStmt:
			add(&x.Rparen.Comments)
		case *build.IfStmt:
			add(&x.ElsePos.Comments)
		}
	})
	return r
}
