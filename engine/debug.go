package main

import (
	"fmt"
	"strings"
)

// str prints an expression for debugging.
func (e *Expr) str(depth int) string {
	if e.isConst() {
		return fmt.Sprintf("%d'%x", e.w, e.k)
	}
	if depth == 0 {
		return "…"
	}
	var as []string
	for _, a := range e.args {
		as = append(as, a.str(depth-1))
	}
	s := fmt.Sprintf("op%d.%d", e.op, e.w)
	if e.name != "" {
		s += ":" + e.name
	}
	if e.tab != nil {
		s += fmt.Sprintf("[tab%d %v]", len(e.tab.vals), e.tab.vals[:min(8, len(e.tab.vals))])
	}
	if e.k != 0 {
		s += fmt.Sprintf("{%d}", e.k)
	}
	return s + "(" + strings.Join(as, " ") + ")"
}
