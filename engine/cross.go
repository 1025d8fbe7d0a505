package main

import (
	"os/exec"
	"strings"
)

// crossCheck decides a query a second time with an independent solver (cvc5) and compares.
func (s *Session) crossCheck(lits []*Term, vars []int, x *Exec, r result) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	for _, l := range lits {
		emitDefs(&sb, l, func(t *Term) bool { return seen[t] }, func(t *Term) { seen[t] = true })
	}
	for _, l := range lits {
		sb.WriteString("(assert " + ref(l) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	got := strings.TrimSpace(string(out))
	switch {
	case got == "sat" && r == resSat, got == "unsat" && r == resUnsat:
		s.crossDone.Add(1)
	case got == "sat" || got == "unsat":
		s.crossBad.Add(1)
	}
}
