package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- products and quotients ----

// A division is treated as total with x/0 = 0, which makes these rules hold.

// frac splits a term into a coefficient, factors and divisors.
func frac(t *Term) (k *big.Rat, num, den []*Term) {
	k = big.NewRat(1, 1)
	switch {
	case t.num != nil:
		return new(big.Rat).Set(t.num), nil, nil
	case t.op == "*":
		for _, a := range t.args {
			ka, n, d := frac(a)
			k.Mul(k, ka)
			num = append(num, n...)
			den = append(den, d...)
		}
	case t.op == "/":
		ka, n, d := frac(t.args[0])
		kb, n2, d2 := frac(t.args[1])
		k.Mul(k, ka)
		if kb.Sign() != 0 {
			k.Quo(k, kb)
			num = append(append(num, n...), d2...)
			den = append(append(den, d...), n2...)
		} else {
			num = append(num, t)
			k = big.NewRat(1, 1)
		}
	default:
		num = append(num, t)
	}
	return
}

func product(ts []*Term, s Sort) *Term {
	if len(ts) == 0 {
		return nil
	}
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = mk("*", s, ts[i], r)
	}
	return r
}

func fromFrac(k *big.Rat, num, den []*Term, s Sort) *Term {
	if k.Sign() == 0 {
		return NumRat(k, s)
	}
	t := product(num, s)
	if d := product(den, s); d != nil {
		if t == nil {
			t = NumRat(big.NewRat(1, 1), s)
		}
		t = mk("/", SReal, t, d)
	}
	if t == nil {
		return NumRat(k, s)
	}
	if k.Cmp(big.NewRat(1, 1)) == 0 {
		return t
	}
	l := lin{c: new(big.Rat), co: map[*Term]*big.Rat{t: k}}
	return l.term(s)
}

func nonlinear(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "/" || t.op == "*" && t.args[0].num == nil {
		return true
	}
	for _, a := range t.args {
		if nonlinear(a, seen) {
			return true
		}
	}
	return false
}

// ---- the arithmetic part of an obligation, over the reals ----

type nraAbs struct {
	names map[*Term]string
	decl  []string
	defs  []string
	memo  map[*Term]string
	vars  map[*Term]map[string]bool
}

func (n *nraAbs) fresh(t *Term, s string) string {
	if x, ok := n.names[t]; ok {
		return x
	}
	x := fmt.Sprintf("v%d", len(n.names))
	n.names[t] = x
	n.decl = append(n.decl, fmt.Sprintf("(declare-const %s %s)", x, s))
	return x
}

func (n *nraAbs) tr(t *Term) string {
	if s, ok := n.memo[t]; ok {
		return s
	}
	s := n.tr1(t)
	n.memo[t] = s
	return s
}

func (n *nraAbs) tr1(t *Term) string {
	all := func(op string) string {
		var as []string
		for _, a := range t.args {
			as = append(as, n.tr(a))
		}
		return "(" + op + " " + strings.Join(as, " ") + ")"
	}
	switch t.sort {
	case SBool:
		if t == tTrue {
			return "true"
		}
		if t == tFalse {
			return "false"
		}
		switch t.op {
		case "and", "or", "not", "=>", "ite":
			return all(t.op)
		case "<", "<=":
			return all(t.op)
		case "=":
			if s := t.args[0].sort; s == SInt || s == SReal || s == SBool {
				return all("=")
			}
		}
		return n.fresh(t, "Bool")
	case SInt, SReal:
		if t.num != nil {
			r := t.num
			s := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()), r.Denom())
			if r.Sign() < 0 {
				s = "(- " + s + ")"
			}
			return s
		}
		switch t.op {
		case "+", "*":
			return all(t.op)
		case "ite":
			return all("ite")
		case "to_real":
			return n.tr(t.args[0])
		case "/":
			q := n.fresh(t, "Real")
			d := n.tr(t.args[1])
			n.defs = append(n.defs, fmt.Sprintf("(assert (= (* %s %s) (ite (= %s 0.0) 0.0 %s)))", q, d, d, n.tr(t.args[0])))
			return q
		}
		return n.fresh(t, "Real")
	}
	return n.fresh(t, "Bool")
}

func nraVars(t *Term, out map[*Term]bool) {
	switch {
	case t.num != nil:
	case t.sort == SBool && (t.op == "and" || t.op == "or" || t.op == "not" || t.op == "=>" || t.op == "ite" || t.op == "<" || t.op == "<=" || t.op == "="),
		(t.sort == SInt || t.sort == SReal) && (t.op == "+" || t.op == "*" || t.op == "ite" || t.op == "to_real" || t.op == "/"):
		for _, a := range t.args {
			nraVars(a, out)
		}
	default:
		out[t] = true
	}
}

// nraQuery abstracts everything but arithmetic; unsat carries over.
func nraQuery(pc []*Term, goal *Term) string {
	gv := map[*Term]bool{}
	nraVars(goal, gv)
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] || p.op == "forall" {
				continue
			}
			pv := map[*Term]bool{}
			nraVars(p, pv)
			hit := false
			for x := range pv {
				hit = hit || gv[x]
			}
			if hit {
				used[i] = true
				ch = true
				for x := range pv {
					gv[x] = true
				}
			}
		}
	}
	n := &nraAbs{names: map[*Term]string{}, memo: map[*Term]string{}}
	var as []string
	for i, p := range pc {
		if used[i] {
			as = append(as, fmt.Sprintf("(assert %s)", n.tr(p)))
		}
	}
	as = append(as, fmt.Sprintf("(assert (not %s))", n.tr(goal)))
	return "(set-logic QF_NRA)\n" + strings.Join(n.decl, "\n") + "\n" + strings.Join(n.defs, "\n") + "\n" + strings.Join(as, "\n") + "\n(check-sat)\n"
}
