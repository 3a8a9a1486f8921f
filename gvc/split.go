package main

// Goals are proved conjunct by conjunct: splitGoal gives formulas whose conjunction is the goal.

const maxParts = 12

var splitCache = map[int][]*Term{}

func splitGoal(t *Term) []*Term {
	if !hasQuant(t) {
		return []*Term{t}
	}
	r, ok := splitCache[t.id]
	if !ok {
		r = splitPol(t, true)
		if len(r) > maxParts {
			r = []*Term{t}
		}
		splitCache[t.id] = r
	}
	return r
}

// splitPol gives the conjuncts of t, of its negation when pos is false.
func splitPol(t *Term, pos bool) []*Term {
	whole := func() []*Term {
		if pos {
			return []*Term{t}
		}
		return []*Term{not(t)}
	}
	switch t.op {
	case "not":
		return splitPol(t.args[0], !pos)
	case "and", "or":
		if (t.op == "and") == pos {
			var out []*Term
			for _, a := range t.args {
				out = append(out, splitPol(a, pos)...)
			}
			return out
		}
		out := []*Term{tFalse}
		for _, a := range t.args {
			parts := splitPol(a, pos)
			if len(out)*len(parts) > maxParts {
				b := a
				if !pos {
					b = not(a)
				}
				parts = []*Term{b}
			}
			var nx []*Term
			for _, o := range out {
				for _, p := range parts {
					nx = append(nx, or(o, p))
				}
			}
			out = nx
		}
		return out
	case "forall", "exists":
		if (t.op == "forall") != pos {
			return whole()
		}
		parts := splitPol(t.args[0], pos)
		if len(parts) < 2 || len(parts) > maxParts {
			return whole()
		}
		var out []*Term
		for _, p := range parts {
			out = append(out, quant("forall", t.binder, p, t.pats))
		}
		return out
	case "ite":
		if t.sort != SBool {
			return whole()
		}
		c := t.args[0]
		var out []*Term
		for _, p := range splitPol(t.args[1], pos) {
			out = append(out, or(not(c), p))
		}
		for _, p := range splitPol(t.args[2], pos) {
			out = append(out, or(c, p))
		}
		return out
	case "=":
		a, b := t.args[0], t.args[1]
		if a.sort != SBool || !hasQuant(t) || !pos {
			return whole()
		}
		return []*Term{or(not(a), b), or(a, not(b))}
	}
	return whole()
}
