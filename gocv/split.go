package main

// Case splitting: before an obligation goes to a solver it is split on the
// conditions of its case distinctions and simplified under each of them.

import "sort"

type kept struct {
	fact *Term
	k, v *Term
}

// simplifySet propagates literals and equalities through a set of assertions.
// It returns false when the set is contradictory.
func simplifySet(as []*Term) ([]*Term, bool) {
	sub := map[*Term]*Term{}
	var ks []kept
	cur := append([]*Term{}, as...)
	for round := 0; round < 60; round++ {
		memo := map[*Term]*Term{}
		kids := func(t *Term) *Term {
			if len(t.args) == 0 {
				return t
			}
			ns := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				ns[i] = substTerm(a, sub, memo)
				ch = ch || ns[i] != a
			}
			if !ch {
				return t
			}
			return rebuild(t, ns)
		}
		var next []*Term
		seen := map[*Term]bool{}
		var flat func(t *Term) bool
		flat = func(t *Term) bool {
			if t == True || seen[t] {
				return true
			}
			if t == False || seen[Not(t)] {
				return false
			}
			if t.op == OAnd {
				for _, a := range t.args {
					if !flat(a) {
						return false
					}
				}
				return true
			}
			if t.op == ONot && t.args[0].op == OOr {
				for _, a := range t.args[0].args {
					if !flat(Not(a)) {
						return false
					}
				}
				return true
			}
			seen[t] = true
			next = append(next, t)
			return true
		}
		changed := false
		var nks []kept
		for _, e := range ks {
			var n *Term
			switch {
			case e.fact.op == OEq && e.v != True:
				n = Eq(kids(e.k), substTerm(e.v, sub, memo))
			case e.fact.op == ONot:
				n = Not(kids(e.fact.args[0]))
			default:
				n = kids(e.fact)
			}
			if n == e.fact {
				nks = append(nks, e)
				continue
			}
			changed = true
			if !flat(n) {
				return nil, false
			}
		}
		for _, t := range cur {
			n := substTerm(t, sub, memo)
			if n != t {
				changed = true
			}
			if !flat(n) {
				return nil, false
			}
		}
		ks = nks
		sub = map[*Term]*Term{}
		for _, e := range ks {
			sub[e.k] = e.v
		}
		cur = cur[:0:0]
		sym := false
		for _, t := range next {
			k, v := orient(t)
			if k == nil || sub[k] != nil {
				cur = append(cur, t)
				continue
			}
			if !isLit(v) && !isNilConst(v) {
				if sym {
					cur = append(cur, t)
					changed = true
					continue
				}
				sym = true
			}
			sub[k] = v
			ks = append(ks, kept{t, k, v})
			changed = true
		}
		if !changed {
			break
		}
	}
	out := cur
	for _, e := range ks {
		out = append(out, e.fact)
	}
	return out, true
}

// orient finds the replacement that an assertion allows: an atom by its truth
// value, a symbol by a term, or a term by a literal.
func orient(t *Term) (*Term, *Term) {
	switch t.op {
	case OEq:
		a, b := t.args[0], t.args[1]
		if isLit(a) || isNilConst(a) {
			a, b = b, a
		}
		if isLit(b) || isNilConst(b) {
			if isLit(a) || isNilConst(a) {
				return t, True
			}
			if a.op == OAdd || a.op == OConcat || a.op == OIte || a.op == OLen {
				return t, True
			}
			return a, b
		}
		if isSym(b) && !occurs(b, a) {
			if isSym(a) && a.id > b.id {
				return a, b
			}
			return b, a
		}
		if isSym(a) && !occurs(a, b) {
			return a, b
		}
		return t, True
	case ONot:
		if t.args[0].op == OAnd || t.args[0].op == OForall {
			return nil, nil
		}
		return t.args[0], False
	case OAnd, OForall, OOr:
		return nil, nil
	}
	if t.sort == BoolS && !isLit(t) {
		return t, True
	}
	return nil, nil
}

func isNilConst(t *Term) bool { return t.op == OConst && len(t.name) > 4 && t.name[:4] == "nil!" }

func isSym(t *Term) bool { return t.op == OConst && !isNilConst(t) && !hasPre(t.name, "g_") }

func hasPre(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func occurs(s, t *Term) bool {
	seen := map[*Term]bool{}
	found := false
	walk(t, seen, func(x *Term) {
		if x == s {
			found = true
		}
	})
	return found
}

// pickCond chooses a condition to split on.
func pickCond(as []*Term, ors bool) *Term {
	count := map[*Term]int{}
	seen := map[*Term]bool{}
	bm := map[*Term]bool{}
	var atom func(c *Term) *Term
	atom = func(c *Term) *Term {
		switch c.op {
		case ONot:
			return atom(c.args[0])
		case OAnd, OOr:
			for _, a := range c.args {
				if r := atom(a); r != nil {
					return r
				}
			}
			return nil
		case OTrue, OFalse, OForall:
			return nil
		case OIte:
			return atom(c.args[0])
		}
		// the innermost case distinction first
		var inner *Term
		for _, a := range c.args {
			walk(a, map[*Term]bool{}, func(x *Term) {
				if inner == nil && x.op == OIte && !hasBound(x, bm) {
					inner = x.args[0]
				}
			})
		}
		if inner != nil {
			return atom(inner)
		}
		return c
	}
	for _, t := range as {
		walk(t, seen, func(x *Term) {
			if x.op == OIte && !hasBound(x, bm) {
				if a := atom(x.args[0]); a != nil {
					count[a]++
				}
			}
		})
	}
	if len(count) == 0 && ors {
		for _, t := range as {
			if t.op == OOr && len(t.args) <= 3 {
				if a := atom(t); a != nil && !hasBound(a, bm) {
					count[a]++
				}
			}
		}
	}
	if len(count) == 0 {
		return nil
	}
	var cs []*Term
	for c := range count {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		if count[cs[i]] != count[cs[j]] {
			return count[cs[i]] > count[cs[j]]
		}
		return cs[i].id < cs[j].id
	})
	return cs[0]
}

// splitCases enumerates the cases of a set of assertions. ok is false when there
// are more than limit.
func splitCases(as []*Term, limit int, ors bool, work *int) (out [][]*Term, ok bool) {
	ok = true
	nodes := 0
	var rec func(as []*Term, depth int)
	rec = func(as []*Term, depth int) {
		if nodes++; nodes > 8*limit || *work < 0 {
			ok = false
		}
		*work -= len(as)
		if !ok {
			return
		}
		s, sat := simplifySet(as)
		if !sat {
			return
		}
		c := pickCond(s, ors)
		if c == nil || depth > 24 {
			out = append(out, s)
			if len(out) > limit {
				ok = false
			}
			return
		}
		rec(append(append([]*Term{}, s...), c), depth+1)
		rec(append(append([]*Term{}, s...), Not(c)), depth+1)
	}
	rec(as, 0)
	return out, ok
}

const (
	maxCases  = 48
	maxCases2 = 48
	maxWork   = 100000 // assertions simplified
)

// caseQueries gives the assertion sets that must all be contradictory for base to
// be contradictory.
func caseQueries(base []*Term, fuel int) [][]*Term {
	work := maxWork
	cases, ok := splitCases(base, maxCases, false, &work)
	if !ok {
		cases = [][]*Term{base}
	}
	var out [][]*Term
	for _, c := range cases {
		full := instantiate(c, fuel)
		sub, ok := splitCases(full, maxCases2, false, &work)
		if !ok {
			out = append(out, full)
			continue
		}
		out = append(out, sub...)
	}
	return out
}
