package main

// Facts and intervals: a cheap decision layer in front of the solver.

// ---- trail ----

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		t := &m.trail[i]
		if t.cell != nil {
			*t.cell = t.old
		} else {
			t.undo()
		}
		*t = trailEntry{}
	}
	m.trail = m.trail[:n]
}

func (m *Machine) onUndo(f func()) { m.trail = append(m.trail, trailEntry{undo: f}) }

// ---- facts and intervals ----

func (m *Machine) setFact(e *Expr, v int8) {
	if e.isConst() {
		return
	}
	if _, ok := m.facts[e.id]; !ok {
		m.facts[e.id] = v
	}
}

func (m *Machine) setIval(e *Expr, n iv) { m.ivals[e.id] = n }

// learn records the consequences of e being v, without asserting it.
func (m *Machine) learn(e *Expr, v bool) {
	switch e.op {
	case OConst:
		return
	case ONot:
		m.learn(e.a, !v)
		return
	case OAnd:
		if v {
			m.learn(e.a, true)
			m.learn(e.b, true)
		}
	case OOr:
		if !v {
			m.learn(e.a, false)
			m.learn(e.b, false)
		}
	}
	if v {
		m.setFact(e, 1)
	} else {
		m.setFact(e, 0)
	}
	switch e.op {
	case OEq:
		if e.a.w > 0 && e.b.isConst() {
			if v {
				m.refine(e.a, e.b.c, e.b.c)
			} else {
				r := m.rng(e.a)
				if r.lo == e.b.c && r.lo < r.hi {
					m.refine(e.a, r.lo+1, r.hi)
				} else if r.hi == e.b.c && r.lo < r.hi {
					m.refine(e.a, r.lo, r.hi-1)
				}
			}
		}
	case OULt:
		ra, rb := m.rng(e.a), m.rng(e.b)
		if v {
			if rb.hi > 0 {
				m.refine(e.a, 0, rb.hi-1)
			}
			if ra.lo < mask(e.b.w) {
				m.refine(e.b, ra.lo+1, mask(e.b.w))
			}
		} else { // a >= b
			m.refine(e.a, rb.lo, mask(e.a.w))
			m.refine(e.b, 0, ra.hi)
		}
	case OSLt:
		half := uint64(1) << (e.a.w - 1)
		ra, rb := m.rng(e.a), m.rng(e.b)
		if v {
			if ra.hi < half { // a non-negative, so b is too
				m.refine(e.b, ra.lo+1, half-1)
				if rb.hi < half {
					m.refine(e.a, 0, rb.hi-1)
				}
			}
		} else { // a >= b
			if rb.hi < half {
				m.refine(e.a, rb.lo, half-1)
			}
		}
	}
}

func (m *Machine) refine(e *Expr, lo, hi uint64) {
	if e.isConst() {
		return
	}
	r := m.rng(e)
	if lo < r.lo {
		lo = r.lo
	}
	if hi > r.hi {
		hi = r.hi
	}
	if lo > hi || (lo == r.lo && hi == r.hi) {
		return
	}
	m.setIval(e, iv{lo, hi})
	switch e.op {
	case OZExt:
		m.refine(e.a, lo, hi)
	case OAdd:
		if e.b.isConst() {
			ra := m.rng(e.a)
			k := e.b.c
			if ra.hi+k >= ra.hi && ra.hi+k <= mask(e.w) && lo >= k {
				m.refine(e.a, lo-k, hi-k)
			}
		}
	}
}

func bitlenMask(v uint64) uint64 {
	for i := uint(1); i < 64; i <<= 1 {
		v |= v >> i
	}
	return v
}

// rng is the unsigned interval of e under the current facts.
func (m *Machine) rng(e *Expr) iv { return m.rngD(e, 12) }

func (m *Machine) rngD(e *Expr, d int) iv {
	if e.isConst() {
		return iv{e.c, e.c}
	}
	r := iv{0, mask(e.w)}
	if d > 0 && e.op != OVar {
		switch e.op {
		case OZExt:
			r = m.rngD(e.a, d-1)
		case OBAnd:
			if e.b.isConst() {
				x := m.rngD(e.a, d-1)
				k := e.b.c
				if k&(k+1) == 0 && x.lo&^k == x.hi&^k { // low mask, same high part
					r = iv{x.lo & k, x.hi & k}
				} else {
					r.hi = k
					if x.hi < k {
						r.hi = x.hi
					}
				}
			} else {
				x, y := m.rngD(e.a, d-1), m.rngD(e.b, d-1)
				r.hi = x.hi
				if y.hi < r.hi {
					r.hi = y.hi
				}
			}
		case OBOr:
			x, y := m.rngD(e.a, d-1), m.rngD(e.b, d-1)
			r.lo = x.lo
			if y.lo > r.lo {
				r.lo = y.lo
			}
			r.hi = bitlenMask(x.hi | y.hi)
			if x.hi+y.hi >= x.hi && x.hi+y.hi < r.hi {
				r.hi = x.hi + y.hi
			}
		case OShl:
			if e.b.isConst() && e.b.c < 64 {
				x := m.rngD(e.a, d-1)
				if x.hi <= mask(e.w)>>e.b.c {
					r = iv{x.lo << e.b.c, x.hi << e.b.c}
				}
			}
		case OLShr:
			if e.b.isConst() && e.b.c < 64 {
				x := m.rngD(e.a, d-1)
				r = iv{x.lo >> e.b.c, x.hi >> e.b.c}
			}
		case OAdd:
			x, y := m.rngD(e.a, d-1), m.rngD(e.b, d-1)
			if x.hi+y.hi >= x.hi && x.hi+y.hi <= mask(e.w) {
				r = iv{x.lo + y.lo, x.hi + y.hi}
			} else if e.b.isConst() { // adding a negative constant
				k := (^e.b.c + 1) & mask(e.w)
				if x.lo >= k {
					r = iv{x.lo - k, x.hi - k}
				}
			}
		case OSub:
			x, y := m.rngD(e.a, d-1), m.rngD(e.b, d-1)
			if x.lo >= y.hi {
				r = iv{x.lo - y.hi, x.hi - y.lo}
			}
		case OTrunc:
			x := m.rngD(e.a, d-1)
			if x.hi <= mask(e.w) {
				r = x
			}
		case OSExt:
			x := m.rngD(e.a, d-1)
			if x.hi < uint64(1)<<(e.a.w-1) {
				r = x
			}
		case OIte:
			switch m.known(e.a) {
			case 1:
				r = m.rngD(e.b, d-1)
			case 0:
				r = m.rngD(e.d, d-1)
			default:
				x, y := m.rngD(e.b, d-1), m.rngD(e.d, d-1)
				r = x
				if y.lo < r.lo {
					r.lo = y.lo
				}
				if y.hi > r.hi {
					r.hi = y.hi
				}
			}
		case OURem:
			if e.b.isConst() && e.b.c > 0 {
				r.hi = e.b.c - 1
			}
		}
	}
	if f, ok := m.ivals[e.id]; ok {
		if f.lo > r.lo {
			r.lo = f.lo
		}
		if f.hi < r.hi {
			r.hi = f.hi
		}
	}
	return r
}

// known decides e from facts and intervals: 1, 0 or -1.
func (m *Machine) known(e *Expr) int { return m.knownD(e, 8) }

func (m *Machine) knownD(e *Expr, d int) int {
	if e.isConst() {
		return int(e.c)
	}
	if v, ok := m.facts[e.id]; ok {
		return int(v)
	}
	if d == 0 {
		return -1
	}
	switch e.op {
	case ONot:
		if k := m.knownD(e.a, d); k >= 0 {
			return 1 - k
		}
	case OAnd:
		a := m.knownD(e.a, d-1)
		if a == 0 {
			return 0
		}
		b := m.knownD(e.b, d-1)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OOr:
		a := m.knownD(e.a, d-1)
		if a == 1 {
			return 1
		}
		b := m.knownD(e.b, d-1)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case OEq:
		if e.a.w > 0 {
			x, y := m.rng(e.a), m.rng(e.b)
			if x.hi < y.lo || y.hi < x.lo {
				return 0
			}
			if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo {
				return 1
			}
		}
	case OULt:
		x, y := m.rng(e.a), m.rng(e.b)
		if x.hi < y.lo {
			return 1
		}
		if x.lo >= y.hi {
			return 0
		}
	case OSLt:
		half := uint64(1) << (e.a.w - 1)
		x, y := m.rng(e.a), m.rng(e.b)
		xs, ys := x.hi < half, y.hi < half
		if xs && ys {
			if x.hi < y.lo {
				return 1
			}
			if x.lo >= y.hi {
				return 0
			}
		} else if xs && y.lo >= half {
			return 0
		} else if ys && x.lo >= half {
			return 1
		} else if x.lo >= half && y.lo >= half {
			if x.hi < y.lo {
				return 1
			}
			if x.lo >= y.hi {
				return 0
			}
		}
	case OIte:
		switch m.knownD(e.a, d-1) {
		case 1:
			return m.knownD(e.b, d-1)
		case 0:
			return m.knownD(e.d, d-1)
		}
	}
	return -1
}

// addLit asserts e on the path (the caller knows it is feasible).
func (m *Machine) addLit(e *Expr) {
	if e.isConst() {
		return
	}
	if e.op == OAnd {
		m.addLit(e.a)
		m.addLit(e.b)
		return
	}
	if v, ok := m.facts[e.id]; ok && v == 1 {
		return
	}
	m.lits = append(m.lits, e)
	m.learn(e, true)
}
