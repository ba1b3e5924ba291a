package main

// A small exact simplex over the rationals (Dutertre & de Moura's general
// form) deciding feasibility of linear constraints: the polyhedral part of the
// abstract domain. Where 64 bits do not suffice it starts again with big
// numbers; too many pivots answer "feasible" (no fact).

import "math/big"

type rat struct{ n, d int64 }

type ovf struct{}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

const lim = int64(1) << 62

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || c > lim || c < -lim {
		panic(ovf{})
	}
	return c
}
func add64(a, b int64) int64 {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) || c > lim || c < -lim {
		panic(ovf{})
	}
	return c
}
func mkrat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd64(n, d)
	n, d = n/g, d/g
	if d < 0 {
		n, d = -n, -d
	}
	return rat{n, d}
}
func (a rat) add(b rat) rat {
	if a.n == 0 {
		return b
	}
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		return rat{add64(a.n, b.n), 1}
	}
	return mkrat(add64(mul64(a.n, b.d), mul64(b.n, a.d)), mul64(a.d, b.d))
}
func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mul64(a.n, b.n), 1}
	}
	g1, g2 := gcd64(a.n, b.d), gcd64(b.n, a.d)
	return mkrat(mul64(a.n/g1, b.n/g2), mul64(a.d/g2, b.d/g1))
}
func (a rat) neg() rat { return rat{-a.n, a.d} }
func (a rat) inv() rat { return mkrat(a.d, a.n) }
func (a rat) cmp(b rat) int {
	l, r := mul64(a.n, b.d), mul64(b.n, a.d)
	if l < r {
		return -1
	}
	if l > r {
		return 1
	}
	return 0
}

// drat is a rational plus an infinitesimal, for strict bounds.
type drat struct{ a, e rat }

func (x drat) add(y drat) drat { return drat{x.a.add(y.a), x.e.add(y.e)} }
func (x drat) scale(c rat) drat {
	return drat{x.a.mul(c), x.e.mul(c)}
}
func (x drat) cmp(y drat) int {
	if c := x.a.cmp(y.a); c != 0 {
		return c
	}
	return x.e.cmp(y.e)
}

type linCon struct {
	co     map[int]rat
	c      rat // constant: sum co*x + c >= 0 (or > 0)
	strict bool
}

func toRat(r *big.Rat) (rat, bool) {
	if !r.Num().IsInt64() || !r.Denom().IsInt64() {
		return rat{}, false
	}
	n, d := r.Num().Int64(), r.Denom().Int64()
	if n > 1<<40 || n < -(1<<40) || d > 1<<40 {
		return rat{}, false
	}
	return rat{n, d}, true
}

// feasible reports whether the constraints have a real solution.
func feasible(cons []linCon, nv int) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ovf); ok {
				res = feasibleBig(cons, nv)
				return
			}
			panic(r)
		}
	}()
	m := len(cons)
	// rows: slack i = sum a_ij x_j ; bound slack >= b_i
	zero := rat{0, 1}
	tot := nv + m
	tab := make([][]rat, m) // basic row over all nonbasic columns (dense over tot)
	basic := make([]int, m)
	low := make([]*drat, tot)
	val := make([]drat, tot)
	for i := range val {
		val[i] = drat{zero, zero}
	}
	rowOf := make([]int, tot)
	for i := range rowOf {
		rowOf[i] = -1
	}
	for i, c := range cons {
		row := make([]rat, tot)
		for j := range row {
			row[j] = zero
		}
		for v, a := range c.co {
			row[v] = a
		}
		tab[i] = row
		basic[i] = nv + i
		rowOf[nv+i] = i
		b := drat{c.c.neg(), zero}
		if c.strict {
			b.e = rat{1, 1}
		}
		low[nv+i] = &b
	}
	for iter := 0; iter < 2000; iter++ {
		// smallest violating basic variable
		r := -1
		for i := 0; i < m; i++ {
			bv := basic[i]
			if low[bv] != nil && val[bv].cmp(*low[bv]) < 0 {
				if r < 0 || bv < basic[r] {
					r = i
				}
			}
		}
		if r < 0 {
			return true
		}
		bv := basic[r]
		// need to increase bv: nonbasic x_j with coef>0 can increase freely; coef<0 needs to decrease (slack must stay above low)
		col := -1
		for j := 0; j < tot; j++ {
			if rowOf[j] >= 0 || tab[r][j].n == 0 {
				continue
			}
			if tab[r][j].n > 0 || low[j] == nil || val[j].cmp(*low[j]) > 0 {
				col = j
				break
			}
		}
		if col < 0 {
			return false
		}
		a := tab[r][col]
		theta := low[bv].add(val[bv].scale(rat{-1, 1})).scale(a.inv())
		// update values
		val[bv] = *low[bv]
		val[col] = val[col].add(theta)
		for i := 0; i < m; i++ {
			if i != r && tab[i][col].n != 0 {
				val[basic[i]] = val[basic[i]].add(theta.scale(tab[i][col]))
			}
		}
		// pivot
		inv := a.inv()
		nrow := make([]rat, tot)
		for j := 0; j < tot; j++ {
			if j == col || rowOf[j] >= 0 && j != bv {
				nrow[j] = zero
				continue
			}
			nrow[j] = tab[r][j].mul(inv).neg()
		}
		nrow[bv] = inv
		nrow[col] = zero
		for i := 0; i < m; i++ {
			if i == r {
				continue
			}
			k := tab[i][col]
			if k.n == 0 {
				continue
			}
			for j := 0; j < tot; j++ {
				if nrow[j].n != 0 {
					tab[i][j] = tab[i][j].add(k.mul(nrow[j]))
				}
			}
			tab[i][col] = zero
		}
		tab[r] = nrow
		basic[r] = col
		rowOf[col] = r
		rowOf[bv] = -1
	}
	return true
}

var ratZero = new(big.Rat)

func inv(r *big.Rat) *big.Rat  { return new(big.Rat).Inv(r) }
func neg1(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }

type brat struct{ *big.Rat }

func bigOf(a rat) brat         { return brat{big.NewRat(a.n, a.d)} }
func (a brat) add(b brat) brat { return brat{new(big.Rat).Add(a.Rat, b.Rat)} }
func (a brat) mul(b brat) brat { return brat{new(big.Rat).Mul(a.Rat, b.Rat)} }
func (a brat) neg() brat       { return brat{new(big.Rat).Neg(a.Rat)} }
func (a brat) inv() brat       { return brat{new(big.Rat).Inv(a.Rat)} }
func (a brat) cmp(b brat) int  { return a.Rat.Cmp(b.Rat) }

type bdrat struct{ a, e brat }

func (x bdrat) add(y bdrat) bdrat  { return bdrat{x.a.add(y.a), x.e.add(y.e)} }
func (x bdrat) scale(c brat) bdrat { return bdrat{x.a.mul(c), x.e.mul(c)} }
func (x bdrat) cmp(y bdrat) int {
	if c := x.a.cmp(y.a); c != 0 {
		return c
	}
	return x.e.cmp(y.e)
}

// feasibleBig is feasible with numbers of any size.
func feasibleBig(cons []linCon, nv int) (res bool) {
	m := len(cons)
	// rows: slack i = sum a_ij x_j ; bound slack >= b_i
	zero := brat{new(big.Rat)}
	tot := nv + m
	tab := make([][]brat, m) // basic row over all nonbasic columns (dense over tot)
	basic := make([]int, m)
	low := make([]*bdrat, tot)
	val := make([]bdrat, tot)
	for i := range val {
		val[i] = bdrat{zero, zero}
	}
	rowOf := make([]int, tot)
	for i := range rowOf {
		rowOf[i] = -1
	}
	for i, c := range cons {
		row := make([]brat, tot)
		for j := range row {
			row[j] = zero
		}
		for v, a := range c.co {
			row[v] = bigOf(a)
		}
		tab[i] = row
		basic[i] = nv + i
		rowOf[nv+i] = i
		b := bdrat{bigOf(c.c).neg(), zero}
		if c.strict {
			b.e = brat{big.NewRat(1, 1)}
		}
		low[nv+i] = &b
	}
	for iter := 0; iter < 2000; iter++ {
		// smallest violating basic variable
		r := -1
		for i := 0; i < m; i++ {
			bv := basic[i]
			if low[bv] != nil && val[bv].cmp(*low[bv]) < 0 {
				if r < 0 || bv < basic[r] {
					r = i
				}
			}
		}
		if r < 0 {
			return true
		}
		bv := basic[r]
		// need to increase bv: nonbasic x_j with coef>0 can increase freely; coef<0 needs to decrease (slack must stay above low)
		col := -1
		for j := 0; j < tot; j++ {
			if rowOf[j] >= 0 || tab[r][j].Sign() == 0 {
				continue
			}
			if tab[r][j].Sign() > 0 || low[j] == nil || val[j].cmp(*low[j]) > 0 {
				col = j
				break
			}
		}
		if col < 0 {
			return false
		}
		a := tab[r][col]
		theta := low[bv].add(val[bv].scale(brat{big.NewRat(-1, 1)})).scale(a.inv())
		// update values
		val[bv] = *low[bv]
		val[col] = val[col].add(theta)
		for i := 0; i < m; i++ {
			if i != r && tab[i][col].Sign() != 0 {
				val[basic[i]] = val[basic[i]].add(theta.scale(tab[i][col]))
			}
		}
		// pivot
		inv := a.inv()
		nrow := make([]brat, tot)
		for j := 0; j < tot; j++ {
			if j == col || rowOf[j] >= 0 && j != bv {
				nrow[j] = zero
				continue
			}
			nrow[j] = tab[r][j].mul(inv).neg()
		}
		nrow[bv] = inv
		nrow[col] = zero
		for i := 0; i < m; i++ {
			if i == r {
				continue
			}
			k := tab[i][col]
			if k.Sign() == 0 {
				continue
			}
			for j := 0; j < tot; j++ {
				if nrow[j].Sign() != 0 {
					tab[i][j] = tab[i][j].add(k.mul(nrow[j]))
				}
			}
			tab[i][col] = zero
		}
		tab[r] = nrow
		basic[r] = col
		rowOf[col] = r
		rowOf[bv] = -1
	}
	return true
}
