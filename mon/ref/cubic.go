package ref

import "math/big"

// LiftY returns a curve point with the given y coordinate, if there is one: a root of x^3 + ax + b - y^2.
func LiftY(y *big.Int) (Pt, bool) {
	c := new(big.Int).Mul(y, y)
	c.Sub(B, c)
	mod(c)
	f := poly{c, new(big.Int).Set(A), new(big.Int), big.NewInt(1)}
	// gcd(X^p - X, f) is the product of the linear factors.
	g := powMod(poly{new(big.Int), big.NewInt(1)}, P, f)
	g = gcd(f, g.sub(poly{new(big.Int), big.NewInt(1)}))
	for s := int64(0); len(g) > 2; s++ {
		e := new(big.Int).Rsh(P, 1)
		h := powMod(poly{big.NewInt(s), big.NewInt(1)}, e, g)
		h = gcd(g, h.sub(poly{big.NewInt(1)}))
		if len(h) > 1 && len(h) < len(g) {
			g = h
		}
		if s > 200 {
			return Pt{}, false
		}
	}
	if len(g) != 2 {
		return Pt{}, false
	}
	x := new(big.Int).ModInverse(g[1], P)
	x.Mul(x, g[0])
	x.Neg(x)
	mod(x)
	if !OnCurve(x, y) {
		return Pt{}, false
	}
	return Pt{X: x, Y: new(big.Int).Set(y)}, true
}

type poly []*big.Int

func (a poly) trim() poly {
	for len(a) > 0 && a[len(a)-1].Sign() == 0 {
		a = a[:len(a)-1]
	}
	return a
}

func (a poly) sub(b poly) poly {
	out := make(poly, max(len(a), len(b)))
	for i := range out {
		out[i] = new(big.Int)
		if i < len(a) {
			out[i].Set(a[i])
		}
		if i < len(b) {
			out[i].Sub(out[i], b[i])
		}
		mod(out[i])
	}
	return out.trim()
}

func (a poly) rem(f poly) poly {
	r := make(poly, len(a))
	for i := range a {
		r[i] = new(big.Int).Set(a[i])
	}
	r = r.trim()
	inv := new(big.Int).ModInverse(f[len(f)-1], P)
	for len(r) >= len(f) {
		q := new(big.Int).Mul(r[len(r)-1], inv)
		mod(q)
		o := len(r) - len(f)
		for i := range f {
			t := new(big.Int).Mul(q, f[i])
			r[o+i].Sub(r[o+i], t)
			mod(r[o+i])
		}
		r = r.trim()
	}
	return r
}

func mulMod(a, b, f poly) poly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	out := make(poly, len(a)+len(b)-1)
	for i := range out {
		out[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			out[i+j].Add(out[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	for i := range out {
		mod(out[i])
	}
	return out.trim().rem(f)
}

func powMod(b poly, e *big.Int, f poly) poly {
	r := poly{big.NewInt(1)}
	b = b.rem(f)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = mulMod(r, r, f)
		if e.Bit(i) == 1 {
			r = mulMod(r, b, f)
		}
	}
	return r
}

func gcd(a, b poly) poly {
	for len(b) > 0 {
		a, b = b, a.rem(b)
	}
	return a
}
