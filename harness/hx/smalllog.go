package hx

import (
	"math/big"
	"sync"
)

// babies are the first powers of a base, for searching exponents.
type babies struct {
	n    int64
	at   map[uint64]int64
	back *big.Int // base^-n
}

func newBabies(base *big.Int, n int64) *babies {
	b := &babies{n: n, at: make(map[uint64]int64, n)}
	x := big.NewInt(1)
	for i := int64(0); i < n; i++ {
		b.at[low(x)] = i
		x = x.Mod(new(big.Int).Mul(x, base), P)
	}
	b.back = Inv(x)
	return b
}

func low(x *big.Int) uint64 { return new(big.Int).And(x, mask64).Uint64() }

var (
	mask64   = new(big.Int).SetUint64(^uint64(0))
	genOnce  sync.Once
	genSmall *babies
)

// SmallLog searches an exponent of less than about bits bits (of either sign) that makes
// y of base: somebody with as many steps to spend as this takes would find it too. The
// cost is about 2^(bits/2) multiplications, three times.
func SmallLog(base, y *big.Int, bits int) (*big.Int, bool) {
	n := int64(1) << uint(bits/2)
	var b *babies
	if base.Cmp(Gen) == 0 && bits <= 40 {
		genOnce.Do(func() { genSmall = newBabies(Gen, 1<<16) })
		b = genSmall
		n = int64(1) << uint(bits) / b.n
		if n == 0 {
			n = 1
		}
	} else {
		b = newBabies(base, n)
	}
	for _, neg := range []bool{false, true} {
		x := new(big.Int).Set(y)
		if neg {
			x = Inv(y)
		}
		for i := int64(0); i < n; i++ {
			if j, ok := b.at[low(x)]; ok {
				e := big.NewInt(i*b.n + j)
				if neg {
					e.Neg(e)
				}
				if Exp(base, e).Cmp(y) == 0 {
					return e, true
				}
			}
			x = x.Mod(new(big.Int).Mul(x, b.back), P)
		}
	}
	return nil, false
}
