package hx

import ("testing"; "math/big"; "time")

func TestSmallLog(t *testing.T) {
	h := Exp(Gen, big.NewInt(77777))
	for _, b := range []*big.Int{Gen, h} {
		for _, e := range []int64{0, 1, -1, 65535, 65536, 1<<30 + 5, -(1 << 29)} {
			t0 := time.Now()
			k, ok := SmallLog(b, Exp(b, big.NewInt(e)), 32)
			if !ok || k.Int64() != e { t.Fatal(e, k, ok) }
			t.Log(time.Since(t0))
		}
		t0 := time.Now()
		if k, ok := SmallLog(b, Exp(b, big.NewInt(0).Lsh(big.NewInt(3), 300)), 32); ok { t.Fatal(k) }
		t.Log(time.Since(t0))
	}
}
