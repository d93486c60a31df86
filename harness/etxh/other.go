package main

import (
	"math/big"
)

func near(a, b *big.Rat) bool {
	d := new(big.Rat).Sub(a, b)
	if a.Sign() == 0 {
		return d.Sign() == 0
	}
	d.Quo(d.Abs(d), new(big.Rat).Abs(a))
	return d.Cmp(new(big.Rat).SetFrac(big.NewInt(1), big.NewInt(1<<50))) < 0
}
