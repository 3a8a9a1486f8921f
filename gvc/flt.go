package main

import (
	"fmt"
	"math"
	"math/big"
)

func mustBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	minInt64 = mustBig("-9223372036854775808")
	maxInt64 = mustBig("9223372036854775807")
	two64    = mustBig("18446744073709551616")
)

func fltT(f float64) *Term {
	bits := math.Float64bits(f)
	s := (bits >> 63) & 1
	e := (bits >> 52) & 0x7ff
	m := bits & (1<<52 - 1)
	return mkN("fltlit", fmt.Sprintf("(fp #b%b #b%011b #b%052b)", s, e, m), SFlt)
}

var tRNE = mkN("fltlit", "RNE", "RoundingMode")

func fltOp(op string, a, b *Term) *Term {
	switch op {
	case "fp.lt", "fp.leq", "fp.eq":
		return mk(op, SBool, a, b)
	}
	return mk(op, SFlt, tRNE, a, b)
}
