package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/eng"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

func rangeQE(t *chk.T) {
	one := big.NewInt(1)
	bad := []*big.Int{new(big.Int).Set(eng.P), new(big.Int).Add(eng.P, one), new(big.Int).SetUint64(^uint64(0)), new(big.Int).Lsh(one, 64), new(big.Int).Sub(eng.R, one)}
	good := []*big.Int{new(big.Int), one, new(big.Int).Sub(eng.P, one), new(big.Int).Lsh(one, 32)}
	job := func(a, b *big.Int, rej bool) wl.Job {
		return wl.Job{Name: fmt.Sprintf("rangecheckqe_%v", rej), In: fmt.Sprint(a, b), Reject: rej, Want: []*big.Int{}, Prog: func(api frontend.API) []frontend.Variable {
			gl.New(api).RangeCheckQE(gl.QuadraticExtensionVariable{gl.NewVariable(eng.Var(a)), gl.NewVariable(eng.Var(b))})
			return nil
		}}
	}
	for _, m := range wl.Modes {
		for _, g := range good {
			for _, h := range good {
				wl.Honest(t, m, job(g, h, false))
			}
			for _, b := range bad {
				wl.Honest(t, m, job(g, b, true))
				wl.Honest(t, m, job(b, g, true))
				wl.Attack(t, "native", job(b, g, true), 4)
				wl.Attack(t, "native", job(g, b, true), 4)
			}
		}
	}
}
