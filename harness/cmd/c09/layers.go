package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
)

// The layers over the extension (used by the Poseidon gate): each is compared
// with its definition; the optimised partial layers are covered by the Poseidon
// gate of C15.
func layers(c *chk.Check) {
	n := 30
	if c.Thorough {
		n = 1500
	}
	type st = [12]ref.Ext
	job := func(name string, s st, want []ref.Ext, f func(p *poseidon.GoldilocksChip, s poseidon.GoldilocksStateExtension) poseidon.GoldilocksStateExtension) wl.Job {
		var w []*big.Int
		for _, x := range want {
			w = append(w, wl.B(x[0]), wl.B(x[1]))
		}
		return wl.Job{Name: name, In: fmt.Sprint(s), Want: w, Prog: func(api frontend.API) (o []frontend.Variable) {
			var in poseidon.GoldilocksStateExtension
			for i := range s {
				in[i] = wl.InX(s[i], false)
			}
			for _, v := range f(poseidon.NewGoldilocksChip(api), in) {
				o = append(o, v[0].Limb, v[1].Limb)
			}
			return
		}}
	}
	sbox := func(x ref.Ext) ref.Ext { return x.Exp(7) }
	for ch := 0; ch < 8; ch++ {
		c.Case(fmt.Sprintf("layers/%d", ch), func(t *chk.T) {
			for k := 0; k < n; k++ {
				var s st
				base := k%3 == 0
				for i := range s {
					s[i] = wl.Ext(t.R)
					if base {
						s[i][1] = 0
					}
				}
				r := t.R.Intn(30)
				if k < 30 {
					r = k
				}
				w := s
				for i := range w {
					w[i] = w[i].Add(ref.E(ref.RC(r, i)))
				}
				j := []wl.Job{job("constant", s, w[:], func(p *poseidon.GoldilocksChip, s poseidon.GoldilocksStateExtension) poseidon.GoldilocksStateExtension {
					rr := r
					return p.ConstantLayerExtension(s, &rr)
				})}
				w = s
				for i := range w {
					w[i] = sbox(w[i])
				}
				j = append(j, job("sbox", s, w[:], func(p *poseidon.GoldilocksChip, s poseidon.GoldilocksStateExtension) poseidon.GoldilocksStateExtension {
					return p.SBoxLayerExtension(s)
				}))
				w = s
				ref.MdsExt(&w)
				j = append(j, job("mds", s, w[:], func(p *poseidon.GoldilocksChip, s poseidon.GoldilocksStateExtension) poseidon.GoldilocksStateExtension {
					return p.MdsLayerExtension(s)
				}))
				for _, x := range j {
					if _, ok := wl.Honest(t, "native", x); ok {
						t.OK("layer:" + x.Name)
					}
				}
				if k == 0 && ch < 3 {
					wl.Attack(t, "native", j[ch], 4)
				}
			}
		})
	}
}
