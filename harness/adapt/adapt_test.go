package adapt

import (
	"github.com/consensys/gnark/frontend"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
	"testing"
	"time"
	"vharness/eng"
	"vharness/prover"
	"vharness/ref"
)

func TestReal(t *testing.T) {
	for _, d := range []string{"step", "decode_block"} {
		c, p, err := LoadReal("/repo/testdata/" + d)
		if err != nil {
			t.Fatal(err)
		}
		t0 := time.Now()
		t.Log(d, ref.Verify(c, p), time.Since(t0))
		for _, g := range c.Gates {
			t.Log(g.ID())
		}
		t.Logf("%+v", c.Groups)
	}
}

func TestMini(t *testing.T) {
	for i, gs := range [][]ref.Gate{
		{ref.NoopGate{}, ref.PublicInputGate{}, ref.ConstantGate{2}, ref.ArithmeticGate{3}},
		{ref.NoopGate{}, ref.PublicInputGate{}, ref.ConstantGate{2}, ref.ArithmeticGate{3}, ref.ArithmeticExtGate{2}, ref.MulExtGate{2}, ref.BaseSumGate{8, 2}, ref.CosetInterpGate{2, 3},
			ref.ExpGate{5}, ref.RandomAccessGate{2, 2, 2}, ref.ReducingGate{4}, ref.ReducingExtGate{3}, ref.PoseidonMdsGate{}, ref.PoseidonGate{}},
	} {
		t0 := time.Now()
		ci := prover.Build(prover.Params{Gates: gs, DegreeBits: 5, RateBits: 3, PowBits: 16, Queries: 3, Arity: []int{4}, QDF: 8, NumChallenges: 2, NumPI: 3, Copies: 20}, int64(i+1))
		t1 := time.Now()
		p := ci.Prove(nil)
		t2 := time.Now()
		f := ref.Verify(ci.C, p)
		t.Log(f, t1.Sub(t0), t2.Sub(t1), time.Since(t2), ci.Copies)
		t3 := time.Now()
		e := eng.NewNative()
		r := e.Run(func(api frontend.API) error {
			v := verifier.NewVerifierChip(api, Common(ci.C))
			a, b, c := Proof(p, Wire)
			v.Verify(a, b, c)
			return nil
		})
		t.Log(r, time.Since(t3))
	}
}
