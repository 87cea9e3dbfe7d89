// C05: base field arithmetic is exact, canonical and satisfiable.
package main

import (
	"fmt"
	"math/big"

	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

func main() {
	chk.Main(chk.Opt{ID: "C05", Level: "exploration",
		Rule:        "one evaluation = one execution of a real base field operation (or constant/root/subgroup computation) by the honest prover in the monitor engine whose every constraint was checked and whose output was compared with math/big style reference arithmetic; distinct = operation x range check mode x structure",
		Assumptions: []string{"the monitor engine evaluates the constraint API as gnark's builders define it (cross-checked against R1CS and SCS by C20)"},
		Need:        []string{"honest:native:", "honest:bits:", "honest:commit:", "root", "subgroup"}}, run)
}

func run(c *chk.Check) {
	nr := 60
	if c.Thorough {
		nr = 6000
	}
	for i := range wl.BaseOps {
		op := &wl.BaseOps[i]
		for _, mode := range wl.Modes {
			c.Case(fmt.Sprintf("op/%s/%s", op.Name, mode), func(t *chk.T) {
				var js []wl.Job
				flush := func() { wl.HonestBatch(t, mode, js); js = nil }
				add := func(x []uint64) {
					js = append(js, wl.BaseJob(op, x, uint(t.R.Intn(1<<uint(op.Arity)))))
					if len(js) == 100 {
						flush()
					}
				}
				dom := wl.Edge
				if op.Arity > 2 || mode == "bits" {
					dom = wl.Core
				}
				if op.Arity <= 3 {
					n := 1
					for k := 0; k < op.Arity; k++ {
						n *= len(dom)
					}
					for k := 0; k < n; k++ {
						x := make([]uint64, op.Arity)
						for a, kk := 0, k; a < op.Arity; a, kk = a+1, kk/len(dom) {
							x[a] = dom[kk%len(dom)]
						}
						// all constant / variable combinations of the operands for small arities
						if mode == "native" && op.Arity <= 2 {
							for m := uint(0); m < 1<<uint(op.Arity); m++ {
								js = append(js, wl.BaseJob(op, x, m))
							}
						}
						add(x)
					}
				}
				for k := 0; k < nr; k++ {
					x := make([]uint64, op.Arity)
					for a := range x {
						x[a] = wl.Pick(t.R)
					}
					add(x)
					// operands whose result is at a boundary
					if op.Arity >= 2 {
						y := append([]uint64(nil), x...)
						e := wl.Edge[t.R.Intn(len(wl.Edge))]
						switch t.R.Intn(3) {
						case 0:
							y[1] = ref.Sub(e, y[0])
						case 1:
							y[1] = ref.Sub(y[0], e)
						default:
							if y[0] != 0 {
								y[1] = ref.Mul(e, ref.Inv(y[0]))
							}
						}
						add(y)
					}
				}
				flush()
			})
		}
	}
	// reductions of arbitrary integers below the documented bound
	for _, mode := range wl.Modes {
		c.Case("reduce/"+mode, func(t *chk.T) {
			var js []wl.Job
			one := big.NewInt(1)
			widths := []int{0, 0, 16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176}
			for w := 1; w < 189; w++ {
				widths = append(widths, w)
			}
			for wi, w := range widths {
				b := uint(w)
				if w == 0 {
					b = 144
				}
				top := new(big.Int).Lsh(eng.P, b) // P * 2^b
				xs := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(top, one), new(big.Int).Sub(top, eng.P), new(big.Int).Set(eng.P), new(big.Int).Sub(eng.P, one), new(big.Int).Set(top), new(big.Int).Add(top, one), new(big.Int).Lsh(top, 1)}
				for k := 0; k < 4+nr/60; k++ {
					x := new(big.Int).Rand(t.R, new(big.Int).Lsh(one, uint(1+t.R.Intn(int(b)+63))))
					xs = append(xs, x)
					x = new(big.Int).Rand(t.R, new(big.Int).Lsh(one, uint(1+t.R.Intn(int(b)))))
					x.Mul(x, eng.P)
					xs = append(xs, x, new(big.Int).Add(x, one))
					if x.Sign() > 0 {
						xs = append(xs, new(big.Int).Sub(x, one))
					}
				}
				for _, x := range xs {
					if x.Cmp(eng.R) < 0 {
						js = append(js, wl.ReduceJob(x, w))
					}
				}
				if wi%20 == 19 {
					wl.HonestBatch(t, mode, js)
					js = nil
				}
			}
			wl.HonestBatch(t, mode, js)
		})
	}
	// commit mode: all results of a long computation, range checks deferred
	for k := 0; k < 3; k++ {
		c.Case(fmt.Sprintf("commit/%d", k), func(t *chk.T) {
			var js []wl.Job
			for n := 0; n < 14000; n++ {
				op := &wl.BaseOps[t.R.Intn(len(wl.BaseOps))]
				x := make([]uint64, op.Arity)
				for a := range x {
					x[a] = wl.Pick(t.R)
				}
				js = append(js, wl.BaseJob(op, x, uint(t.R.Intn(1<<uint(op.Arity)))))
			}
			wl.HonestBatch(t, "commit", js)
		})
	}
	// constants, roots of unity, subgroups
	c.Case("constants", func(t *chk.T) {
		e := eng.NewNative()
		e.Run(func(api frontend.API) error {
			for _, x := range []struct {
				n string
				v gl.Variable
				w uint64
			}{{"zero", gl.Zero(), 0}, {"one", gl.One(), 1}, {"negone", gl.NegOne(), ref.P - 1}} {
				if g := e.Get(x.v.Limb); g.Cmp(wl.B(x.w)) != 0 {
					t.Fail("constant %s is %v", x.n, g)
				}
				t.OK("constant:" + x.n)
			}
			return nil
		})
		if gl.MODULUS.Cmp(eng.P) != 0 {
			t.Fail("modulus %v", gl.MODULUS)
		}
		// the generator of the multiplicative group: order exactly p-1
		g := gl.MULTIPLICATIVE_GROUP_GENERATOR.Uint64()
		for _, q := range []uint64{2, 3, 5, 17, 257, 65537} {
			if ref.Exp(g, (ref.P-1)/q) == 1 {
				t.Fail("the multiplicative generator %d lies in a subgroup of index %d", g, q)
			}
			t.OK(fmt.Sprintf("constant:generator%d", q))
		}
	})
	for n := uint64(0); n <= 32; n++ {
		n := n
		c.Case(fmt.Sprintf("root/%d", n), func(t *chk.T) {
			r := gl.PrimitiveRootOfUnity(n)
			v := r.Uint64()
			if v != ref.Root(int(n)) {
				t.Fail("root of unity of order 2^%d is %d, want %d", n, v, ref.Root(int(n)))
			}
			// order exactly 2^n
			x := v
			for i := uint64(0); i < n; i++ {
				if x == 1 {
					t.Fail("root of unity of order 2^%d has smaller order", n)
				}
				x = ref.Mul(x, x)
			}
			if x != 1 {
				t.Fail("root of unity of order 2^%d has larger order", n)
			}
			t.OK(fmt.Sprintf("root:%d", n))
			lim := uint64(14)
			if c.Thorough {
				lim = 20
			}
			if n <= lim {
				s := gl.TwoAdicSubgroup(n)
				if len(s) != 1<<n {
					t.Fail("subgroup 2^%d has %d elements", n, len(s))
					return
				}
				w := uint64(1)
				for i := range s {
					if s[i].Uint64() != w {
						t.Fail("subgroup 2^%d element %d is %d want %d", n, i, s[i].Uint64(), w)
						return
					}
					w = ref.Mul(w, ref.Root(int(n)))
				}
				t.OK(fmt.Sprintf("subgroup:%d", n))
			}
		})
	}
	c.Case("root/too_large", func(t *chk.T) {
		for _, n := range []uint64{33, 34, 64, 1 << 40} {
			if chk.Try(func() { gl.PrimitiveRootOfUnity(n) }) == "" {
				t.Fail("root of unity of order 2^%d does not exist but was returned", n)
			}
			t.OK("root:toolarge")
		}
	})
}
