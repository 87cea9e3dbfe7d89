// C07: range checks accept exactly the values in range, whatever range checker
// the proving system offers.
package main

import (
	"fmt"
	"math/big"
	"os"

	"vharness/chk"
	"vharness/eng"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
)

func main() {
	chk.Main(chk.Opt{ID: "C07", Level: "exploration",
		Rule:        "one evaluation = one execution of a real range check on a chosen value (honest prover: accepted iff in range; dishonest prover: never accepted out of range), alone or as one of about 70,000 deferred checks of which at most one is out of range; distinct = range checker x kind of check x width x value class x dishonest answer",
		Assumptions: []string{"gnark's own range check and bit decomposition gadgets are trusted for widths aligned to their base", "dishonest answers are drawn from the families listed in DESIGN.md"},
		Need:        []string{"honest:native:", "honest:bits:", "honest:env-native:", "honest:env-commit:", "attack:native:", "attack:bits:", "batch:ok", "batch:bad"}}, run)
}

func job(x *big.Int, bits int, constant bool) wl.Job {
	name := "canonical"
	var ok bool
	if bits == 0 {
		ok = x.Cmp(eng.P) < 0
	} else {
		name = fmt.Sprintf("width%d", bits)
		ok = x.BitLen() <= bits
	}
	if ok {
		name += "_in"
	} else {
		name += "_out"
	}
	return wl.Job{Name: name, In: x.String(), Reject: !ok, Want: []*big.Int{}, Prog: func(api frontend.API) []frontend.Variable {
		check(gl.New(api), x, bits, constant)
		return nil
	}}
}

func check(c *gl.Chip, x *big.Int, bits int, constant bool) {
	var v gl.Variable
	if constant {
		v = gl.NewVariable(x)
	} else {
		v = gl.NewVariable(eng.Var(x))
	}
	if bits == 0 {
		c.RangeCheck(v)
	} else {
		c.RangeCheckWithMaxBits(v, uint64(bits))
	}
}

func values(t *chk.T, n int) (o []*big.Int) {
	for _, e := range wl.Edge {
		o = append(o, wl.B(e))
	}
	one := big.NewInt(1)
	add := func(x *big.Int) {
		o = append(o, x.Mod(x, eng.R))
	}
	for k := int64(-3); k <= 3; k++ {
		for _, b := range []*big.Int{eng.P, new(big.Int).Lsh(one, 64), new(big.Int).Lsh(eng.P, 1), new(big.Int).Lsh(one, 32), new(big.Int).Lsh(one, 128), new(big.Int), new(big.Int).Rsh(eng.R, 1), new(big.Int).ModInverse(new(big.Int).Lsh(one, 32), eng.R)} {
			add(new(big.Int).Add(b, big.NewInt(k)))
		}
	}
	// 2^64 - 2^32 + lo is out of range for lo > 0
	for _, lo := range []uint64{1, 2, 1 << 31, 1<<32 - 2, 1<<32 - 1} {
		add(new(big.Int).SetUint64(0xffffffff00000000 + lo))
		add(new(big.Int).SetUint64(0xfffffffe00000000 + lo))
	}
	for k := 0; k < n; k++ {
		add(wl.B(ref.Rnd(t.R)))
		add(new(big.Int).SetUint64(0xffffffff00000001 + uint64(t.R.Uint32())%0xffffffff))
		add(new(big.Int).Rand(t.R, eng.R))
		add(new(big.Int).Rand(t.R, new(big.Int).Lsh(one, uint(1+t.R.Intn(253)))))
		// hi*2^32 + lo modulo the native field with out of range halves
		hi, lo := new(big.Int).Rand(t.R, eng.R), wl.B(uint64(t.R.Uint32()))
		add(hi.Lsh(hi, 32).Add(hi, lo))
	}
	return
}

func widths(w int) (o []*big.Int) {
	top := new(big.Int).Lsh(big.NewInt(1), uint(w))
	for k := int64(-2); k <= 2; k++ {
		x := new(big.Int).Add(top, big.NewInt(k))
		if x.Sign() >= 0 && x.Cmp(eng.R) < 0 {
			o = append(o, x)
		}
	}
	for _, s := range []int{w + 1, w + 2, w + 15, w + 16, w + 17, w + 32, 253} {
		x := new(big.Int).Lsh(big.NewInt(1), uint(s))
		if s > w && x.Cmp(eng.R) < 0 {
			o = append(o, x)
		}
	}
	return append(o, new(big.Int), big.NewInt(1), new(big.Int).Sub(eng.R, big.NewInt(1)))
}

func run(c *chk.Check) {
	nr, nb := 60, 1
	if c.Thorough {
		nr, nb = 4000, 40
	}
	for _, mode := range wl.Modes {
		for ch := 0; ch < 4; ch++ {
			c.Case(fmt.Sprintf("canonical/%s/%d", mode, ch), func(t *chk.T) {
				for i, x := range values(t, nr) {
					if i%4 != ch {
						continue
					}
					for _, k := range []bool{false, true} {
						wl.Honest(t, mode, job(x, 0, k))
					}
					if mode == "native" || i%8 == ch {
						wl.Attack(t, mode, job(x, 0, false), 6)
					}
				}
			})
		}
		for ch := 0; ch < 8; ch++ {
			c.Case(fmt.Sprintf("width/%s/%d", mode, ch), func(t *chk.T) {
				for w := 1 + ch; w <= 200; w += 8 {
					for _, x := range widths(w) {
						wl.Honest(t, mode, job(x, w, t.R.Intn(4) == 0))
						if mode == "bits" && w%16 == 0 {
							wl.Attack(t, mode, job(x, w, false), 4)
						}
					}
				}
			})
		}
	}
	// deferred checks: a large batch with at most one value out of range
	type bad struct {
		bits int
		x    *big.Int
		pos  float64
		cnst bool
	}
	one := big.NewInt(1)
	lsh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	bads := []bad{{-1, nil, 0, false}, {-1, nil, 0, false},
		{0, new(big.Int).Set(eng.P), 0, false}, {0, new(big.Int).Set(eng.P), 1, false}, {0, new(big.Int).SetUint64(1<<64 - 1), 0.5, false}, {0, lsh(64), 0.3, false},
		{0, new(big.Int).Sub(eng.R, one), 0.7, false}, {0, new(big.Int).Set(eng.P), 0.9999, false}, {0, new(big.Int).Set(eng.P), 0.2, true},
		{16, lsh(16), 0.1, false}, {32, lsh(32), 0.9, false}, {32, lsh(32), 0, false}, {48, lsh(48), 1, false}, {64, lsh(64), 1, false}, {64, lsh(64), 0.4, false}, {96, lsh(96), 0.6, false}, {128, lsh(128), 0, false}, {128, lsh(140), 1, false}, {144, lsh(144), 0.5, false}, {144, lsh(145), 0, false}, {144, lsh(253), 1, false}, {160, lsh(160), 0.5, false},
		// widths that are not aligned to the base of the deferred checker
		{17, lsh(20), 0.5, false}, {17, lsh(31), 1, false}, {31, lsh(31), 0, false}, {1, big.NewInt(2), 0.5, false}, {15, lsh(15), 0.2, false}, {140, lsh(143), 0.5, false}, {129, lsh(135), 0.9, false}, {8, lsh(9), 1, false}, {130, lsh(141), 0, false}}
	for rep := 0; rep < nb; rep++ {
		for bi, b := range bads {
			c.Case(fmt.Sprintf("batch/%d/%d", rep, bi), func(t *chk.T) {
				n := 33000 + t.R.Intn(3000)
				e := wl.Engine("commit")
				e.StopOnFail = true
				at := int(b.pos * float64(n-1))
				res := e.Run(func(api frontend.API) error {
					ch := gl.New(api)
					for i := 0; i < n; i++ {
						if b.bits >= 0 && i == at {
							check(ch, b.x, b.bits, b.cnst)
						}
						switch t.R.Intn(4) {
						case 0:
							w := 16 * (1 + t.R.Intn(10))
							x := new(big.Int).Rand(t.R, lsh(uint(w)))
							if t.R.Intn(3) == 0 {
								x = lsh(uint(w))
								x.Sub(x, one)
							}
							check(ch, x, w, t.R.Intn(50) == 0)
						default:
							check(ch, wl.B(wl.Pick(t.R)), 0, t.R.Intn(50) == 0)
						}
						if b.bits >= 0 && i == at && b.pos == 1 {
							return nil
						}
					}
					return nil
				})
				t.C.Stat("batch_deferred", e.NDefer)
				t.C.Stat("batch_range_checks", n)
				if b.bits < 0 {
					if !res.Accepted {
						t.Fail("a batch of %d range checks on values in range is not satisfiable: %s", n, res)
					}
					t.OK(fmt.Sprintf("batch:ok:%d", rep))
					return
				}
				if res.Accepted {
					t.Fail("a value out of range (%v, width %d) is accepted as one of %d deferred range checks (position %v)", b.x, b.bits, n, b.pos)
				}
				t.OK(fmt.Sprintf("batch:bad:%d:%d:%v", rep, b.bits, b.pos))
				if bi < 12 {
					t.C.Sample(fmt.Sprintf("one of %d deferred checks: value %v width %d at %v -> %s", n, b.x, b.bits, b.pos, res))
				}
			})
		}
	}
	c.Wait()
	// the environment variable forces bit decomposition on any system
	os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	for _, base := range []string{"native", "commit"} {
		c.Case("env/"+base, func(t *chk.T) {
			for _, x := range values(t, nr/4) {
				envRun(t, base, job(x, 0, false))
			}
			for w := 1; w <= 160; w++ {
				for _, x := range widths(w) {
					envRun(t, base, job(x, w, false))
				}
			}
		})
	}
	c.Wait()
	os.Unsetenv("USE_BIT_DECOMPOSITION_RANGE_CHECK")
}

func envRun(t *chk.T, base string, j wl.Job) {
	e := wl.Engine(base)
	e.StopOnFail = true
	e.Faith = true
	res := e.Run(func(api frontend.API) error { j.Prog(api); return nil })
	if res.Accepted == j.Reject {
		t.Fail("%s [forced bit decomposition on %s]: %s; in: %s", j.Name, base, res, j.In)
	}
	t.OK("honest:env-" + base + ":" + j.Name)
}
