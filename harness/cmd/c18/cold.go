package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"vharness/adapt"
	"vharness/chk"
	"vharness/e2e"
	"vharness/prover"
	"vharness/ref"
	"vharness/wl"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
	"github.com/succinctlabs/gnark-plonky2-verifier/verifier"
)

// What a process initialises at its first use is only raced for at the first
// use: each of these processes starts several goroutines that do the same from
// the beginning, kept in step with one another by waiting that the race
// detector does not see (a lock would order what it is to find unordered).

const coldKinds = 13

// abreast keeps workers within a few steps of one another.
type abreast struct {
	at [64]int64
	n  int
}

//go:norace
//go:noinline
func (a *abreast) get(i int) int64 { return a.at[i] }

//go:norace
//go:noinline
func (a *abreast) set(i int, v int64) { a.at[i] = v }

// pass waits until all others have come as far.
//
//go:norace
func (a *abreast) pass(i int, v int64) {
	a.set(i, v)
	for j := 0; j < a.n; j++ {
		for k := 0; a.get(j) < v; k++ {
			runtime.Gosched()
			if k > 1<<22 {
				return
			}
		}
	}
}

func cold() {
	var k int
	var seed int64
	fmt.Sscan(os.Getenv("C18_COLD"), &k, &seed)
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	for _, g := range wl.AllGates(false) {
		if g.NumWires() <= 40 {
			gateList = append(gateList, g)
		}
	}
	kind, round := k%coldKinds, k/coldKinds
	const n = 6
	var works [n]func(step func()) string
	run := func(t *task) func(step func()) string {
		return func(step func()) string {
			s := t.do(step)
			if s.accepted == t.reject || !t.reject && t.want != nil && !wl.Same(s.out, t.want) {
				return t.name + ": " + s.String()
			}
			return ""
		}
	}
	var ci *prover.Circuit
	var p *ref.Proof
	if kind == 7 || kind == 8 {
		ci = prover.Build(params(kind-7+round%2), seed)
		p = ci.Prove(nil)
		e2e.Must(ci.C, p)
	}
	for i := range works {
		// the same in all, or of the same kind
		r := rand.New(rand.NewSource(seed))
		if round%2 == 1 {
			r = rand.New(rand.NewSource(seed + int64(i)))
		}
		switch kind {
		case 0, 1, 2, 3, 4, 5, 6:
			works[i] = run(draw(r, kind, false))
		case 7, 8:
			mode := "native"
			if round%2 == 1 {
				mode = "bits"
			}
			works[i] = run(&task{name: "verify", mode: mode, prog: func(api frontend.API) []frontend.Variable {
				pr, pis, vd := adapt.Proof(p, adapt.Wire)
				verifier.NewVerifierChip(api, adapt.Common(ci.C)).Verify(pr, pis, vd)
				return nil
			}})
		case 9:
			works[i] = func(step func()) string {
				for _, g := range gateList {
					step()
					if gates.GateInstanceFromId(g.ID()).Id() == "" {
						return g.ID() + " read without a name"
					}
				}
				return ""
			}
		case 10:
			works[i] = func(step func()) string {
				for _, d := range []string{"step", "decode_block"} {
					step()
					cd := types.ReadCommonCircuitData("/repo/testdata/" + d + "/common_circuit_data.json")
					step()
					v := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("/repo/testdata/" + d + "/verifier_only_circuit_data.json"))
					step()
					q := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("/repo/testdata/" + d + "/proof_with_public_inputs.json"))
					if len(cd.KIs) == 0 || len(v.ConstantSigmasCap) != 16 || len(q.Proof.WiresCap) != 16 {
						return "files read wrongly"
					}
				}
				return ""
			}
		case 11:
			works[i] = func(step func()) string {
				for n := uint64(0); n <= 32; n++ {
					step()
					x := gl.PrimitiveRootOfUnity(n)
					step()
					if n <= 8 {
						if l := gl.TwoAdicSubgroup(n); len(l) != 1<<n || n > 0 && l[1] != x {
							return fmt.Sprintf("subgroup of order 2^%d wrong", n)
						}
					}
					if ref.Exp(x.Uint64(), 1<<n) != 1 || n > 0 && ref.Exp(x.Uint64(), 1<<(n-1)) == 1 {
						return fmt.Sprintf("root of order 2^%d wrong", n)
					}
				}
				gl.Zero()
				gl.One()
				gl.NegOne()
				gl.ZeroExtension()
				gl.OneExtension()
				return ""
			}
		case 12:
			works[i] = run(batch(seed+int64(i*(round%2)), round%2 == 1))
		}
	}
	a := &abreast{n: n}
	var bad [n]string
	var wg sync.WaitGroup
	for i := range works {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer a.set(i, math.MaxInt64)
			defer func() {
				if r := recover(); r != nil {
					bad[i] = fmt.Sprint("panic: ", r)
				}
			}()
			steps := int64(0)
			a.pass(i, 1)
			bad[i] = works[i](func() {
				steps++
				// densely at first, and now and then later
				if steps < 400 || steps%97 == 0 && steps < 20000 {
					a.pass(i, steps+1)
				}
			})
		}()
	}
	wg.Wait()
	for i := range bad {
		if bad[i] != "" {
			fmt.Fprintf(out, "COLD bad %s\n", bad[i])
		}
	}
	fmt.Fprintln(out, "COLD done")
}

// first judges one process.
func first(t *chk.T, k int) {
	sc := os.Getenv("VERIF_SCRATCH")
	log := filepath.Join(sc, fmt.Sprintf("cold%d", k))
	cmd := exec.Command(filepath.Join(sc, "check-race"))
	cmd.Env = append(os.Environ(), fmt.Sprintf("C18_COLD=%d %d", k, t.R.Int63n(1<<40)), "GORACE=log_path="+log+" exitcode=0 halt_on_error=0")
	out, err := cmd.CombinedOutput()
	o := string(out)
	for _, x := range []string{"fatal error: concurrent map", "fatal error: all goroutines are asleep"} {
		if at := strings.Index(o, x); at >= 0 {
			t.Fail("cold start, kind %d: concurrent use ends the process: %.1500s", k%coldKinds, o[at:])
			return
		}
	}
	fs, _ := filepath.Glob(log + ".*")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "succinctlabs/gnark-plonky2-verifier") {
				t.Fail("cold start, kind %d: the race detector reports: %.2500s", k%coldKinds, rep)
				return
			}
		}
	}
	if at := strings.Index(o, "COLD bad"); at >= 0 {
		t.Fail("cold start, kind %d: %.1500s", k%coldKinds, o[at:])
		return
	}
	if !strings.Contains(o, "COLD done") {
		panic(fmt.Sprintf("no answer: %v %.2000s", err, o))
	}
	t.OK(fmt.Sprintf("cold:%d:%d", k%coldKinds, k/coldKinds%2))
}
