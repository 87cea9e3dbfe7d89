package wl

import (
	"fmt"
	"math/big"
	"math/rand"

	"vharness/ref"

	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
)

// AllGates lists gate instances over a sweep of their parameters.
func AllGates(thorough bool) (o []ref.Gate) {
	r := func(lo, hi int) (s []int) {
		for i := lo; i <= hi; i++ {
			s = append(s, i)
		}
		return
	}
	for _, n := range append(r(1, 24), 40) {
		o = append(o, ref.ArithmeticGate{n})
	}
	for _, n := range r(1, 12) {
		o = append(o, ref.ArithmeticExtGate{n})
	}
	for _, n := range append(r(1, 16), 20) {
		o = append(o, ref.MulExtGate{n})
	}
	for _, b := range []int{2, 3, 4, 5, 7, 8, 16} {
		ls := []int{1, 2, 3, 5, 8, 16, 31, 32}
		if b == 2 {
			ls = r(1, 64)
		}
		for _, l := range ls {
			o = append(o, ref.BaseSumGate{l, b})
		}
	}
	for _, n := range r(1, 12) {
		o = append(o, ref.ConstantGate{n})
	}
	for b := 1; b <= 5; b++ {
		for d := 2; d <= 9; d++ {
			if d > 1<<b || b == 5 && d > 6 {
				continue
			}
			o = append(o, ref.CosetInterpGate{b, d})
		}
	}
	for _, n := range append(r(1, 70), 100) {
		o = append(o, ref.ExpGate{n})
	}
	o = append(o, ref.NoopGate{}, ref.PoseidonGate{}, ref.PoseidonMdsGate{}, ref.PublicInputGate{})
	for b := 1; b <= 6; b++ {
		for _, c := range []int{1, 2, 3, 4, 5, 8, 13, 20} {
			for _, e := range []int{0, 1, 2, 3, 6} {
				if (2+1<<b)*c > 400 {
					continue
				}
				o = append(o, ref.RandomAccessGate{b, c, e})
			}
		}
	}
	for _, n := range append(r(1, 48), 64, 80, 100) {
		o = append(o, ref.ReducingGate{n})
	}
	for _, n := range append(r(1, 36), 50, 64) {
		o = append(o, ref.ReducingExtGate{n})
	}
	return
}

// GateRow draws a row for a gate.
func GateRow(r *rand.Rand, g ref.Gate, kind int) (consts, wires []ref.Ext, pih [4]uint64) {
	nc, nw := g.NumConsts()+r.Intn(3), g.NumWires()+r.Intn(4)
	consts, wires = make([]ref.Ext, nc), make([]ref.Ext, nw)
	for i := range pih {
		pih[i] = Pick(r)
	}
	switch kind {
	case 0: // arbitrary
		for i := range consts {
			consts[i] = Ext(r)
		}
		for i := range wires {
			wires[i] = Ext(r)
		}
	case 1: // random without special values
		for i := range consts {
			consts[i] = ref.Ext{r.Uint64() % ref.P, r.Uint64() % ref.P}
		}
		for i := range wires {
			wires[i] = ref.Ext{r.Uint64() % ref.P, r.Uint64() % ref.P}
		}
	case 2: // a satisfying row
		c, w := make([]uint64, nc), make([]uint64, nw)
		for i := range w {
			w[i] = ref.Rnd(r)
		}
		for i := range c {
			c[i] = ref.Rnd(r)
		}
		g.Fill(r, c, w[:g.NumWires()], pih)
		for i := range c {
			consts[i] = ref.E(c[i])
		}
		for i := range w {
			wires[i] = ref.E(w[i])
		}
	case 3: // a satisfying row with one changed wire
		consts, wires, pih = GateRow(r, g, 2)
		if len(wires) > 0 {
			i := r.Intn(len(wires))
			wires[i] = wires[i].Add(Ext(r))
		}
	case 4: // extreme
		for i := range consts {
			consts[i] = ref.Ext{ref.P - 1, ref.P - 1}
		}
		for i := range wires {
			wires[i] = ref.Ext{ref.P - 1, ref.P - 1}
		}
	case 5: // small
		for i := range wires {
			wires[i] = ref.Ext{uint64(r.Intn(3)), 0}
		}
		for i := range consts {
			consts[i] = ref.Ext{uint64(r.Intn(3)), 0}
		}
	}
	return
}

// GateJob evaluates the constraints of the gate of an id.
func GateJob(id string, g ref.Gate, consts, wires []ref.Ext, pih [4]uint64, mask bool) Job {
	var want []*big.Int
	for _, x := range g.Eval(consts, wires, pih) {
		want = append(want, B(x[0]), B(x[1]))
	}
	return Job{Name: "gate_" + g.ID(), In: fmt.Sprintf("%v %v %v", consts, wires, pih), Want: want, Prog: func(api frontend.API) (o []frontend.Variable) {
		cs, ws := make([]gl.QuadraticExtensionVariable, len(consts)), make([]gl.QuadraticExtensionVariable, len(wires))
		for i := range cs {
			cs[i] = InX(consts[i], mask && i%2 == 0)
		}
		for i := range ws {
			ws[i] = InX(wires[i], mask && i%3 == 0)
		}
		var h [4]gl.Variable
		for i := range h {
			h[i] = In(pih[i], mask)
		}
		cs0 := append([]gl.QuadraticExtensionVariable(nil), cs...)
		ws0 := append([]gl.QuadraticExtensionVariable(nil), ws...)
		ga := gates.GateInstanceFromId(id)
		for _, v := range ga.EvalUnfiltered(api, gl.New(api), *gates.NewEvaluationVars(cs, ws, h)) {
			o = append(o, v[0].Limb, v[1].Limb)
		}
		for i := range ws {
			if ws[i] != ws0[i] {
				panic("the evaluation overwrote its wires")
			}
		}
		for i := range cs {
			if cs[i] != cs0[i] {
				panic("the evaluation overwrote its constants")
			}
		}
		return
	}}
}
