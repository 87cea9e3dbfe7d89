package wl

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"vharness/eng"
	"vharness/ref"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/succinctlabs/gnark-plonky2-verifier/challenger"
	"github.com/succinctlabs/gnark-plonky2-verifier/fri"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"
)

// HistOp is a step of a history.
type HistOp struct {
	Kind string
	N    int
	U    []*big.Int
	H    []fr.Element
	M    []int
}

// GenHist draws a history.
func GenHist(r *rand.Rand, steps int) (ops []HistOp) {
	kinds := []string{"elem", "elems", "hash", "bn", "cap", "ext", "exts", "openings", "get", "getn", "getext", "gethash", "fri"}
	num := func(n int) (o []*big.Int) {
		for i := 0; i < n; i++ {
			x := B(Pick(r))
			switch r.Intn(12) {
			case 0:
				x.Add(x, eng.P)
			case 1:
				x.Rand(r, new(big.Int).Lsh(eng.P, uint(1+r.Intn(143))))
			}
			o = append(o, x)
		}
		return
	}
	hs := func(n int) (o []fr.Element) {
		for i := 0; i < n; i++ {
			var e fr.Element
			e.SetBigInt(new(big.Int).Rand(r, eng.R))
			if r.Intn(8) == 0 {
				e.SetUint64(Pick(r))
			}
			o = append(o, e)
		}
		return
	}
	style := r.Intn(4)
	for i := 0; i < steps; i++ {
		k := kinds[r.Intn(len(kinds))]
		switch style {
		case 0: // mostly single elements and requests
			k = []string{"elem", "elem", "get", "elems"}[r.Intn(4)]
		case 1:
			k = []string{"getn", "get", "elem", "bn", "getext"}[r.Intn(5)]
		}
		o := HistOp{Kind: k}
		switch k {
		case "elem":
			o.U = num(1)
		case "elems":
			o.N = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 24, r.Intn(40)}[r.Intn(11)]
			o.U = num(o.N)
		case "hash":
			o.U = num(4)
		case "bn":
			o.H = hs(1)
		case "cap":
			o.N = []int{0, 1, 2, 3, 16}[r.Intn(5)]
			o.H = hs(o.N)
		case "ext":
			o.U = num(2)
		case "exts":
			o.N = r.Intn(10)
			o.U = num(2 * o.N)
		case "openings":
			o.M = []int{r.Intn(9), r.Intn(4)}
			if r.Intn(3) == 0 {
				o.M = append(o.M, r.Intn(3))
			}
			for _, x := range o.M {
				o.U = append(o.U, num(2*x)...)
			}
		case "getn":
			o.N = []int{0, 1, 2, 3, 7, 8, 9, 16, 17, r.Intn(30)}[r.Intn(10)]
		case "fri":
			o.M = []int{r.Intn(3), 1 + r.Intn(4), r.Intn(6), r.Intn(12)} // caps, cap size, coefficients, queries
			o.H = hs(o.M[0] * o.M[1])
			o.U = num(2*o.M[2] + 1)
		}
		ops = append(ops, o)
	}
	return
}

// HistShape describes.
func HistShape(ops []HistOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, fmt.Sprintf("%s%d%v", o.Kind, o.N, o.M))
	}
	return strings.Join(s, ",")
}

func hred(u []*big.Int) (o []uint64) {
	for _, x := range u {
		o = append(o, new(big.Int).Mod(x, eng.P).Uint64())
	}
	return
}

// RefHist runs a step on the reference.
func RefHist(c *ref.Challenger, o HistOp) (out []uint64) {
	u := hred(o.U)
	switch o.Kind {
	case "elem", "elems", "hash", "ext", "exts", "openings":
		c.Observe(u...)
	case "bn", "cap":
		c.ObserveCap(o.H)
	case "get":
		out = c.GetN(1)
	case "getn":
		out = c.GetN(o.N)
	case "getext":
		out = c.GetN(2)
	case "gethash":
		out = c.GetN(4)
	case "fri":
		out = c.GetN(2)
		for i := 0; i < o.M[0]; i++ {
			c.ObserveCap(o.H[i*o.M[1] : (i+1)*o.M[1]])
			out = append(out, c.GetN(2)...)
		}
		c.Observe(u...)
		out = append(out, c.GetN(1+o.M[3])...)
	}
	return
}

func hvs(u []*big.Int) (o []gl.Variable) {
	for _, x := range u {
		o = append(o, gl.NewVariable(eng.Var(x)))
	}
	return
}

func hxs(u []*big.Int) (o []gl.QuadraticExtensionVariable) {
	v := hvs(u)
	for i := 0; i < len(v); i += 2 {
		o = append(o, gl.NewQuadraticExtensionVariable(v[i], v[i+1]))
	}
	return
}

func hbns(h []fr.Element) (o []poseidon.BN254HashOut) {
	for i := range h {
		o = append(o, eng.Var(h[i].BigInt(new(big.Int))))
	}
	return
}

// scrub overwrites a slice handed to the challenger: it must not have kept it.
func hscrub(v []gl.Variable) {
	for i := range v {
		v[i] = gl.NewVariable(eng.U(0xdead))
	}
}

// RealHist runs a step on the code.
func RealHist(c *challenger.Chip, o HistOp) (out []gl.Variable) {
	switch o.Kind {
	case "elem":
		c.ObserveElement(hvs(o.U)[0])
	case "elems":
		v := hvs(o.U)
		c.ObserveElements(v)
		hscrub(v)
	case "hash":
		v := hvs(o.U)
		c.ObserveHash(poseidon.GoldilocksHashOut{v[0], v[1], v[2], v[3]})
	case "bn":
		c.ObserveBN254Hash(hbns(o.H)[0])
	case "cap":
		c.ObserveCap(hbns(o.H))
	case "ext":
		c.ObserveExtensionElement(hxs(o.U)[0])
	case "exts":
		c.ObserveExtensionElements(hxs(o.U))
	case "openings":
		var op fri.Openings
		k := 0
		for _, n := range o.M {
			op.Batches = append(op.Batches, fri.OpeningBatch{Values: hxs(o.U[2*k : 2*(k+n)])})
			k += n
		}
		c.ObserveOpenings(op)
	case "get":
		out = append(out, c.GetChallenge())
	case "getn":
		out = c.GetNChallenges(uint64(o.N))
	case "getext":
		x := c.GetExtensionChallenge()
		out = x[:]
	case "gethash":
		x := c.GetHash()
		out = x[:]
	case "fri":
		var caps []variables.FriMerkleCap
		for i := 0; i < o.M[0]; i++ {
			caps = append(caps, hbns(o.H[i*o.M[1]:(i+1)*o.M[1]]))
		}
		u := len(o.U) - 1
		f := c.GetFriChallenges(caps, variables.PolynomialCoeffs{Coeffs: hxs(o.U[:u])}, hvs(o.U[u:])[0], types.FriConfig{NumQueryRounds: uint64(o.M[3])})
		out = append(out, f.FriAlpha[:]...)
		for i := range f.FriBetas {
			out = append(out, f.FriBetas[i][:]...)
		}
		out = append(out, f.FriPowResponse)
		out = append(out, f.FriQueryIndices...)
	}
	return
}
