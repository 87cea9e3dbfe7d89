package ref

import "math/bits"

var mdsCirc = [12]uint64{17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20}
var mdsDiag = [12]uint64{8}

// RC returns a round constant.
func RC(round, i int) uint64 { return rc[12*round+i] }

// Mds applies the MDS layer.
func Mds(s *[12]uint64) {
	var o [12]uint64
	for r := 0; r < 12; r++ {
		var hi, lo uint64
		for i := 0; i < 12; i++ {
			h, l := bits.Mul64(mdsCirc[i], s[(i+r)%12])
			var c uint64
			lo, c = bits.Add64(lo, l, 0)
			hi += h + c
		}
		h, l := bits.Mul64(mdsDiag[r], s[r])
		var c uint64
		lo, c = bits.Add64(lo, l, 0)
		hi += h + c
		_, o[r] = bits.Div64(hi%P, lo, P)
	}
	*s = o
}

func pow7(x uint64) uint64 {
	x2 := Mul(x, x)
	x3 := Mul(x2, x)
	return Mul(Mul(x3, x3), x)
}

// Permute is the Goldilocks Poseidon permutation.
func Permute(s *[12]uint64) {
	for r := 0; r < 30; r++ {
		for i := range s {
			s[i] = Add(s[i], rc[12*r+i])
		}
		if r < 4 || r >= 26 {
			for i := range s {
				s[i] = pow7(s[i])
			}
		} else {
			s[0] = pow7(s[0])
		}
		Mds(s)
	}
}

// HashNToM is the overwrite-mode sponge without padding.
func HashNToM(in []uint64, m int) []uint64 {
	var s [12]uint64
	for i := 0; i < len(in); i += 8 {
		for j := 0; j < 8 && i+j < len(in); j++ {
			s[j] = in[i+j] % P
		}
		Permute(&s)
	}
	var out []uint64
	for {
		for i := 0; i < 8; i++ {
			out = append(out, s[i])
			if len(out) == m {
				return out
			}
		}
		Permute(&s)
	}
}

func HashNoPad(in []uint64) (h [4]uint64) {
	copy(h[:], HashNToM(in, 4))
	return
}

// extension versions, for the Poseidon gate

func MdsExt(s *[12]Ext) {
	var o [12]Ext
	for r := 0; r < 12; r++ {
		for i := 0; i < 12; i++ {
			o[r] = o[r].Add(s[(i+r)%12].Scale(mdsCirc[i]))
		}
		o[r] = o[r].Add(s[r].Scale(mdsDiag[r]))
	}
	*s = o
}

func pow7Ext(x Ext) Ext {
	x2 := x.Mul(x)
	x3 := x2.Mul(x)
	return x3.Mul(x3).Mul(x)
}
