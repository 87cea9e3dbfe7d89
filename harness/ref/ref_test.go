package ref

import (
	"math/big"
	"testing"
)

func TestPos(t *testing.T) {
	var s [12]uint64
	Permute(&s)
	t.Logf("%x", s[:4])
	if s[0] != 0x3c18a9786cb0b359 || s[3] != 0xc71603f33a1144ca {
		t.Fatal()
	}
	var b [4]Hash
	BNPermute(&b)
	t.Log(b[0].BigInt(new(big.Int)))
}
