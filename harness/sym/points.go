package sym

import (
	"github.com/consensys/gnark-crypto/ecc/bn254"
)

func decodes(g int, b []byte) bool {
	if g == 1 {
		var p bn254.G1Affine
		_, err := p.SetBytes(b)
		return err == nil
	}
	var p bn254.G2Affine
	_, err := p.SetBytes(b)
	return err == nil
}

// badG2 finds a point of the twist that is not in the subgroup.
func badG2() bn254.G2Affine {
	for i := byte(1); ; i++ {
		b := make([]byte, 64)
		b[0] = 0x80
		b[63] = i
		var p bn254.G2Affine
		if dec(&p, b) && !p.IsInSubGroup() {
			return p
		}
	}
}

type rd struct{ b []byte }

func (r *rd) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func dec(p *bn254.G2Affine, b []byte) bool {
	d := bn254.NewDecoder(&rd{b}, bn254.NoSubgroupChecks())
	return d.Decode(p) == nil
}
