package ref

// Columns is Coefficients, by coefficient: out[j][p] is the coefficient of x^j
// at byte p. It is meant for long shares and few of them.
func Columns(shares [][]byte) [][]byte {
	k := len(shares)
	n := len(shares[0]) - 1
	// the basis polynomials come from interpolating the unit vectors
	out := make([][]byte, k)
	for j := range out {
		out[j] = make([]byte, n)
	}
	unit := make([][]byte, k)
	for i := range unit {
		for m := range unit {
			unit[m] = []byte{0, shares[m][n]}
		}
		unit[i][0] = 1
		basis := Coefficients(unit)[0]
		for j, b := range basis {
			if b == 0 {
				continue
			}
			row, y, col := &mul[b], shares[i][:n], out[j]
			for p, v := range y {
				col[p] ^= row[v]
			}
		}
	}
	return out
}
