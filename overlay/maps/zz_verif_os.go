package os

import _ "unsafe"

//go:linkname verifSetOrders internal/runtime/maps.verifSetOrders
func verifSetOrders(o []uint64, seed uint64)

// VERIF_MAPS="seed permutation permutation ..." (decimal; slot i of an iteration in bits 4i..4i+2)
func init() {
	s := Getenv("VERIF_MAPS")
	if s == "" {
		return
	}
	var l []uint64
	n, in := uint64(0), false
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n, in = n*10+uint64(s[i]-'0'), true
		} else if in {
			l = append(l, n)
			n, in = 0, false
		}
	}
	if len(l) > 1 {
		verifSetOrders(l[1:], l[0])
	}
}
