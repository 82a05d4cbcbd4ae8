package maps

import _ "unsafe"

// Iteration order as a choice of the checker. Every iteration takes the next entry of verifOrders
// (cyclically): the low 32 bits are a permutation of the eight slots of a small map, larger maps are
// rotated by the others. Hash seeds are fixed while orders are set.

var verifOrders []uint64
var verifSeedVal uint64
var verifNext uint64

const verifMark = 1 << 63

func verifOrder(small bool) (uint64, uint64) {
	if len(verifOrders) == 0 {
		return rand() &^ verifMark, rand()
	}
	o := verifOrders[verifNext%uint64(len(verifOrders))]
	verifNext++
	if small {
		return o&0xffffffff | verifMark, 0
	}
	return o >> 32, o >> 35
}

func verifSlot(i, off uint64) uintptr {
	if off&verifMark != 0 {
		return uintptr(off>>(4*i)) & 7
	}
	return uintptr(i+off) & 7
}

func verifSeed() uintptr {
	if len(verifOrders) == 0 {
		return uintptr(rand())
	}
	return uintptr(verifSeedVal)
}

//go:linkname verifSetOrders
func verifSetOrders(o []uint64, seed uint64) { verifOrders, verifSeedVal, verifNext = o, seed, 0 }
