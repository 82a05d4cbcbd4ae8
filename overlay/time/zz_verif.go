// Verification hook for package time (build-time overlay, never part of /repo):
// VERIF_NOW=<unix seconds> freezes the wall clock; the monotonic clock goes on.
package time

import "syscall"

var verifNow = verifInit()

func verifInit() int64 {
	v, ok := syscall.Getenv("VERIF_NOW")
	if !ok {
		return 0
	}
	var n int64
	for i := 0; i < len(v); i++ {
		if v[i] < '0' || v[i] > '9' {
			return 0
		}
		n = n*10 + int64(v[i]-'0')
	}
	return n
}
