// Verification hooks for package net (build-time overlay, never part of /repo).
//
// VERIF_DIAL: "refuse", "stall" or unix:PATH; every dial other than to a unix socket is
// answered that way. VerifDialHook takes precedence.
package net

import (
	"context"
	"os"
	"syscall"
)

var VerifDialHook func(ctx context.Context, network, address string) (Conn, error)

func verifDial(ctx context.Context, network, address string) (Conn, error, bool) {
	if network == "unix" {
		return nil, nil, false
	}
	mode, _ := syscall.Getenv("VERIF_DIAL")
	if VerifDialHook == nil && mode == "" {
		return nil, nil, false
	}
	os.VerifLog("DIAL " + network + " " + address)
	fail := func(e error) (Conn, error, bool) {
		return nil, &OpError{Op: "dial", Net: network, Err: e}, true
	}
	if VerifDialHook != nil {
		c, err := VerifDialHook(ctx, network, address)
		if err != nil {
			return fail(err)
		}
		return c, nil, true
	}
	switch {
	case mode == "refuse":
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case mode == "stall":
		<-ctx.Done()
		return fail(mapErr(ctx.Err()))
	case len(mode) > 5 && mode[:5] == "unix:":
		c, err := (&Dialer{}).DialContext(ctx, "unix", mode[5:])
		return c, err, true
	}
	return fail(os.NewSyscallError("connect", syscall.ENETUNREACH))
}
