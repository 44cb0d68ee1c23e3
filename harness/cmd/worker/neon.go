//go:build verifneon

package main

import (
	"fmt"
	"os"

	"averif/neon"

	"github.com/fadhilkurnia/shamir/galois"
)

// In this build the arm64 files of galois stand in for the amd64 ones, and
// their assembly routines are interpreted (see build_neon in check.py).
func init() {
	if err := neon.Load(os.Getenv("VERIF_NEON"), galois.VerifNEONNames); err != nil {
		fmt.Fprintln(os.Stderr, "neon:", err)
		os.Exit(98)
	}
	galois.VerifNEON = neon.Call
}
