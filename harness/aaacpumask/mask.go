// Package aaacpumask hides CPU features from the code under test. Packages are
// initialised in import-path order (Go >= 1.21), so this one runs before any
// package of github.com/fadhilkurnia/shamir looks at the feature bits.
package aaacpumask

import (
	"os"
	"time"

	"github.com/klauspost/cpuid/v2"
)

// Start is when this package was initialised, before the code under test.
var Start = time.Now()

// Active is the mask that was applied.
var Active = os.Getenv("VERIF_CPU")

func init() {
	avx := []cpuid.FeatureID{cpuid.AVX2, cpuid.AVX512F, cpuid.AVX512BW, cpuid.AVX512VL,
		cpuid.AVX512DQ, cpuid.AVX512CD, cpuid.GFNI, cpuid.AVX}
	switch Active {
	case "", "native":
		Active = "native"
	case "ssse3":
		cpuid.CPU.Disable(avx...)
	case "sse2":
		cpuid.CPU.Disable(avx...)
		cpuid.CPU.Disable(cpuid.SSSE3, cpuid.SSE3, cpuid.SSE4, cpuid.SSE42)
	case "scalar":
		cpuid.CPU.Disable(avx...)
		cpuid.CPU.Disable(cpuid.SSSE3, cpuid.SSE3, cpuid.SSE4, cpuid.SSE42, cpuid.SSE2, cpuid.SSE)
	default:
		panic("unknown VERIF_CPU " + Active)
	}
}
