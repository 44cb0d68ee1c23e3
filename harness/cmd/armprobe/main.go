// Command armprobe is linked for arm64 to get at the machine code of the
// vector routines; see averif/neon. It refers to all that may call them.
package main

import (
	"fmt"

	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

func main() {
	w := worker.NewWorker()
	fmt.Println(galois.MulConstVector, galois.AddVector, galois.MulConstVectorGeneric, galois.AddVectorGeneric, galois.AddVectorBatchGeneric,
		shamir.Split, shamir.SplitWithRandomizer, shamir.SplitWithRandomizerOld, shamir.SplitGeneric, shamir.SplitP, shamir.Combine, shamir.Regenerate,
		krawczyk.Split, krawczyk.SplitWithRandomizer, krawczyk.Combine, w.Split, w.Combine)
}
