module averif

go 1.26

// The code under test seeds math/rand in one place; the harness reseeds it per
// case so that a case replays exactly.
godebug randseednop=0

require (
	github.com/fadhilkurnia/shamir v0.0.0
	github.com/hashicorp/vault v1.9.9
	github.com/klauspost/cpuid/v2 v2.0.9
	github.com/klauspost/reedsolomon v1.9.15
	github.com/starius/aesctrat v0.0.0-20220106011601-da278dad2aaa
	pgregory.net/rapid v1.3.0
)

replace github.com/fadhilkurnia/shamir => /repo
