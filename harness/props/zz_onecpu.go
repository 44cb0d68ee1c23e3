package props

import (
	"fmt"

	"averif/eng"
)

// The configuration "onecpu" is the native worker on a single CPU: code that
// counts CPUs to cut its work must do the same then.
var oneCPU = map[string][]string{
	"C01": {"roundtrip"},
	"C02": {"wellformed"},
	"C03": {"same-entropy", "histories"},
	"C04": {"random-params", "large"},
	"C05": {"many-shares", "large"},
	"C06": {"chains", "large"},
	"C07": {"roundtrip"},
	"C08": {"format"},
	"C09": {"large"},
	"C10": {"keystream", "large-reads"},
	"C13": {"large"},
	"C14": {"histories"},
	"C15": {"mixed", "one-function", "shared-inputs", "first-calls"},
	"C17": {"histories"},
	"C18": {"concurrent"},
	"C19": {"splits", "foreign", "large"},
	"C20": {"stream", "large-reads"},
	"C21": {"histories", "large"},
	"C22": {"steady"},
}

// The files of a package are initialised in the order of their names: the
// sub-checks are there.
func init() {
	for p, names := range oneCPU {
		for _, n := range names {
			found := false
			for i := range eng.Subs {
				s := eng.Subs[i]
				if s.Prop == p && s.Name == n {
					found = true
					s.Configs = append(append([]string(nil), s.Configs...), "onecpu")
				}
			}
			if !found {
				panic(fmt.Sprintf("no sub-check %s/%s", p, n))
			}
		}
	}
}
