// Package fuzz runs the fuzz targets of averif/props under go test -fuzz;
// check.py starts it in the thorough tier.
package fuzz

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"testing"
	"time"

	"averif/eng"
	"averif/props"
)

func fuzz(f *testing.F, name string) {
	for _, ft := range props.FuzzTargets {
		if ft.Name != name {
			continue
		}
		for _, s := range ft.Seeds {
			f.Add(s)
		}
		var sub *eng.Sub
		for _, s := range eng.Subs {
			if s.Prop == ft.Prop && s.Name == ft.Name {
				sub = s
			}
		}
		r := eng.NewRunner(sub, "native", "thorough", "", 60*time.Second)
		f.Fuzz(func(t *testing.T, data []byte) {
			raw, _ := json.Marshal(props.FuzzCase{Hex: hex.EncodeToString(data)})
			path := os.Getenv("VERIF_FUZZ_FAIL")
			err := r.RunCase(1, raw)
			if r.HarnessErr() != "" {
				t.Fatal("harness: " + r.HarnessErr())
			}
			if err == nil {
				return
			}
			// the last failure written is the smallest one found
			b, _ := json.Marshal(eng.Envelope{Property: ft.Prop, Sub: ft.Name, Config: "native", Tier: "thorough", Seed: 1, Case: raw, Error: err.Error()})
			if path != "" {
				_ = os.WriteFile(path+".tmp", b, 0o644)
				_ = os.Rename(path+".tmp", path)
			}
			t.Fatal(err)
		})
		return
	}
	f.Fatal("no target " + name)
}

func FuzzShamirRoundtrip(f *testing.F) { fuzz(f, "FuzzShamirRoundtrip") }
func FuzzSSMSRoundtrip(f *testing.F)   { fuzz(f, "FuzzSSMSRoundtrip") }
func FuzzShamirCombine(f *testing.F)   { fuzz(f, "FuzzShamirCombine") }
func FuzzRegenerate(f *testing.F)      { fuzz(f, "FuzzRegenerate") }
func FuzzSSMSCombine(f *testing.F)     { fuzz(f, "FuzzSSMSCombine") }
func FuzzSSMSMutate(f *testing.F)      { fuzz(f, "FuzzSSMSMutate") }
func FuzzCSPRNG(f *testing.F)          { fuzz(f, "FuzzCSPRNG") }
func FuzzVector(f *testing.F)          { fuzz(f, "FuzzVector") }
