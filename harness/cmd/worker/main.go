// Command worker runs one sub-check in one process; the driver (check.py)
// starts it.
package main

import (
	_ "averif/aaacpumask"

	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"averif/aaacpumask"
	"averif/eng"
	"averif/props"

	"pgregory.net/rapid"
)

var (
	mode   = flag.String("mode", "", "list, run or replay")
	prop   = flag.String("prop", "", "")
	sub    = flag.String("sub", "", "")
	config = flag.String("config", "native", "")
	tier   = flag.String("tier", "quick", "")
	checks = flag.Int("checks", 100, "")
	seed   = flag.Uint64("seed", 1, "")
	shard  = flag.Int("shard", 0, "")
	shards = flag.Int("shards", 1, "")
	out    = flag.String("out", "", "")
	cur    = flag.String("cur", "", "")
	file   = flag.String("file", "", "")
	limit  = flag.Duration("limit", 100*time.Second, "")
	times  = flag.Int("times", 1, "how often to run a replay")
)

// tb implements rapid.TB without go test.
type tb struct {
	failed bool
	log    []string
}

type listed struct {
	Prop, Name, Rule                        string
	Configs                                 []string
	Checks, Shards                          int
	SameSeed, IsEnum, Digest, Pinned, Alone bool
	LimitS                                  int
}

func main() {
	testing.Init()
	flag.Parse()
	debug.SetGCPercent(200)
	switch *mode {
	case "list":
		var l []listed
		for _, s := range eng.Subs {
			if s.Prop != *prop || s.ThoroughOnly && *tier != "thorough" {
				continue
			}
			n := s.Quick
			if *tier == "thorough" {
				n = s.Thorough
			}
			cfg := s.Configs
			if len(cfg) == 0 {
				cfg = []string{"native"}
			}
			l = append(l, listed{s.Prop, s.Name, s.Rule, cfg, n, s.Shards, s.SameSeed, s.IsEnum, s.Digest, !s.RealEntropy, s.Alone, s.LimitS})
		}
		b, _ := json.Marshal(l)
		fmt.Println(string(b))
	case "run":
		s := find(*prop, *sub)
		start := time.Now()
		r := eng.NewRunner(s, *config, *tier, *cur, *limit)
		if s.IsEnum {
			r.Enumerate(eng.MixString(*seed, s.Name), *shard, *shards)
		} else {
			sd := eng.Mix(eng.MixString(*seed, s.Name), uint64(*shard))
			if !s.SameSeed {
				sd = eng.MixString(sd, *config)
			}
			set("rapid.seed", strconv.FormatUint(sd, 10))
			set("rapid.checks", strconv.Itoa(*checks))
			set("rapid.nofailfile", "true")
			st := "15s"
			if *tier == "thorough" {
				st = "60s"
			}
			set("rapid.shrinktime", st)
			done := make(chan struct{})
			t := &tb{}
			go func() {
				defer close(done)
				r.Generate(t)
			}()
			<-done
			for _, l := range t.log {
				fmt.Fprintln(os.Stderr, l)
			}
			res := r.Finish(start)
			if t.failed && res.Violation == nil && res.HarnessErr == "" {
				res.HarnessErr = fmt.Sprint("rapid failed without a failing case: ", t.log)
			}
			write(res)
			return
		}
		write(r.Finish(start))
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			panic(err)
		}
		var e eng.Envelope
		if err := json.Unmarshal(b, &e); err != nil {
			panic(err)
		}
		s := find(e.Property, e.Sub)
		start := time.Now()
		r := eng.NewRunner(s, e.Config, e.Tier, *cur, *limit)
		for i := 0; i < *times; i++ {
			if err := r.RunCase(e.Seed, e.Case); err != nil {
				break
			}
		}
		write(r.Finish(start))
	case "first": // the process of one case of C15/first-calls
		err := props.FirstUse(os.Stdin)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		os.Exit(props.FirstUseExit(err))
	default:
		fmt.Fprintln(os.Stderr, "no mode")
		os.Exit(2)
	}
}

func find(prop, name string) *eng.Sub {
	for _, s := range eng.Subs {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	fmt.Fprintln(os.Stderr, "no such sub-check", prop, name)
	os.Exit(2)
	return nil
}

func set(name, v string) {
	if err := flag.Set(name, v); err != nil {
		panic(err)
	}
}

func write(res *eng.Result) {
	switch res.Config {
	case "native", "onecpu", "race", "noasm", "386", "neon":
		if aaacpumask.Active != "native" {
			res.HarnessErr = "unexpected CPU mask"
		}
	default:
		if aaacpumask.Active != res.Config {
			res.HarnessErr = "CPU mask not applied: " + aaacpumask.Active
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if *out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(*out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(*out+".tmp", *out); err != nil {
		panic(err)
	}
}

var _ rapid.TB = (*tb)(nil)

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return *prop + "/" + *sub }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *tb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.Fail() }
func (t *tb) Error(a ...any)            { t.Log(a...); t.Fail() }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
