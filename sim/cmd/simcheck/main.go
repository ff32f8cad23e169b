// simcheck is the simulator: driver, worker and replayer in one binary.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifsim/engine"
	"verifsim/props"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func prop(id string) engine.Property {
	p := engine.Props[id]
	if p == nil {
		die("unknown property %s", id)
	}
	return p
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die("bad number %q", s)
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simcheck run|worker|exec|replay ...")
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "run": // run PROP plain=BIN name=BIN...   (environment: VERIF_SEED, VERIF_TIER, SIM_VERIF, SIM_SCRATCH)
		seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		d := &engine.Driver{Pr: prop(a[0]), Seed: seed, Tier: tier, Verif: os.Getenv("SIM_VERIF"), Start: time.Now(), Scratch: os.Getenv("SIM_SCRATCH")}
		for _, c := range a[1:] {
			kv := strings.SplitN(c, "=", 2)
			cfg := engine.Config{Name: kv[0], Bin: kv[1]}
			if kv[0] == "plain" {
				d.Plain = cfg
			} else {
				d.Configs = append(d.Configs, cfg)
			}
		}
		os.Exit(d.Run())
	case "worker": // worker PROP SEED TIER FROM N
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		engine.Worker(prop(a[0]), seed, a[2], atoi(a[3]), atoi(a[4]))
	case "exec": // exec FILE [-v]
		r := load(a[0])
		res := engine.ExecReplay(prop(r.Property), r, len(a) > 1)
		json.NewEncoder(os.Stdout).Encode(res)
	case "gen": // gen PROP SEED IDX [tier]
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		p := prop(a[0]).Gen(seed, atoi(a[2]), "quick")
		b, _ := json.MarshalIndent(&engine.Replay{Property: a[0], Tier: "quick", Seed: seed, Plan: p}, "", " ")
		fmt.Println(string(b))
	case "replay": // replay FILE: run it and compare with what the file says
		r := load(a[0])
		res := engine.ExecReplay(prop(r.Property), r, true)
		for _, l := range res.Log {
			fmt.Println("  ", l)
		}
		hit := false
		for _, v := range res.Viol {
			if v.Class == r.Class {
				hit = true
				fmt.Printf("reproduced %s: %s\n", v.Class, v.Detail)
			}
		}
		if !hit {
			fmt.Println("NOT reproduced")
			os.Exit(2)
		}
		if r.LogHash == res.LogHash {
			fmt.Println("event log identical to the recorded run")
		} else {
			fmt.Printf("event log differs from the recorded run (%s, recorded %s): the tree under test has changed\n", res.LogHash, r.LogHash)
		}
		os.Exit(1)
	case "solo": // solo < PLAN: run its only operation and print the result
		var p engine.Plan
		if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
			die("%v", err)
		}
		fmt.Print(prop(p.Prop).(engine.SoloRunner).Solo(engine.NewEnv(&p)))
	case "focus":
		fmt.Print(prop(a[0]).(engine.Focuser).Focus())
	case "config":
		fmt.Println(load(a[0]).Config)
	case "list":
		var ids []string
		for id := range engine.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "longtable":
		t := props.LongTable()
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println("package props\n\n// longExpected holds reference digests of very long messages; regenerate with `simcheck longtable`.\nvar longExpected = map[string]string{")
		for _, k := range ks {
			fmt.Printf("\t%q: %q,\n", k, t[k])
		}
		fmt.Println("}")
	default:
		die("unknown command %s", os.Args[1])
	}
}

func load(path string) *engine.Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r engine.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	return &r
}
