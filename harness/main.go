package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
)

var drivers = map[string]func(*Ctx){
	"machine": runMachine,
}

func main() {
	c := &Ctx{ids: map[uint64]int{}, Stats: map[string]int{}}
	drv := flag.String("d", "", "driver")
	flag.Int64Var(&c.Seed, "seed", 1, "seed")
	flag.StringVar(&c.Tier, "tier", "quick", "tier")
	flag.StringVar(&c.OutBase, "out", "/tmp/trace", "trace base name")
	flag.IntVar(&c.Shards, "shards", 1, "number of trace shards")
	flag.StringVar(&c.Progs, "progs", "", "programs")
	flag.StringVar(&c.Variant, "variant", "default", "build variant")
	flag.Parse()
	c.Args = flag.Args()
	c.Rng = rand.New(rand.NewSource(c.Seed))
	f, ok := drivers[*drv]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown driver", *drv)
		os.Exit(3)
	}
	c.open()
	f(c)
	c.close()
	b, _ := json.Marshal(M{"stats": c.Stats, "samples": c.Samples})
	if err := os.WriteFile(c.OutBase+".stats.json", b, 0o644); err != nil {
		panic(err)
	}
}
