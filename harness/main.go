package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "verif directory")
	isWorker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list properties")
	wall := flag.Int("wall", 840, "wall-clock limit in seconds")
	fresh := flag.String("fresh", "", "")
	flag.Parse()
	applyExtensions()
	if *list {
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k, props[k].Race)
		}
		return
	}
	known, _ := loadKnown(filepath.Join(*verif, "known_findings.jsonl"))
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		p := props[v.Prop]
		if p == nil {
			fatal("unknown property")
		}
		tmp, _ := os.MkdirTemp("", "gogeo-replay-")
		defer os.RemoveAll(tmp)
		o := filepath.Join(tmp, "w")
		fmt.Println("replaying", v.Prop, v.Family, v.Index, "seed", v.Seed)
		runWorker(p, v.Seed, v.Tier, 0, 1, o, known, v.Family, v.Index)
		return
	}
	if *fresh != "" {
		freshMain(*fresh)
		return
	}
	p := props[*prop]
	if p == nil {
		fatal("unknown property " + strconv.Quote(*prop))
	}
	if *isWorker {
		runWorker(p, *seed, *tier, *shard, *shards, *out, known, "", 0)
		return
	}
	os.Exit(supervise(p, *seed, *tier, *verif, time.Duration(*wall)*time.Second))
}
