package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/lab"
)

type result struct {
	ID      string         `json:"id"`
	Err     string         `json:"err,omitempty"`
	Events  int            `json:"events"`
	Cmds    int            `json:"cmds"`
	Hooks   int            `json:"hooks"`
	Kills   int            `json:"kills"`
	Classes map[string]int `json:"classes,omitempty"`
	Ks      map[string]int `json:"ks,omitempty"`
	Ms      int64          `json:"ms"`
}

// outcome of one scenario: its events, what was exercised, and trouble of the harness itself.
type outcome struct {
	events []lab.Event
	res    result
	err    error
}

func pipelineOne(raw []byte, rd *lab.Redis, dir, bin string) outcome {
	var sc lab.Scenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		return outcome{err: err}
	}
	p := lab.NewPipe(&sc, rd, dir, bin)
	p.Run()
	return outcome{p.Events, result{ID: sc.ID, Events: len(p.Events), Cmds: p.Cmds, Hooks: p.Hooks, Kills: p.Kills, Classes: p.Classes, Ks: p.Ks}, p.Err}
}

func fetchOne(raw []byte, rd *lab.Redis, dir, bin string) outcome {
	var sc lab.FScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		return outcome{err: err}
	}
	p := lab.NewFetch(&sc, rd, dir, bin)
	p.Run()
	return outcome{p.Events, result{ID: sc.ID, Events: len(p.Events), Cmds: p.Cmds, Hooks: p.Fired, Kills: p.Kills, Classes: p.Classes}, p.Err}
}

func crlOne(raw []byte, rd *lab.Redis, dir, bin string) outcome {
	var sc lab.CScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		return outcome{err: err}
	}
	p := lab.NewCrl(&sc, dir, bin)
	p.Run()
	return outcome{p.Events, result{ID: sc.ID, Events: len(p.Events), Cmds: p.Cmds, Hooks: p.Fired, Kills: p.Kills, Classes: p.Classes}, p.Err}
}

func rootsOne(raw []byte, rd *lab.Redis, dir, bin string) outcome {
	var sc lab.RScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		return outcome{err: err}
	}
	p := lab.NewRoots(&sc, rd, dir, bin)
	p.Run()
	return outcome{p.Events, result{ID: sc.ID, Events: len(p.Events), Hooks: p.Fired, Classes: p.Classes}, p.Err}
}

func roots(args []string) error    { return runAll(args, rootsOne, true) }
func crl(args []string) error      { return runAll(args, crlOne, false) }
func pipeline(args []string) error { return runAll(args, pipelineOne, true) }
func fetch(args []string) error    { return runAll(args, fetchOne, true) }

// runAll: scenarios (ndjson) -> trace (ndjson, traces in scenario order) and results (ndjson).
func runAll(args []string, one func([]byte, *lab.Redis, string, string) outcome, redis bool) error {
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "trace")
	res := fs.String("res", "", "results")
	bin := fs.String("bin", "", "binaries")
	nw := fs.Int("j", 8, "workers")
	work := fs.String("work", "", "scratch")
	keep := fs.Bool("keep", false, "keep scratch")
	fs.Parse(args)
	f, err := os.Open(*in)
	if err != nil {
		return err
	}
	var scs [][]byte
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		scs = append(scs, append([]byte{}, s.Bytes()...))
	}
	f.Close()
	evs := make([][]lab.Event, len(scs))
	rs := make([]result, len(scs))
	if *nw > len(scs) {
		*nw = len(scs)
	}
	jobs := make(chan int)
	var wg sync.WaitGroup
	var emu sync.Mutex
	var fatal error
	for w := 0; w < *nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var rd *lab.Redis
			if redis {
				var err error
				rd, err = lab.StartRedis(filepath.Join(*work, fmt.Sprintf("r%d", w)))
				if err != nil {
					emu.Lock()
					fatal = err
					emu.Unlock()
					for range jobs {
					}
					return
				}
				defer rd.Stop()
			}
			for i := range jobs {
				for try := 0; try < 2; try++ {
					d := filepath.Join(*work, fmt.Sprintf("w%d", w), fmt.Sprintf("s%d.%d", i, try))
					t0 := time.Now()
					o := one(scs[i], rd, d, *bin)
					o.res.Ms = time.Since(t0).Milliseconds()
					evs[i] = o.events
					if o.err != nil {
						o.res.Err = o.err.Error()
						var id struct {
							ID string `json:"id"`
						}
						json.Unmarshal(scs[i], &id)
						o.res.ID = id.ID
					}
					rs[i] = o.res
					if !*keep {
						os.RemoveAll(d)
					}
					if o.err == nil {
						break
					}
				}
			}
		}(w)
	}
	for i := range scs {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	if fatal != nil {
		return fatal
	}
	fo, err := os.Create(*out)
	if err != nil {
		return err
	}
	bo := bufio.NewWriter(fo)
	for i := range scs {
		if rs[i].Err != "" && !*keep {
			continue
		}
		for _, e := range evs[i] {
			b, _ := json.Marshal(e)
			bo.Write(b)
			bo.WriteByte('\n')
		}
	}
	if err := bo.Flush(); err != nil {
		return err
	}
	fo.Close()
	fr, err := os.Create(*res)
	if err != nil {
		return err
	}
	br := bufio.NewWriter(fr)
	for _, r := range rs {
		b, _ := json.Marshal(r)
		br.Write(b)
		br.WriteByte('\n')
	}
	if err := br.Flush(); err != nil {
		return err
	}
	return fr.Close()
}
