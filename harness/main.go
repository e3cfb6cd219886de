// Command harness runs the bounded differential suites (one per property) against the real velty code in /repo.
// It never counts as a proof: every suite states the finite space it enumerates.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Ctx enumerates the cases of one suite; every worker enumerates all of them and executes its own share.
type Ctx struct {
	Thorough bool
	Seed     int64
	shard    int
	shards   int
	start    int64
	describe int64
	only     string
	idx      int64
	out      *Result
	progress *os.File
	deadline time.Time
	hashes   map[uint64]struct{}
	current  int64
	began    int64
	keyf     func() string
	stopped  bool
	known    map[string]bool
}

// Fail is one property violation
type Fail struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Index  int64  `json:"index"`
}

// Result of a worker
type Result struct {
	Evaluations int64    `json:"evaluations"`
	Distinct    int64    `json:"distinct"`
	Total       int64    `json:"total"`
	Samples     []string `json:"samples"`
	Fails       []Fail   `json:"fails"`
	TimedOut    bool     `json:"timed_out"`
	Rule        string   `json:"rule"`
}

// N picks the bound of the tier
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Case runs one case: f returns "" if the property held, or what was wrong.
func (c *Ctx) Case(keyf func() string, f func() string) {
	i := c.idx
	c.idx++
	if c.describe >= 0 {
		if i == c.describe {
			fmt.Print(keyf())
			os.Exit(0)
		}
		return
	}
	if c.only != "" {
		if i%64 == 0 && false {
			return
		}
		if keyf() != c.only {
			return
		}
	} else if i%int64(c.shards) != int64(c.shard) || i < c.start {
		return
	}
	if c.stopped {
		return
	}
	if i&63 == 0 || c.out.Evaluations&15 == 0 {
		if time.Now().After(c.deadline) {
			c.stopped = true
			c.out.TimedOut = true
			return
		}
	}
	if len(c.out.Fails) >= 50 {
		return
	}
	var b [24]byte
	copy(b[:], fmt.Sprintf("%020d\n", i))
	_, _ = c.progress.WriteAt(b[:21], 0)
	atomic.StoreInt64(&c.began, time.Now().UnixNano())
	key := keyf()
	h := fnv.New64a()
	_, _ = io.WriteString(h, key)
	c.hashes[h.Sum64()] = struct{}{}
	msg := protect(f)
	atomic.StoreInt64(&c.began, 0)
	c.out.Evaluations++
	if msg == skip {
		delete(c.hashes, h.Sum64())
		return
	}
	if len(c.out.Samples) < 3 || (len(c.out.Samples) < 6 && i%9973 == 0) {
		c.out.Samples = append(c.out.Samples, clip(key, 300))
	}
	if msg != "" {
		c.out.Fails = append(c.out.Fails, Fail{Key: key, Detail: msg, Index: i})
	}
}

// skip marks a case that is outside of the property's domain
const skip = "\x00skip"

// Rand runs n cases, each with its own generator
func (c *Ctx) Rand(name string, n int, f func(r *rand.Rand) (key string, run func() string)) {
	for i := 0; i < n; i++ {
		if c.describe < 0 && c.only == "" && (c.idx%int64(c.shards) != int64(c.shard) || c.idx < c.start || c.stopped) {
			c.idx++
			continue
		}
		h := fnv.New64a()
		_, _ = io.WriteString(h, name+"|"+strconv.Itoa(i)+"|"+strconv.FormatInt(c.Seed, 10))
		r := rand.New(rand.NewSource(int64(h.Sum64())))
		key, run := f(r)
		k := name + ": " + key
		c.Case(func() string { return k }, run)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func protect(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

// Suite enumerates the cases of a property
type Suite struct {
	Rule string
	Run  func(c *Ctx)
}

var showN = 15

var suites = map[string]Suite{}

func main() {
	suite := flag.String("suite", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	worker := flag.String("worker", "", "k/n")
	start := flag.Int64("start", 0, "first index")
	progress := flag.String("progress", "", "progress file")
	describe := flag.Int64("describe", -1, "print the key of a case")
	only := flag.String("key", "", "run the case with this key only")
	limit := flag.Int("limit", 0, "seconds")
	flag.IntVar(&showN, "show", 15, "number of failures to print")
	workers := flag.Int("workers", 8, "number of workers")
	flag.Parse()
	s, ok := suites[*suite]
	if !ok {
		fmt.Fprintln(os.Stderr, "no suite", *suite)
		os.Exit(2)
	}
	if *limit == 0 {
		*limit = 100
		if *tier == "thorough" {
			*limit = 600
		}
	}
	if *worker == "" && *describe < 0 {
		os.Exit(parent(*suite, *tier, *seed, *out, *only, *limit, *workers, s))
	}
	c := &Ctx{Thorough: *tier == "thorough", Seed: *seed, shards: 1, start: *start, describe: *describe, only: *only,
		out: &Result{Rule: s.Rule}, hashes: map[uint64]struct{}{}, deadline: time.Now().Add(time.Duration(*limit) * time.Second)}
	if *worker != "" {
		fmt.Sscanf(*worker, "%d/%d", &c.shard, &c.shards)
		var err error
		if c.progress, err = os.OpenFile(*progress, os.O_CREATE|os.O_WRONLY, 0644); err != nil {
			panic(err)
		}
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if b := atomic.LoadInt64(&c.began); b != 0 && time.Now().UnixNano()-b > int64(20*time.Second) {
				fmt.Fprintln(os.Stderr, "HANG: the case did not end within 20s")
				os.Exit(7)
			}
		}
	}()
	s.Run(c)
	if *describe >= 0 {
		os.Exit(3)
	}
	c.out.Total = c.idx
	c.out.Distinct = int64(len(c.hashes))
	writeJSON(*out, c.out)
}

func writeJSON(path string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
}

func parent(suite, tier string, seed int64, out, only string, limit, n int, s Suite) int {
	dir, err := os.MkdirTemp("", "harness")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if only != "" {
		n = 1
	}
	type res struct {
		r      *Result
		errMsg string
	}
	results := make(chan res, n)
	began := time.Now()
	for k := 0; k < n; k++ {
		go func(k int) {
			total := &Result{}
			start := int64(0)
			for attempt := 0; ; attempt++ {
				of := filepath.Join(dir, fmt.Sprintf("o%d_%d", k, attempt))
				pf := filepath.Join(dir, fmt.Sprintf("p%d_%d", k, attempt))
				left := limit - int(time.Since(began).Seconds())
				if left < 1 {
					total.TimedOut = true
					break
				}
				cmd := exec.Command("/bin/bash", "-c", `ulimit -v 3500000; exec "$0" "$@"`, os.Args[0], "-suite", suite, "-tier", tier, "-seed", fmt.Sprint(seed),
					"-out", of, "-progress", pf, "-worker", fmt.Sprintf("%d/%d", k, n), "-start", fmt.Sprint(start), "-key", only, "-limit", fmt.Sprint(left))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
				var eb strings.Builder
				cmd.Stderr = &eb
				runErr := cmd.Run()
				if data, e := os.ReadFile(of); e == nil {
					r := &Result{}
					if e = json.Unmarshal(data, r); e == nil {
						merge(total, r)
						break
					}
				}
				p, e := os.ReadFile(pf)
				if e != nil || len(p) < 20 {
					results <- res{errMsg: fmt.Sprintf("worker did not start: %v %v", runErr, clip(eb.String(), 2000))}
					return
				}
				idx, _ := strconv.ParseInt(strings.TrimSpace(string(p[:20])), 10, 64)
				key := only
				if key == "" {
					d := exec.Command(os.Args[0], "-suite", suite, "-tier", tier, "-seed", fmt.Sprint(seed), "-describe", fmt.Sprint(idx))
					kb, _ := d.Output()
					key = string(kb)
				}
				total.Fails = append(total.Fails, Fail{Key: key, Detail: fmt.Sprintf("the process executing the case died: %v\n%s", runErr, clip(eb.String(), 3000)), Index: idx})
				total.Evaluations++
				start = idx + 1
				if attempt > 10 || only != "" {
					break
				}
			}
			results <- res{r: total}
		}(k)
	}
	final := &Result{Rule: s.Rule}
	for k := 0; k < n; k++ {
		r := <-results
		if r.r == nil {
			fmt.Fprintln(os.Stderr, r.errMsg)
			return 2
		}
		merge(final, r.r)
	}
	final.Rule = s.Rule
	if len(final.Samples) > 8 {
		final.Samples = final.Samples[:8]
	}
	if out != "" {
		writeJSON(out, final)
	}
	fmt.Printf("suite=%s tier=%s cases=%d distinct=%d fails=%d timedout=%v\n", suite, tier, final.Evaluations, final.Distinct, len(final.Fails), final.TimedOut)
	for i, f := range final.Fails {
		if i >= showN {
			break
		}
		fmt.Printf("FAIL %s\n  %s\n", clip(f.Key, 600), strings.ReplaceAll(clip(f.Detail, 700), "\n", "\n  "))
	}
	if len(final.Fails) > 0 {
		return 1
	}
	return 0
}

func merge(a, b *Result) {
	a.Evaluations += b.Evaluations
	a.Distinct += b.Distinct
	if b.Total > a.Total {
		a.Total = b.Total
	}
	a.Samples = append(a.Samples, b.Samples...)
	a.Fails = append(a.Fails, b.Fails...)
	a.TimedOut = a.TimedOut || b.TimedOut
}
