package vlib

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one run of one check.
type Run struct {
	Prop     string
	Tier     string
	Seed     uint64
	Verif    string
	Rule     string
	Exhaust  bool
	Assume   []string
	start    time.Time
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	events   map[string]int64
	samples  []interface{}
	viol     []string
	replay   []interface{}
	nviol    int
	known    map[string]string
	knownHit map[string]int
	busy     []atomic.Value
}

type busy struct {
	what string
	at   time.Time
}

// Scale is the factor by which the thorough tier extends a case list.
func (r *Run) Scale(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

func Start(prop string) *Run {
	r := &Run{
		Prop:     prop,
		Tier:     os.Getenv("VERIF_TIER"),
		Verif:    os.Getenv("VERIF_DIR"),
		start:    time.Now(),
		distinct: map[uint64]struct{}{},
		events:   map[string]int64{},
		known:    map[string]string{},
		knownHit: map[string]int{},
		busy:     make([]atomic.Value, 256),
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.Verif == "" {
		r.Verif = "/verif"
	}
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		s = 1
	}
	r.Seed = s
	r.loadKnown()
	go r.watch()
	return r
}

// loadKnown reads the lines "finding: property=<id> key=<key> <text>" of the
// known-findings file. "fixed:" lines suppress nothing.
func (r *Run) loadKnown() {
	data, err := os.ReadFile(filepath.Join(r.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+r.Prop && strings.HasPrefix(f[2], "key=") {
			r.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
}

// watch reports a case that does not come back: the cases take milliseconds.
func (r *Run) watch() {
	for {
		time.Sleep(5 * time.Second)
		for i := range r.busy {
			b, _ := r.busy[i].Load().(busy)
			if b.what != "" && time.Since(b.at) > 240*time.Second {
				r.Violation("does not terminate: "+b.what, map[string]interface{}{"case": b.what})
				r.Finish()
			}
		}
	}
}

// RNG is the source of case i of a stream of cases.
func (r *Run) RNG(stream string, i int) *RNG {
	return NewRNG(r.Seed, Hash(stream), uint64(i))
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func HashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Eval counts an evaluation; key identifies the case when it is non-trivial.
func (r *Run) Eval(key uint64, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[key] = struct{}{}
	}
	r.mu.Unlock()
}

// Event counts something the monitor observed.
func (r *Run) Event(name string) { r.EventN(name, 1) }

func (r *Run) EventN(name string, n int64) {
	r.mu.Lock()
	r.events[name] += n
	r.mu.Unlock()
}

func (r *Run) Events(m map[string]int64) {
	r.mu.Lock()
	for k, v := range m {
		r.events[k] += v
	}
	r.mu.Unlock()
}

// Sample keeps the first few cases written out.
func (r *Run) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 4
}

// Violation records that the property was seen broken.
func (r *Run) Violation(what string, repro interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, t := range r.known {
		if strings.HasPrefix(what, k) {
			if r.knownHit[k] == 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, t)
			}
			r.knownHit[k]++
			return
		}
	}
	r.nviol++
	if len(r.viol) < 20 {
		r.viol = append(r.viol, what)
		r.replay = append(r.replay, map[string]interface{}{"what": what, "repro": repro})
	}
}

func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nviol
}

// Par runs cases 0..n-1 of a stream on all cores. Which cases run does not
// depend on timing, except that it stops early once there are violations.
func (r *Run) Par(stream string, n int, f func(i int, rng *RNG)) {
	if only := os.Getenv("VERIF_CASE"); only != "" {
		// a single case, for debugging
		i, _ := strconv.Atoi(only)
		f(i, r.RNG(stream, i))
		return
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.Violations() >= 20 {
					break
				}
				r.busy[w].Store(busy{fmt.Sprintf("%s case %d", stream, i), time.Now()})
				if p := Catch(func() { f(i, r.RNG(stream, i)) }); p != nil {
					r.Violation(fmt.Sprintf("%s case %d: panic outside a guarded call: %v", stream, i, p.Value), map[string]interface{}{"stream": stream, "case": i, "stack": p.Stack})
				}
			}
			r.busy[w].Store(busy{})
		}(w)
	}
	wg.Wait()
}

type Panic struct {
	Value interface{}
	Stack string
}

// Catch runs f and returns its panic, if any.
func Catch(f func()) (p *Panic) {
	defer func() {
		if v := recover(); v != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			keep := []string{}
			for _, l := range st {
				if strings.Contains(l, ".go:") && strings.Contains(l, "/internal/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 8 {
				keep = keep[:8]
			}
			p = &Panic{v, strings.Join(keep, " | ")}
		}
	}()
	f()
	return nil
}

func Hex(b []byte) string {
	if len(b) > 400 {
		return hex.EncodeToString(b[:400]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// Finish writes the evidence and ends the process.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := make([]string, 0, len(r.events))
	for k := range r.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ev := map[string]int64{}
	for _, k := range keys {
		ev[k] = r.events[k]
	}
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
		"observed_events":     ev,
		"distinct_events":     len(ev),
	}
	if r.samples == nil {
		cov["samples"] = []interface{}{}
	}
	if r.Exhaust {
		cov["exhaustive"] = true
	}
	if len(r.knownHit) > 0 {
		cov["known_findings_seen"] = r.knownHit
	}
	doc := map[string]interface{}{
		"property":   r.Prop,
		"tier":       r.Tier,
		"seed":       r.Seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     time.Since(r.start).Seconds(),
		"violations": r.nviol,
	}
	if len(r.Assume) > 0 {
		doc["assumptions"] = r.Assume
	}
	out, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	dir := evidenceDir(r.Verif)
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(out, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	if r.nviol > 0 {
		rdir := filepath.Join(dir, "replay")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, r.Prop+".json")
		rep, _ := json.MarshalIndent(map[string]interface{}{
			"property": r.Prop, "seed": r.Seed, "tier": r.Tier,
			"how":        "VERIF_SEED and VERIF_TIER as here, then the quick_cmd or thorough_cmd of this property: the case list is determined by them",
			"violations": r.replay}, "", " ")
		os.WriteFile(path, append(rep, '\n'), 0o644)
		for _, v := range r.viol {
			fmt.Println("  " + v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d events=%d wall=%.1fs\n",
		r.Prop, r.Tier, r.Seed, r.evals, len(r.distinct), len(ev), time.Since(r.start).Seconds())
	os.Exit(0)
}

// evidenceDir is where evidence goes; trials against changed trees keep theirs
// apart.
func evidenceDir(verif string) string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(verif, "evidence")
}
