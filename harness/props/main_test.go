// Package props contains one group of generated checks per property of
// /verif/properties.jsonl: TestC01... decides C01 and so on.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- run parameters (set by bin/check.py) ----

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	thorough  = os.Getenv("VERIF_TIER") == "thorough"
	shard     = envInt("VERIF_SHARD", 0)
	shards    = envInt("VERIF_SHARDS", 1)
	baseSeed  = envInt("VERIF_SEED", 1)
	scale     = envInt("VERIF_SCALE", 100) // percent, for development
	deadline  time.Time
	scratch   string
	raceBuild bool // set in race builds
)

// ---- statistics ----

type statT struct {
	mu       sync.Mutex
	Evals    int64            `json:"evaluations"`
	Skipped  int64            `json:"skipped_for_time"`
	Hashes   map[uint64]bool  `json:"-"`
	HashList []uint64         `json:"nontrivial"`
	Samples  []string         `json:"samples"`
	Labels   map[string]int64 `json:"labels"`
}

var stats = statT{Hashes: map[uint64]bool{}, Labels: map[string]int64{}}

// eval counts one generated case, execution or input.
func eval() { evalN(1) }

func evalN(n int) {
	stats.mu.Lock()
	stats.Evals += int64(n)
	stats.mu.Unlock()
}

// nontrivial counts a case that is non-trivial by the property's rule; key
// identifies it, so that equal cases count once.
func nontrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	stats.mu.Lock()
	defer stats.mu.Unlock()
	v := h.Sum64()
	if !stats.Hashes[v] {
		stats.Hashes[v] = true
		if n := len(stats.Hashes); n == 1 || n == 10 || n == 100 || n == 1000 {
			if len(key) > 600 {
				key = key[:600] + "..."
			}
			stats.Samples = append(stats.Samples, key)
		}
	}
}

func label(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	stats.mu.Lock()
	stats.Labels[s]++
	stats.mu.Unlock()
}

func writeStats() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		if testing.Verbose() {
			b, _ := json.Marshal(stats.Labels)
			fmt.Printf("evaluations=%d nontrivial=%d skipped=%d labels=%s\n", stats.Evals, len(stats.Hashes), stats.Skipped, b)
		}
		return
	}
	for h := range stats.Hashes {
		stats.HashList = append(stats.HashList, h)
	}
	sort.Slice(stats.HashList, func(i, j int) bool { return stats.HashList[i] < stats.HashList[j] })
	b, _ := json.Marshal(&stats)
	os.WriteFile(path, b, 0644)
}

// ---- progress, watchdog ----

var progress int64
var lastStep atomic.Value // string

// step records that the check is getting on, and what it does now.
func step(format string, a ...interface{}) {
	atomic.AddInt64(&progress, 1)
	lastStep.Store(fmt.Sprintf(format, a...))
}

// infra ends the process for a reason that says nothing about the library.
func infra(format string, a ...interface{}) {
	fmt.Printf("VERIF-INFRA: "+format+"\n", a...)
	os.Exit(99)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const libPrefix = "github.com/bwesterb/go-xmssmt."

var goHdr = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]*)`)

// blockedInLibrary inspects the stacks of all goroutines.  It returns the
// (sorted) identities of the goroutines inside the library, and whether each
// of them is blocked in a synchronisation primitive the library itself called.
func blockedInLibrary() (ids string, all bool, dump string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	dump = string(buf)
	var list []string
	all = true
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, libPrefix) {
			continue
		}
		lines := strings.Split(g, "\n")
		m := goHdr.FindStringSubmatch(lines[0])
		if m == nil {
			all = false
			continue
		}
		// top frame that is not the runtime's or package sync's
		top := ""
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
				continue
			}
			if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") ||
				strings.HasPrefix(l, "internal/sync.") || strings.HasPrefix(l, "internal/runtime") {
				continue
			}
			top = l
			break
		}
		if top == "" || strings.HasPrefix(top, "created by") {
			continue
		}
		// The goroutine may merely have been created by the library.
		if !strings.HasPrefix(top, libPrefix) {
			inside := false
			for _, l := range lines[1:] {
				if strings.HasPrefix(l, libPrefix) {
					inside = true
				}
			}
			if !inside {
				continue
			}
			all = false
		}
		switch m[2] {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Cond.Wait",
			"sync.WaitGroup.Wait", "semacquire", "chan receive", "chan send", "select",
			"chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		default:
			all = false
		}
		list = append(list, m[1]+":"+m[2])
	}
	sort.Strings(list)
	return strings.Join(list, ","), all && len(list) > 0, dump
}

func watchdog() {
	last, since, cpu := int64(-1), time.Now(), cpuSeconds()
	for {
		time.Sleep(500 * time.Millisecond)
		p := atomic.LoadInt64(&progress)
		if p != last {
			last, since, cpu = p, time.Now(), cpuSeconds()
			continue
		}
		if time.Since(since) < 8*time.Second {
			continue
		}
		// Nothing moved for a while.  Is the library stuck for good?  Only a
		// state from which no goroutine can run again counts.
		ids, all, dump := blockedInLibrary()
		stuck := all
		for i := 0; stuck && i < 4; i++ {
			time.Sleep(time.Second)
			ids2, all2, _ := blockedInLibrary()
			stuck = all2 && ids2 == ids && atomic.LoadInt64(&progress) == p
		}
		if stuck {
			s, _ := lastStep.Load().(string)
			fmt.Printf("VERIF-DEADLOCK: every goroutine inside the library waits for another one (%s)\ncase: %s\n%s\n", ids, s, dump)
			os.Exit(97)
		}
		// An endless computation: measured in work done, not in time passed.
		if cpuSeconds()-cpu > 400 {
			s, _ := lastStep.Load().(string)
			fmt.Printf("VERIF-ENDLESS: one case used 400 s of processor time without an end\ncase: %s\n%s\n", s, dump)
			os.Exit(98)
		}
	}
}

// ---- entry ----

func TestMain(m *testing.M) {
	if w := os.Getenv("VERIF_WORKER"); w != "" {
		runWorker(w)
		os.Exit(0)
	}
	flag.Parse()
	deadline = time.Now().Add(time.Duration(envInt("VERIF_BUDGET", 3600)) * time.Second)
	var err error
	base := os.Getenv("VERIF_SCRATCH")
	scratch, err = os.MkdirTemp(base, "verif-props-")
	if err != nil {
		infra("scratch: %v", err)
	}
	go watchdog()
	code := m.Run()
	os.RemoveAll(scratch)
	writeStats()
	os.Exit(code)
}

// check runs a property over generated cases: q of them (over all shards) in
// the quick tier, th in the thorough tier.
func check(t *testing.T, q, th int, prop func(t *rapid.T)) {
	t.Helper()
	n := q
	if thorough {
		n = th
	}
	n = n * scale / 100
	per := n / shards
	if shard < n%shards {
		per++
	}
	if per == 0 {
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(per))
	rapid.Check(t, func(t *rapid.T) {
		if time.Now().After(deadline) {
			stats.mu.Lock()
			stats.Skipped++
			stats.mu.Unlock()
			return
		}
		step("%s", "case")
		prop(t)
	})
}

// mine tells whether item i of an enumeration belongs to this shard.
func mine(i int) bool { return i%shards == shard }
