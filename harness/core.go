package main

// Framework: registry of generated checks ("subs"), the case context and the
// statistics that go into the evidence.

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated check of a property.
type Sub struct {
	Prop, Name string
	Quick      int    // cases in one process
	Shards     int    // processes in the quick tier
	Thorough   int    // processes in the thorough tier
	Rule       string // what a case is and when it is non-trivial
	Fixed      bool   // a list of plain cases (regressions), run once, without rapid
	Fn         func(c *C)
}

var subs []*Sub

func reg(prop, name string, quick int, rule string, fn func(c *C)) *Sub {
	s := &Sub{Prop: prop, Name: name, Quick: quick, Shards: 16, Thorough: 800, Rule: rule, Fn: fn}
	if prop == "P23" { // with the race detector
		s.Shards, s.Thorough = 8, 240
	}
	subs = append(subs, s)
	return s
}

func regFixed(prop, name, rule string, fn func(c *C)) {
	subs = append(subs, &Sub{Prop: prop, Name: name, Rule: rule, Fixed: true, Fn: fn})
}

type fixedFail struct{ msg string }

// C is the context of one generated case.
type C struct {
	rt  *rapid.T // nil in fixed mode
	sub *Sub
	buf strings.Builder
}

type stats struct {
	mu       sync.Mutex
	evals    int64
	nontriv  int64
	hashes   map[uint64]struct{}
	labels   map[string]int64
	samples  []string
	frozen   bool // a failure was seen: shrinking must not count
	failure  string
	lastDesc string
}

var (
	st          = &stats{hashes: map[uint64]struct{}{}, labels: map[string]int64{}}
	journalFile *os.File
	caseStartC  int64 // atomic: CPU ns at the start of the current case, 0 = none
	caseStartW  int64 // atomic: wall ns
	invocations int64 // invocations of the property during the search
)

const maxHashes = 4000000

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Journal tells the parent what is about to be executed (crash and hang reports).
func (c *C) Journal(desc string) {
	st.mu.Lock()
	st.lastDesc = clip(desc, 4000)
	st.mu.Unlock()
	if journalFile != nil {
		journalFile.Truncate(0)
		journalFile.WriteAt([]byte(desc), 0)
	}
}

// Case records one evaluated case. It is called once per case, before the code
// under test runs wherever possible.
func (c *C) Case(nontrivial bool, desc string) {
	c.Journal(desc)
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.frozen {
		return
	}
	st.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(c.sub.Name))
		h.Write([]byte{0})
		h.Write([]byte(desc))
		if len(st.hashes) < maxHashes {
			st.hashes[h.Sum64()] = struct{}{}
		}
		st.nontriv++
		n := st.nontriv
		if n == 3 || n == 40 || n == 400 || n == 4000 {
			st.samples = append(st.samples, clip(strings.ToValidUTF8(desc, "\uFFFD"), 600))
		}
	}
}

// Label counts a class of cases.
func (c *C) Label(l string) {
	st.mu.Lock()
	if !st.frozen {
		st.labels[l]++
	}
	st.mu.Unlock()
}

func (c *C) LabelIf(b bool, l string) {
	if b {
		c.Label(l)
	}
}

func (c *C) Failf(format string, args ...interface{}) {
	msg := clip(fmt.Sprintf(format, args...), 6000)
	st.mu.Lock()
	st.frozen = true
	st.failure = msg
	st.mu.Unlock()
	if c.rt != nil {
		c.rt.Fatalf("%s", msg)
	}
	panic(fixedFail{msg})
}

// Guard runs f and reports a panic of the code under test together with what.
func (c *C) Guard(what string, f func()) {
	done := false
	defer func() {
		if done {
			return
		}
		if r := recover(); r != nil {
			if !isPanicOfCode(r) {
				panic(r)
			}
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			c.Failf("%s: panic: %v\n%s", what, r, stackExcerpt(string(buf)))
		}
	}()
	f()
	done = true
}

func isPanicOfCode(r interface{}) bool {
	t := fmt.Sprintf("%T", r)
	return !strings.HasPrefix(t, "rapid.") && !strings.HasPrefix(t, "*rapid.") && !strings.HasPrefix(t, "main.fixedFail")
}

func stackExcerpt(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "jsonutils") && !strings.HasPrefix(l, "\t") {
			o := l
			if i+1 < len(lines) {
				o += " @ " + strings.TrimSpace(lines[i+1])
			}
			out = append(out, o)
			if len(out) > 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func enterCase() {
	atomic.StoreInt64(&caseStartW, time.Now().UnixNano())
	atomic.StoreInt64(&caseStartC, -1) // the watchdog fills it in
}

func leaveCase() { atomic.StoreInt64(&caseStartW, 0) }

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

const (
	exitHangCPU  = 77
	exitHangWall = 78
	exitMemory   = 79
)

// watchdog ends the process when a single case does not come to an end.
// Resource use is never an oracle by itself: the limits are four orders of
// magnitude above the usual cost of a case, and the parent re-runs the very
// same case before it reports anything.
func watchdog(cpuLimit, wallLimit time.Duration, memLimit int64) {
	var curW, baseC int64
	for {
		time.Sleep(100 * time.Millisecond)
		w := atomic.LoadInt64(&caseStartW)
		if r := rssBytes(); r > memLimit {
			die(exitMemory, fmt.Sprintf("resident memory %d MB while running a case", r>>20))
		}
		if w == 0 {
			curW = 0
			continue
		}
		if w != curW {
			curW = w
			baseC = cpuNow()
			continue
		}
		if d := cpuNow() - baseC; d > int64(cpuLimit) {
			die(exitHangCPU, fmt.Sprintf("one case used %d s of CPU and did not end", d/1e9))
		}
		if d := time.Now().UnixNano() - w; d > int64(wallLimit) {
			die(exitHangWall, fmt.Sprintf("one case ran %d s and did not end", d/1e9))
		}
	}
}

func die(code int, msg string) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	st.mu.Lock()
	desc := st.lastDesc
	st.mu.Unlock()
	if st.frozen && st.failure != "" {
		// a failure was already found, the search for a smaller one got stuck
		writeOutcome(outcome{Status: "fail", Message: st.failure + "\n(not minimised: " + msg + ")", Iter: atomic.LoadInt64(&invocations) - 1})
		os.Exit(1)
	}
	writeOutcome(outcome{Status: "died", Message: msg + "\ncase: " + desc + "\n" + stackExcerpt(string(buf)), Iter: atomic.LoadInt64(&invocations) - 1})
	os.Exit(code)
}

func sortedKeysOf(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
