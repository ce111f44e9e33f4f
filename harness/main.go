package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"yunion.io/x/log"
)

type outcome struct {
	Status   string           `json:"status"` // ok, fail, flaky, generr, died
	Message  string           `json:"message"`
	FailFile string           `json:"failfile"`
	Iter     int64            `json:"iter"`
	Evals    int64            `json:"evals"`
	Nontriv  int64            `json:"nontriv"`
	Distinct int              `json:"distinct"`
	Labels   map[string]int64 `json:"labels"`
	Samples  []string         `json:"samples"`
	Wall     float64          `json:"wall"`
}

var (
	fProp    = flag.String("prop", "", "property id")
	fSub     = flag.String("sub", "", "check name")
	fOut     = flag.String("out", "", "outcome file")
	fHashes  = flag.String("hashes", "", "file for the hashes of the distinct non-trivial cases")
	fJournal = flag.String("journal", "", "journal file")
	fList    = flag.Bool("list", false, "list the checks as JSON")
	startT   = time.Now()
)

func writeOutcome(o outcome) {
	st.mu.Lock()
	defer st.mu.Unlock()
	o.Evals, o.Nontriv, o.Distinct = st.evals, st.nontriv, len(st.hashes)
	o.Labels, o.Samples = st.labels, st.samples
	o.Wall = time.Since(startT).Seconds()
	b, _ := json.Marshal(o)
	if *fOut != "" {
		os.WriteFile(*fOut, b, 0644)
	} else {
		fmt.Println(o.Status, o.Message)
		fmt.Println("evals", o.Evals, "nontriv", o.Nontriv, "distinct", o.Distinct, "wall", o.Wall)
		for _, k := range sortedKeysOf(o.Labels) {
			fmt.Printf("  %-40s %d\n", k, o.Labels[k])
		}
		for _, s := range o.Samples {
			fmt.Println("  sample:", s)
		}
	}
	if *fHashes != "" {
		f, err := os.Create(*fHashes)
		if err == nil {
			w := bufio.NewWriter(f)
			for h := range st.hashes {
				binary.Write(w, binary.LittleEndian, h)
			}
			w.Flush()
			f.Close()
		}
	}
}

// tb is the testing.TB that rapid reports to.
type tb struct {
	name   string
	failed bool
	logs   []string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { t.logs = append(t.logs, clip(fmt.Sprintf(f, a...), 3000)) }
func (t *tb) Log(a ...any)              { t.logs = append(t.logs, clip(fmt.Sprint(a...), 3000)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *tb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func main() {
	testing.Init()
	flag.Parse()
	if *fList {
		type ls struct {
			Prop, Name, Rule        string
			Quick, Shards, Thorough int
			Fixed                   bool
		}
		var l []ls
		for _, s := range subs {
			l = append(l, ls{s.Prop, s.Name, s.Rule, s.Quick, s.Shards, s.Thorough, s.Fixed})
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	log.SetLogLevelByString(log.Logger(), "fatal")
	debug.SetMaxStack(256 << 20)
	var sub *Sub
	for _, s := range subs {
		if s.Prop == *fProp && s.Name == *fSub {
			sub = s
		}
	}
	if sub == nil {
		fmt.Fprintln(os.Stderr, "no such check")
		os.Exit(3)
	}
	if *fJournal != "" {
		journalFile, _ = os.Create(*fJournal)
	}
	// what the code does must not depend on the place
	time.Local = time.FixedZone("LOC", 5*3600+45*60)
	if len(sub.Name)%2 == 0 {
		time.Local = time.FixedZone("LOC", -9*3600-30*60)
	}
	go watchdog(20*time.Second, 100*time.Second, 3<<30)

	if sub.Fixed {
		o := outcome{Status: "ok"}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(fixedFail); ok {
						o = outcome{Status: "fail", Message: f.msg}
						return
					}
					o = outcome{Status: "fail", Message: fmt.Sprintf("panic: %v\ncase: %s\n%s", r, st.lastDesc, stackExcerpt(string(debug.Stack())))}
				}
			}()
			enterCase()
			sub.Fn(&C{sub: sub})
			leaveCase()
		}()
		writeOutcome(o)
		if o.Status != "ok" {
			os.Exit(1)
		}
		return
	}

	t := &tb{name: sub.Prop + "_" + sub.Name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			st.mu.Lock()
			frozen := st.frozen
			st.mu.Unlock()
			if !frozen {
				atomic.AddInt64(&invocations, 1)
			}
			enterCase()
			ok := false
			defer func() {
				leaveCase()
				if ok {
					return
				}
				// Everything after a panic of the code is reproduction and
				// shrinking; an invalid draw is a panic of rapid and goes on.
				if r := recover(); r != nil {
					if isPanicOfCode(r) {
						st.mu.Lock()
						st.frozen = true
						st.failure = fmt.Sprintf("panic: %v\ncase: %s", r, st.lastDesc)
						st.mu.Unlock()
					}
					panic(r)
				}
			}()
			sub.Fn(&C{rt: rt, sub: sub})
			ok = true
		})
	}()
	<-done
	o := outcome{Status: "ok", Iter: atomic.LoadInt64(&invocations) - 1}
	text := strings.Join(t.logs, "\n")
	if t.failed {
		o.Status = "fail"
		switch {
		case strings.Contains(text, "[rapid] flaky test"):
			o.Status = "flaky"
		case strings.Contains(text, "[rapid] only generated"):
			o.Status = "generr"
		}
		o.Message = st.failure + "\n" + text
		m, _ := filepath.Glob("testdata/rapid/*/*.fail")
		if len(m) > 0 {
			o.FailFile, _ = filepath.Abs(m[0])
		}
	}
	o.Message = clip(o.Message, 20000)
	writeOutcome(o)
	if t.failed {
		os.Exit(1)
	}
}
