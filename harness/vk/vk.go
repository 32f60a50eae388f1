// Package vk is the verification kit: it drives rapid properties with
// deterministic seeds, counts what was generated and records failures in a form
// the runner (/verif/run.py) turns into evidence and replay files.
package vk

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// HangLimit is the wall-clock limit of ONE generated case (cases take
// milliseconds); exceeding it is reported as non-termination.
const HangLimit = 150 * time.Second

// Case collects what is known about one generated case.
type Case struct {
	rt         *rapid.T
	input      string
	parts      []string
	detail     string
	nontrivial bool
	labels     []string
	evals      int
	failing    *bool
}

type knownResult struct {
	ID     string `json:"id"`
	Detail string `json:"detail"`
}

type stats struct {
	Test        string         `json:"test"`
	Property    string         `json:"property"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	Hang        bool           `json:"hang"`
	FailInput   string         `json:"fail_input,omitempty"`
	FailDetail  string         `json:"fail_detail,omitempty"`
	Known       []knownResult  `json:"known,omitempty"`
}

var mu sync.Mutex

// Tier returns quick or thorough.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func shards() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if n < 1 {
		n = 1
	}
	return n
}

// Shard returns the index of this worker process.
func Shard() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	return n
}

func outFile(name, ext string) string {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return ""
	}
	return filepath.Join(dir, strings.ReplaceAll(name, "/", "_")+ext)
}

func propOf(test string) string {
	test = strings.TrimPrefix(test, "Test")
	if i := strings.IndexByte(test, '_'); i >= 0 {
		test = test[:i]
	}
	return test
}

// Check runs f on quickN (or thoroughN) generated cases divided over all shards.
// rule says how cases are made and what makes one non-trivial.
func Check(t *testing.T, rule string, quickN, thoroughN int, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	n := quickN
	if Tier() == "thorough" {
		n = thoroughN
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		x, _ := strconv.ParseFloat(s, 64)
		n = int(float64(n) * x)
	}
	n = (n + shards() - 1) / shards()
	if n < 1 {
		n = 1
	}
	if os.Getenv("VERIF_REPLAY") == "" {
		flag.Set("rapid.checks", strconv.Itoa(n))
	}
	st := &stats{Test: t.Name(), Property: propOf(t.Name()), Rule: rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var last *Case
	var firstDetail, firstInput string
	failing := false
	var started atomic.Int64
	done := make(chan struct{})
	dump := func() {
		mu.Lock()
		defer mu.Unlock()
		if p := outFile(t.Name(), ".json"); p != "" {
			b, _ := json.Marshal(st)
			os.WriteFile(p, b, 0o644)
			hb := make([]byte, 0, 8*len(seen))
			for h := range seen {
				hb = binary.LittleEndian.AppendUint64(hb, h)
			}
			os.WriteFile(outFile(t.Name(), ".hashes"), hb, 0o644)
		}
	}
	go func() {
		tick := time.NewTicker(2 * time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				s := started.Load()
				if s != 0 && time.Since(time.Unix(0, s)) > HangLimit {
					st.Failed, st.Hang = true, true
					if last != nil {
						st.FailInput = last.text()
					}
					st.FailDetail = fmt.Sprintf("one case did not finish within %v", HangLimit)
					dump()
					fmt.Println("VERIF-HANG", t.Name())
					os.Exit(1)
				}
			}
		}
	}()
	t.Cleanup(func() {
		close(done)
		if t.Failed() && last != nil {
			st.Failed = true
			st.FailInput = last.text()
			st.FailDetail = last.detail
			if last.detail == "" && firstDetail != "" {
				// the failure did not repeat: report it as it was seen
				st.FailInput = firstInput
				st.FailDetail = firstDetail + "\n(seen once; did not repeat with the same input)"
			}
		}
		st.Nontrivial = len(seen)
		dump()
	})
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{rt: rt, failing: &failing}
		last = c
		defer func() {
			if c.detail != "" && firstDetail == "" {
				firstDetail, firstInput = c.detail, c.text()
			}
		}()
		started.Store(time.Now().UnixNano())
		ok := false
		defer func() {
			started.Store(0)
			if !ok {
				// failure (or invalid data): keep it only as potential failure
				if r := recover(); r != nil {
					if c.detail == "" {
						s := fmt.Sprintf("%v", r)
						if !strings.Contains(fmt.Sprintf("%T", r), "rapid.") {
							c.detail = "panic: " + s + "\n" + trimStack(string(debug.Stack()))
							failing = true
						}
					}
					panic(r)
				}
				return
			}
			if failing {
				return
			}
			if c.evals == 0 {
				c.evals = 1
			}
			st.Evaluations += c.evals
			for _, l := range c.labels {
				st.Labels[l]++
			}
			if c.nontrivial {
				h := fnv.New64a()
				h.Write([]byte(t.Name()))
				h.Write([]byte(c.text()))
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					if l := len(seen); l == 3 || l == 20 || l == 100 {
						s := c.text()
						if len(s) > 1200 {
							s = s[:1200] + "...[cut]"
						}
						st.Samples = append(st.Samples, s)
					}
				}
			}
		}()
		f(rt, c)
		ok = true
	})
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (c *Case) text() string {
	if len(c.parts) == 0 {
		return c.input
	}
	return strings.Join(append([]string{c.input}, c.parts...), "\n---\n")
}

// Input sets the canonical text of the case.
func (c *Case) Input(s string) { c.input = s; c.parts = nil }

// Part appends a further piece of the case's text.
func (c *Case) Part(format string, args ...any) {
	c.parts = append(c.parts, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Label counts the case in a class.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf counts the case in a class if b.
func (c *Case) LabelIf(b bool, l string) {
	if b {
		c.labels = append(c.labels, l)
	}
}

// Evals records how many oracle evaluations the case made.
func (c *Case) Evals(n int) { c.evals += n }

// Fail reports a violation.
func (c *Case) Fail(format string, args ...any) {
	c.detail = fmt.Sprintf(format, args...)
	*c.failing = true
	c.rt.Fatalf("%s\n--- input ---\n%s", c.detail, c.text())
}

// Skip discards the case.
func (c *Case) Skip(why string) {
	c.rt.Skip(why)
}

// Known runs the reproduction of a recorded finding. If it still reproduces the
// result is passed to the runner, which reports it as KNOWN-FINDING when the
// committed known-findings file lists it and as a violation otherwise.
func Known(t *testing.T, id string, repro func() (fails bool, detail string)) {
	t.Helper()
	st := &stats{Test: t.Name() + "-" + id, Property: propOf(t.Name()), Labels: map[string]int{}}
	st.Evaluations = 1
	fails, detail := repro()
	if fails {
		st.Known = append(st.Known, knownResult{id, detail})
	}
	if p := outFile(st.Test, ".json"); p != "" {
		b, _ := json.Marshal(st)
		os.WriteFile(p, b, 0o644)
	}
}

// Scratch returns a fresh directory below the runner's scratch directory.
func Scratch(t *testing.T) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		return t.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// Bin returns the path of a tool built by the runner from /repo.
func Bin(t *testing.T, name string) string {
	d := os.Getenv("VERIF_BIN")
	p := filepath.Join(d, name)
	if _, err := os.Stat(p); err != nil || d == "" {
		t.Fatalf("VERIF-ERROR tool %s not built (%v)", name, err)
	}
	return p
}

// Persist saves the case where the driver finds it should the process die.
func (c *Case) Persist() {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		os.WriteFile(filepath.Join(filepath.Dir(d), "last"), []byte(c.text()), 0o644)
	}
}
