// Package vt is the part of the harness shared by all components: traces,
// UIDs and attributes owned by the harness, and the exploration of schedules.
package vt

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

// M is a JSON object.
type M = map[string]any

// L is a JSON array.
type L = []any

// Ctx is the context used where the context does not matter.
var Ctx = context.Background()

// ---------------------------------------------------------------- traces

// Trace is a recorded behaviour of the real code.
type Trace struct {
	ID  string `json:"id"`
	Cfg M      `json:"cfg"`
	Ev  []M    `json:"ev"`
	mu  sync.Mutex
}

// NewTrace returns an empty trace.
func NewTrace(id string, cfg M) *Trace {
	if cfg == nil {
		cfg = M{"x": 0}
	}
	return &Trace{ID: id, Cfg: cfg, Ev: []M{}}
}

// Add appends an event and returns its index (from 0).
func (t *Trace) Add(e M) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Ev = append(t.Ev, e)
	return len(t.Ev) - 1
}

// Do runs f with the trace locked.
func (t *Trace) Do(f func()) {
	t.mu.Lock()
	defer t.mu.Unlock()
	f()
}

// Op appends the event of an operation that overlapped with nothing.
func (t *Trace) Op(op, res M) { t.Add(M{"e": "op", "op": op, "res": res}) }

// Call appends the call event of an operation; Ret completes it.
func (t *Trace) Call(p int, op M) int {
	return t.Add(M{"e": "call", "p": p, "op": op, "res": M{"err": "pending"}})
}

// Ret appends the return event and attaches the result to the call event.
func (t *Trace) Ret(p, call int, res M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Ev[call]["res"] = res
	t.Ev = append(t.Ev, M{"e": "ret", "p": p})
}

// Out writes traces, one JSON object per line.
type Out struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int

	size int
}

// NewOut creates the output file.
func NewOut(path string) *Out {
	f, err := os.Create(path)
	Must(err)
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Put writes a trace.
func (o *Out) Put(t *Trace) {
	t.mu.Lock()
	b, err := json.Marshal(t)
	t.mu.Unlock()
	Must(err)
	o.mu.Lock()
	defer o.mu.Unlock()
	// traces of code that behaves do not get anywhere near this
	if o.size += len(b); o.size > 600<<20 && o.N > 0 {
		return
	}
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.N++
}

// Close flushes the file.
func (o *Out) Close() {
	o.mu.Lock()
	Must(o.w.Flush())
	Must(o.f.Close())
	o.mu.Unlock()
}

// Must ends the harness on an error of its own.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(3)
	}
}

// ReadScripts reads one JSON array of operations per line.
func ReadScripts(path string) [][]M {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	Must(err)
	var out [][]M
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		var s []M
		Must(json.Unmarshal(line, &s))
		out = append(out, s)
	}
	return out
}

// Catch runs f and turns a panic of the code under test into a result no
// specification allows.
func Catch(f func() M) (res M) {
	defer func() {
		if r := recover(); r != nil {
			res = M{"err": "panic", "panic": fmt.Sprint(r)}
		}
	}()
	return f()
}

// ErrName names an error by the first known error it is.
func ErrName(err error, known map[string]error) string {
	if err == nil {
		return "ok"
	}
	names := make([]string, 0, len(known))
	for n := range known {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if errors.Is(err, known[n]) {
			return n
		}
	}
	return "other"
}

// ---------------------------------------------------------------- values

// Strs converts a JSON array to strings.
func Strs(v any) []string {
	var out []string
	switch a := v.(type) {
	case []any:
		for _, x := range a {
			out = append(out, x.(string))
		}
	case []string:
		out = a
	}
	return out
}

// Int converts a JSON number.
func Int(v any) int {
	switch n := v.(type) {
	case float64:
		return int(n)
	case int:
		return n
	}
	return 0
}

// Str converts a JSON string.
func Str(v any) string { s, _ := v.(string); return s }

// Bool converts a JSON boolean.
func Bool(v any) bool { b, _ := v.(bool); return b }

// SUID is a UID of another type than the ones of the code under test.
type SUID struct{ S string }

// String implements uuid.UID.
func (u *SUID) String() string { return u.S }

// VUID is a comparable UID passed by value.
type VUID string

// String implements uuid.UID.
func (u VUID) String() string { return string(u) }

var uidTurn atomic.Int64

// UID returns a UID object with the value s. The objects differ in
// identity and type from call to call: only the value may matter.
func UID(s string) uuid.UID {
	switch uidTurn.Add(1) % 4 {
	case 0:
		return &SUID{s}
	case 1:
		return VUID(s)
	default:
		return memuid.NewFromString(s)
	}
}

// Names are six names for the kth history: plain ones, or ones that collide
// when two of them are joined, cut, trimmed or changed to lower case.
func Names(k int) []string {
	seps := []string{"-", "/", ":", "", "->", ",", "_", " ", "|", ".", "#", ";", "=", "--", "+", "@"}
	switch {
	case k%3 != 2:
		return []string{"a", "b", "c", "d", "e", "f"}
	case k/3%4 == 3:
		return [][]string{{"a", "A", "b", "B", "aB", "Ab"}, {"a", "a ", " a", "b", "a b", " "}, {"a", "aa", "aaa", "b", "ab", "aab"},
			{"0", "1", "01", "1.0", "-1", "+1"}}[k/12%4]
	}
	s := seps[k/3%len(seps)]
	return []string{"x", "x" + s + "y", "y" + s + "z", "z", "x" + s + "y" + s + "z", "y."}
}

// Many are n names for a large history.
func Many(n int) []string {
	out := make([]string, n)
	for k := range out {
		out[k] = fmt.Sprintf("u%d", k)
	}
	return out
}

// HUID is a UID whose String method is a scheduling point.
type HUID struct {
	S string
	H *Hook
}

// String implements uuid.UID.
func (u *HUID) String() string { u.H.Point(); return u.S }

// AttrStr is the canonical text of attributes.
func AttrStr(a attrs.Attrs) string {
	if a == nil {
		return "<nil>"
	}
	keys, err := a.Keys(Ctx)
	if err != nil {
		return "<error>"
	}
	sort.Strings(keys)
	var b strings.Builder
	for i, k := range keys {
		v, err := a.Get(Ctx, k)
		if err != nil {
			return "<error>"
		}
		if i > 0 {
			b.WriteByte(';')
		}
		b.WriteString(k + "=" + v)
	}
	return b.String()
}

// Attrs is the inverse of AttrStr.
func Attrs(s string) attrs.Attrs {
	return memattrs.NewFromMap(AttrMap(s))
}

// AttrMap is the inverse of AttrStr as a map.
func AttrMap(s string) map[string]string {
	m := map[string]string{}
	if s == "" {
		return m
	}
	for _, kv := range strings.Split(s, ";") {
		k, v, _ := strings.Cut(kv, "=")
		m[k] = v
	}
	return m
}

// MapStr is the canonical text of a map.
func MapStr(m map[string]string) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		keys[i] = k + "=" + m[k]
	}
	return strings.Join(keys, ";")
}

// ---------------------------------------------------------------- random

// Rng is a small deterministic generator.
type Rng struct{ s uint64 }

// NewRng seeds a generator; neighbouring seeds start at unrelated places of
// the generator's one cycle.
func NewRng(seed uint64) *Rng {
	r := &Rng{seed ^ 0x5851F42D4C957F2D}
	a := r.Next()
	r.s = a*0xD1342543DE82EF95 ^ seed<<32
	r.s ^= r.Next()
	return r
}

// Next returns the next value (splitmix64).
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in 0..n-1.
func (r *Rng) N(n int) int { return int(r.Next() % uint64(n)) }

// Perm is a permutation of the numbers below n.
func (r *Rng) Perm(n int) []int {
	out := make([]int, n)
	for k := range out {
		j := r.N(k + 1)
		out[k] = out[j]
		out[j] = k
	}
	return out
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// Pick picks an element.
func Pick[T any](r *Rng, s []T) T { return s[r.N(len(s))] }

// Env reads an integer from the environment.
func Env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// ---------------------------------------------------------------- schedules

// Hook is a scheduling point owned by one operation. Code under test calls
// it through the UIDs, entities, attributes, options and builders it is given.
type Hook struct {
	goid   atomic.Int64 // goroutine the hook applies to, 0 if none
	count  atomic.Int64
	stopAt atomic.Int64 // pause at this point, 0 = never
	paused chan struct{}
	resume chan struct{}
	yield  bool
	other  chan struct{} // closed when the other side has finished; nil = do not drag
	drags  int
}

// NewHook returns a hook that pauses at point k (from 1; 0 = only counts).
func NewHook(k int) *Hook {
	h := &Hook{paused: make(chan struct{}), resume: make(chan struct{})}
	h.stopAt.Store(int64(k))
	return h
}

// YieldHook returns a hook that yields the processor at every point.
func YieldHook() *Hook { return &Hook{yield: true} }

// Count is the number of points passed.
func (h *Hook) Count() int { return int(h.count.Load()) }

// Point is called at every scheduling point.
func (h *Hook) Point() {
	if h == nil {
		return
	}
	if h.yield {
		runtime.Gosched()
		return
	}
	if h.goid.Load() != Goid() {
		return
	}
	n, k := h.count.Add(1), h.stopAt.Load()
	if n == k {
		h.paused <- struct{}{}
		<-h.resume
	} else if h.other != nil && k > 0 && n > k && h.drags > 0 {
		// a lock is handed over to whoever has waited for it for a while, so
		// waiting here lets the other side in wherever a lock is given up
		h.drags--
		select {
		case <-h.other:
			h.drags = 0
		case <-time.After(DragFor):
		}
	}
}

// Goid is the id of the running goroutine.
func Goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// StuckAfter is how long operations that should finish are waited for.
var StuckAfter = 20 * time.Second

// BlockedAfter is how long the second operation of a schedule is waited for
// before it is taken to wait for the first one (which only makes the schedule
// another one, never a wrong one).
var BlockedAfter = 1500 * time.Microsecond

// DragFor is how long a dragging operation waits at a scheduling point.
var DragFor = 1200 * time.Microsecond

// Thread is one operation of a schedule: Run executes it.
type Thread struct {
	Op  M
	Run func(h *Hook) M
}

// OnePreemption runs a, pauses it at its k-th scheduling point, runs b
// meanwhile, and lets both finish. It reports whether point k was reached
// and whether everything finished.
func OnePreemption(t *Trace, a, b Thread, k int) (reached, finished bool) {
	return Preempt(t, a, []Thread{b}, k, 0)
}

// Preempt is OnePreemption with a sequence of operations against a; a also
// lingers at up to drags later scheduling points while that is not done.
func Preempt(t *Trace, a Thread, bs []Thread, k, drags int) (reached, finished bool) {
	h := NewHook(k)
	doneA, doneB := make(chan struct{}), make(chan struct{})
	if drags > 0 {
		h.other, h.drags = doneB, drags
	}
	go func() {
		h.goid.Store(Goid())
		c := t.Call(1, a.Op)
		res := Catch(func() M { return a.Run(h) })
		h.goid.Store(0)
		t.Ret(1, c, res)
		close(doneA)
	}()
	select {
	case <-h.paused:
		reached = true
	case <-doneA:
	case <-time.After(StuckAfter):
		t.Add(M{"e": "stuck"})
		return false, false
	}
	go func() {
		for _, b := range bs {
			c := t.Call(2, b.Op)
			res := Catch(func() M { return b.Run(nil) })
			t.Ret(2, c, res)
		}
		close(doneB)
	}()
	if reached {
		select {
		case <-doneB:
		case <-time.After(BlockedAfter):
		}
		close(h.resume)
	}
	for _, d := range []chan struct{}{doneA, doneB} {
		select {
		case <-d:
		case <-time.After(StuckAfter):
			t.Add(M{"e": "stuck"})
			return reached, false
		}
	}
	return reached, true
}

// Guard runs f and reports whether it returned in time; if not, the trace
// gets an event no specification allows.
func Guard(t *Trace, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(StuckAfter):
		t.Add(M{"e": "stuck"})
		return false
	}
}

// Parallel runs the threads' operations concurrently, all threads starting
// together, and reports whether they all finished.
func Parallel(t *Trace, threads [][]Thread) bool {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for p, ops := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, th := range ops {
				c := t.Call(p+1, th.Op)
				res := Catch(func() M { return th.Run(YieldHook()) })
				t.Ret(p+1, c, res)
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(StuckAfter):
		t.Add(M{"e": "stuck"})
		return false
	}
}

// Hammer runs n operations in each of 6 goroutines and reports whether they
// all finished without a panic. mk makes the operation source of a goroutine.
func Hammer(t *Trace, seed uint64, n int, mk func(*Rng) func()) bool {
	var wg sync.WaitGroup
	var panicked atomic.Bool
	for p := 0; p < 6; p++ {
		wg.Add(1)
		op := mk(NewRng(seed*31 + uint64(p)))
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					panicked.Store(true)
					t.Add(M{"e": "panic", "panic": fmt.Sprint(r)})
				}
			}()
			for i := 0; i < n; i++ {
				op()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return !panicked.Load()
	case <-time.After(6 * StuckAfter):
		t.Add(M{"e": "stuck"})
		return false
	}
}
