// Package broker drives the in-memory broker in virtual time.
package broker

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"

	simdig "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	brokermem "github.com/milosgajdos/netscrape/pkg/broker/memory"

	"verif/vt"
)

type M = vt.M

var known = map[string]error{
	"ErrNotConnected": broker.ErrNotConnected, "ErrTimeout": broker.ErrTimeout,
	"ErrSubscriptionInactive": broker.ErrSubscriptionInactive,
	"canceled":                context.Canceled, "deadline": context.DeadlineExceeded,
	"errHandler": errHandler, "EOF": io.EOF,
}

var errHandler = errors.New("handler failed")

// hctx is a context whose Done method is a scheduling point.
type hctx struct {
	context.Context
	point func()
}

func (c *hctx) Done() <-chan struct{} { c.point(); return c.Context.Done() }

// call is a call in flight.
type call struct {
	p       int
	ev      M // its call event
	done    atomic.Bool
	paused  atomic.Bool
	points  atomic.Int64
	holdAt  int64
	resume  chan struct{}
	resumed bool
}

func (c *call) point() {
	if n := c.points.Add(1); n == c.holdAt {
		c.paused.Store(true)
		<-c.resume
		return
	}
	runtime.Gosched()
}

type world struct {
	b     *brokermem.Memory
	t     *vt.Trace
	start time.Time

	mu      sync.Mutex
	p       int
	subs    map[string]broker.Subscriber
	ctxs    map[string]context.Context
	cancels map[string]context.CancelFunc
	release chan struct{} // closed: blocked handlers return
	free    bool          // handlers no longer block
	held    []*call
	calls   []*call
	msgs    int
	dgs     map[string]*simdig.Digester
}

// digest is a call of Digest in flight.
type digest struct {
	c    *call
	step M
	op   M
	n    int // messages handed over
}

type dkey struct{}

// handed runs the configured handler of that name.
func (w *world) handed(name string) broker.Handler {
	return func(ctx context.Context, m broker.Message) error {
		d, ok := ctx.Value(dkey{}).(*digest)
		if !ok {
			w.log(M{"e": "dh", "dg": 0, "by": name, "m": mview(m)})
			return nil
		}
		w.log(M{"e": "dh", "dg": d.c.p, "by": name, "m": mview(m)})
		d.n++
		return w.act(d.step, d.n)
	}
}

// looped is a subscriber that records what a digest does with it.
type looped struct {
	broker.Subscriber
	w *world
	d *digest
}

func (l *looped) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	w := l.w
	w.mu.Lock()
	w.p++
	c := &call{p: w.p}
	w.mu.Unlock()
	op := M{"o": "recv", "s": l.d.op["s"], "ctx": l.d.op["ctx"], "cdl": l.d.op["cdl"], "to": 0, "dg": l.d.c.p}
	c.ev = w.log(M{"e": "call", "p": c.p, "op": op, "res": M{"err": "?"}, "given": ""})
	err := l.Subscriber.Receive(context.WithValue(ctx, dkey{}, l.d), func(ctx context.Context, m broker.Message) error {
		v := w.given(c, m)
		_ = v
		defer func() { w.log(M{"e": "he", "p": c.p}) }()
		return h(ctx, m)
	}, opts...)
	w.t.Do(func() {
		res := M{"err": vt.ErrName(err, known)}
		c.ev["res"] = res
		w.t.Ev = append(w.t.Ev, M{"e": "ret", "p": c.p, "res": res, "t": w.now()})
	})
	return err
}

func newWorld(t *vt.Trace, cfg M) *world {
	w := &world{t: t, start: time.Now(), subs: map[string]broker.Subscriber{}, ctxs: map[string]context.Context{},
		cancels: map[string]context.CancelFunc{}, release: make(chan struct{})}
	opts := []broker.Option{broker.WithCap(vt.Int(cfg["cap"]))}
	if ms := vt.Int(cfg["pto"]); ms != 0 {
		opts = append(opts, broker.WithPubTimeout(time.Duration(ms)*time.Millisecond))
	}
	var err error
	w.b, err = brokermem.New(opts...)
	vt.Must(err)
	w.dgs = map[string]*simdig.Digester{}
	w.dgs["d0"], err = simdig.NewDigester()
	vt.Must(err)
	w.dgs["d1"], err = simdig.NewDigester(digester.WithHandler(w.handed("H1")))
	vt.Must(err)
	return w
}

func (w *world) now() int { return int(time.Since(w.start) / time.Millisecond) }

// log appends an event; the time is taken together with the place in the trace.
func (w *world) log(e M) M {
	w.t.Do(func() { e["t"] = w.now(); w.t.Ev = append(w.t.Ev, e) })
	return e
}

func (w *world) ctx(name string) context.Context {
	w.mu.Lock()
	defer w.mu.Unlock()
	if name == "" {
		return context.Background()
	}
	if _, ok := w.ctxs[name]; !ok {
		w.ctxs[name], w.cancels[name] = context.WithCancel(context.Background())
	}
	return w.ctxs[name]
}

func (w *world) cancel(name string) {
	w.ctx(name)
	w.log(M{"e": "cancel", "c": name})
	w.mu.Lock()
	cancel := w.cancels[name]
	w.mu.Unlock()
	cancel()
	w.log(M{"e": "cancelled", "c": name})
}

// big is a payload of n bytes; traces call it big:n.
func big(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*i>>7 ^ i)
	}
	return b
}

func dview(d []byte) string {
	if len(d) < 20000 {
		return string(d)
	}
	if bytes.Equal(d, big(len(d))) {
		return fmt.Sprintf("big:%d", len(d))
	}
	return fmt.Sprintf("%d bytes, %s...", len(d), strconv.QuoteToASCII(string(d[:20])))
}

// mview is how traces show a message; one without UID is called <none>.
func mview(m broker.Message) M {
	id := m.UID
	if id == "" {
		id = "<none>"
	}
	return M{"id": id, "ty": int(m.Type), "da": dview(m.Data), "at": vt.MapStr(m.Attrs)}
}

func message(v M) broker.Message {
	m := broker.Message{UID: vt.Str(v["id"]), Type: broker.Type(vt.Int(v["ty"]))}
	if m.UID == "<none>" {
		m.UID = ""
	}
	if d := vt.Str(v["da"]); strings.HasPrefix(d, "big:") {
		n, err := strconv.Atoi(d[4:])
		vt.Must(err)
		m.Data = big(n)
	} else if d != "" {
		m.Data = []byte(d)
	}
	if a := vt.Str(v["at"]); a != "" {
		m.Attrs = vt.AttrMap(a)
	}
	return m
}

func ms(v any) time.Duration { return time.Duration(vt.Int(v)) * time.Millisecond }

// begin logs the call of a step and returns what runs it, or nil if the
// subscriber it needs does not exist.
func (w *world) begin(step M) (c *call, run func()) {
	var sub broker.Subscriber
	if s, ok := step["s"]; ok && step["o"] != "sub" {
		w.mu.Lock()
		sub = w.subs[vt.Str(s)]
		w.mu.Unlock()
		if sub == nil {
			return nil, nil
		}
	}
	w.mu.Lock()
	w.p++
	c = &call{p: w.p, resume: make(chan struct{}), holdAt: int64(vt.Int(step["hold"]))}
	w.calls = append(w.calls, c)
	w.mu.Unlock()

	op := M{"o": step["o"]}
	base := context.Context(nil)
	switch step["o"] {
	case "open", "pub", "recv", "digest":
		name := vt.Str(step["ctx"])
		base = w.ctx(name)
		op["ctx"], op["cdl"] = name, 0
		if dl := vt.Int(step["dl"]); dl > 0 {
			var cancel context.CancelFunc
			op["cdl"] = w.now() + dl
			base, cancel = context.WithTimeout(base, time.Duration(dl)*time.Millisecond)
			w.mu.Lock()
			n := fmt.Sprintf("dl%d", c.p)
			w.cancels[n] = cancel
			w.mu.Unlock()
		}
	}
	for _, k := range []string{"topic", "s", "m"} {
		if v, ok := step[k]; ok {
			op[k] = v
		}
	}
	if step["o"] == "pub" || step["o"] == "recv" {
		op["to"] = vt.Int(step["to"])
	}
	if step["o"] == "digest" {
		op["d"], op["by"] = step["d"], vt.Str(step["by"])
		if op["by"] == "" {
			op["by"] = "H1" // of the digester
		}
	}
	if base != nil {
		base = &hctx{base, c.point}
	}
	hook := func(*broker.Options) { c.point() }
	opts := []broker.Option{hook}
	ev := w.log(M{"e": "call", "p": c.p, "op": op, "res": M{"err": "?"}, "given": ""})
	c.ev = ev
	ret := func(res M) {
		w.t.Do(func() {
			ev["res"] = res
			w.t.Ev = append(w.t.Ev, M{"e": "ret", "p": c.p, "res": res, "t": w.now()})
			c.done.Store(true)
		})
	}
	bg := context.Background()
	who := func(s broker.Subscriber) M {
		id, err1 := s.ID(bg)
		topic, err2 := s.Topic(bg)
		if err1 != nil || err2 != nil {
			return M{"err": "ok", "id": "", "topic": "<error>"}
		}
		return M{"err": "ok", "id": id, "topic": topic}
	}
	errRes := func(err error) M { return M{"err": vt.ErrName(err, known)} }
	var made broker.Subscriber
	return c, func() {
		// a subscriber can be used once the call that made it has returned
		defer func() {
			if made != nil {
				w.mu.Lock()
				w.subs[vt.Str(step["s"])] = made
				w.mu.Unlock()
			}
		}()
		ret(vt.Catch(func() M {
			switch step["o"] {
			case "open":
				return errRes(w.b.Open(base))
			case "close":
				return errRes(w.b.Close())
			case "pub":
				if to := vt.Int(step["to"]); to != 0 {
					opts = append(opts, broker.WithPubTimeout(ms(to)))
				}
				return errRes(w.b.Pub(base, vt.Str(step["topic"]), message(step["m"].(M)), opts...))
			case "sub":
				ctx := bg
				if c.p%3 == 1 {
					// the context is only for the call
					x, cancel := context.WithCancel(bg)
					defer cancel()
					ctx = x
				}
				s, err := w.b.Sub(ctx, vt.Str(step["topic"]), opts...)
				if err != nil {
					return errRes(err)
				}
				made = s
				return who(s)
			case "unsub":
				ctx := bg
				switch c.p % 4 {
				case 1:
					x, cancel := context.WithCancel(bg)
					cancel()
					ctx = x
				case 2:
					x, cancel := context.WithTimeout(bg, -1)
					defer cancel()
					ctx = x
				}
				err := sub.Unsubscribe(ctx, opts...)
				if err != nil {
					return errRes(err)
				}
				return who(sub)
			case "recv":
				if to := vt.Int(step["to"]); to != 0 {
					opts = append(opts, broker.WithSubTimeout(ms(to)))
				}
				err := sub.Receive(base, func(_ context.Context, m broker.Message) error {
					return w.handle(c, step, m)
				}, opts...)
				return errRes(err)
			case "digest":
				var o []digester.Option
				if n := vt.Str(step["by"]); n != "" {
					o = append(o, digester.WithHandler(w.handed(n)))
				}
				d := &digest{c: c, step: step, op: op}
				return errRes(w.dgs[vt.Str(step["d"])].Digest(base, &looped{sub, w, d}, o...))
			}
			vt.Must(fmt.Errorf("unknown step %v", step))
			return nil
		}))
	}
}

// given records which message a receive got.
func (w *world) given(c *call, m broker.Message) M {
	v := mview(m)
	w.t.Do(func() {
		c.ev["given"] = v["id"]
		w.t.Ev = append(w.t.Ev, M{"e": "hs", "p": c.p, "m": v, "t": w.now()})
	})
	return v
}

// handle is the handler of a receive.
func (w *world) handle(c *call, step M, m broker.Message) error {
	w.given(c, m)
	defer func() { w.log(M{"e": "he", "p": c.p}) }()
	return w.act(step, 1)
}

// act is what a handler does with its n-th message.
func (w *world) act(step M, n int) error {
	if at := vt.Int(step["at"]); at != 0 && at != n {
		return nil
	}
	for _, s := range list(step["nested"]) {
		if s["o"] == "cancel" {
			w.cancel(vt.Str(s["c"]))
			continue
		}
		if _, run := w.begin(s); run != nil {
			run()
		}
	}
	w.mu.Lock()
	release, free := w.release, w.free
	w.mu.Unlock()
	switch step["h"] {
	case "err":
		return errHandler
	case "eof":
		return io.EOF
	case "deadline":
		return context.DeadlineExceeded
	case "canceled":
		return context.Canceled
	case "timeout":
		return broker.ErrTimeout
	case "inactive":
		return broker.ErrSubscriptionInactive
	case "offline":
		return broker.ErrNotConnected
	case "block":
		if !free {
			<-release
		}
	}
	return nil
}

func list(v any) []M {
	switch a := v.(type) {
	case []M:
		return a
	case []any:
		var out []M
		for _, x := range a {
			out = append(out, x.(M))
		}
		return out
	}
	return nil
}

// spin lets other goroutines run for a bounded time.
func spin(n int, until func() bool) {
	for i := 0; i < n && !until(); i++ {
		runtime.Gosched()
	}
}

func (w *world) quiet() {
	if len(w.held) == 0 {
		synctest.Wait()
		w.log(M{"e": "quiet"})
	}
}

func (w *world) resume() {
	for _, c := range w.held {
		close(c.resume)
	}
	w.held = nil
}

func (w *world) unblock() {
	w.mu.Lock()
	close(w.release)
	w.release = make(chan struct{})
	w.mu.Unlock()
}

// number completes the message of a publish.
func (w *world) number(step M) {
	if step["o"] == "pub" && step["m"] == nil {
		w.msgs++
		step["m"] = M{"id": fmt.Sprintf("m%d", w.msgs), "ty": w.msgs % 5, "da": fmt.Sprintf("data %d", w.msgs), "at": fmt.Sprintf("n=%d", w.msgs)}
	}
}

// do runs one step. Unless told otherwise it then waits until all is quiet.
func (w *world) do(step M) {
	switch step["o"] {
	case "adv":
		if len(w.held) > 0 {
			w.resume()
		}
		w.quiet()
		time.Sleep(ms(step["ms"]))
	case "cancel":
		w.cancel(vt.Str(step["c"]))
	case "release":
		w.unblock()
	case "resume":
		w.resume()
	case "seq":
		// calls made one right after the other by one goroutine
		var runs []M
		runs = append(runs, list(step["steps"])...)
		go func() {
			for _, s := range runs {
				if _, run := w.begin(s); run != nil {
					run()
				}
			}
		}()
	case "par":
		// calls made at the same moment by several goroutines
		var runs []func()
		for _, s := range list(step["steps"]) {
			w.number(s)
			if _, run := w.begin(s); run != nil {
				runs = append(runs, run)
			}
		}
		var ready atomic.Int64
		for _, run := range runs {
			go func(run func()) {
				ready.Add(1)
				spin(2000, func() bool { return ready.Load() >= int64(len(runs)) })
				run()
			}(run)
		}
	default:
		w.number(step)
		c, run := w.begin(step)
		if run == nil {
			return
		}
		go run()
		if c.holdAt > 0 {
			spin(3000, func() bool { return c.paused.Load() || c.done.Load() })
			if !c.done.Load() {
				w.held = append(w.held, c)
			}
			return
		}
		if len(w.held) > 0 {
			spin(300, c.done.Load)
			return
		}
	}
	if nw, _ := step["nw"].(bool); !nw {
		w.quiet()
	}
}

// finale ends a history: what is left is received, then everything is shut down.
func (w *world) finale(cfg M, drain bool) {
	w.resume()
	w.mu.Lock()
	w.free = true
	w.mu.Unlock()
	w.unblock()
	w.quiet()
	if drain {
		for k, topic := range vt.Strs(cfg["topics"]) {
			s := fmt.Sprintf("drain%d", k)
			w.do(M{"o": "sub", "topic": topic, "s": s})
			for n := 0; n < 300; n++ {
				before := len(w.t.Ev)
				w.do(M{"o": "recv", "s": s, "to": 3, "ctx": "", "h": ""})
				w.do(M{"o": "adv", "ms": 4})
				got := false
				w.t.Do(func() {
					for _, e := range w.t.Ev[before:] {
						got = got || e["e"] == "hs"
					}
				})
				if !got {
					break
				}
			}
		}
	}
	w.do(M{"o": "close"})
	w.mu.Lock()
	var names []string
	for n := range w.ctxs {
		names = append(names, n)
	}
	w.mu.Unlock()
	for _, n := range names {
		w.cancel(n)
	}
	w.quiet()
	time.Sleep(time.Hour)
	synctest.Wait()
	w.mu.Lock()
	for _, c := range w.cancels {
		c()
	}
	w.mu.Unlock()
	synctest.Wait()
	w.log(M{"e": "end"})
}

// history is one trace to record.
type history struct {
	id    string
	cfg   M
	steps []M
	next  func(w *world) (M, bool) // more steps
	drain bool
}

// record runs a history in a bubble of its own.
func record(t *testing.T, o *vt.Out, h history) {
	tr := vt.NewTrace(h.id, h.cfg)
	finished := make(chan struct{})
	go func() {
		select {
		case <-finished:
		case <-time.After(2 * vt.StuckAfter):
			// a goroutine waits for a mutex, or spins: virtual time stands still
			tr.Do(func() {
				tm := 0
				if n := len(tr.Ev); n > 0 {
					tm = tr.Ev[n-1]["t"].(int)
				}
				tr.Ev = append(tr.Ev, M{"e": "stuck", "t": tm})
			})
			o.Put(tr)
			o.Close()
			os.Exit(0)
		}
	}()
	func() {
		defer func() { _ = recover() }() // goroutines left behind are judged by the trace
		synctest.Test(t, func(*testing.T) {
			w := newWorld(tr, h.cfg)
			for _, s := range h.steps {
				w.do(s)
			}
			for h.next != nil {
				s, ok := h.next(w)
				if !ok {
					break
				}
				w.do(s)
			}
			w.finale(h.cfg, h.drain)
		})
	}()
	close(finished)
	o.Put(tr)
}

func TestTraces(t *testing.T) {
	o := vt.NewOut(os.Getenv("TRACE_OUT"))
	jobs := make(chan history)
	go func() {
		defer close(jobs)
		histories(func(h history) { jobs <- h })
	}()
	t.Run("workers", func(t *testing.T) {
		for k := 0; k < 8; k++ {
			t.Run(fmt.Sprint(k), func(t *testing.T) {
				t.Parallel()
				for h := range jobs {
					record(t, o, h)
				}
			})
		}
	})
	o.Close()
}

// TestMain ignores the verdict of the testing package (it fails tests during
// which the race detector reported something): traces and race reports count.
func TestMain(m *testing.M) {
	m.Run()
	os.Exit(0)
}
