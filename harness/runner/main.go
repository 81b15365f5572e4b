// runner drives the scrape runner.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/store"

	"verif/vt"
)

type M = vt.M

// what is handed around has a name and does nothing
type (
	fstore struct {
		store.Store
		id string
	}
	fbroker struct {
		broker.Broker
		id string
	}
	fmarsh struct{ id string }
	fplan  struct {
		plan.Plan
		id string
	}
	ferr struct{ id string }
	key  struct{}
)

func (m *fmarsh) Marshal(any) ([]byte, error) { return nil, nil }
func (e *ferr) Error() string                 { return e.id }

// world hands out one thing per name.
type world struct {
	mu    sync.Mutex
	r     map[string]*netscrape.Runner
	named map[string]any
	opts  map[string][]netscrape.Option
	kept  map[string][]netscrape.Option
}

func newWorld() *world {
	return &world{r: map[string]*netscrape.Runner{}, named: map[string]any{}, opts: map[string][]netscrape.Option{}, kept: map[string][]netscrape.Option{}}
}

func one[T any](w *world, n string, mk func() T) T {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := fmt.Sprintf("%T %s", *new(T), n)
	if x, ok := w.named[k]; ok {
		return x.(T)
	}
	x := mk()
	w.named[k] = x
	return x
}

func (w *world) store(n string) store.Store {
	return one(w, n, func() *fstore { return &fstore{id: n} })
}
func (w *world) broker(n string) broker.Broker {
	return one(w, n, func() *fbroker { return &fbroker{id: n} })
}
func (w *world) marsh(n string) broker.Marshaler {
	return one(w, n, func() *fmarsh { return &fmarsh{id: n} })
}

// options of the same description share one slice, as a caller might keep it
func (w *world) options(l any, h *vt.Hook) []netscrape.Option {
	k := fmt.Sprint(l)
	if h == nil {
		w.mu.Lock()
		x, ok := w.opts[k]
		w.mu.Unlock()
		if ok {
			return x
		}
	}
	x := make([]netscrape.Option, 0, 16)
	for _, p := range l.([]any) {
		f, n := vt.Str(p.([]any)[0]), vt.Str(p.([]any)[1])
		var o netscrape.Option
		switch f {
		case "s":
			o = netscrape.WithStore(w.store(n))
		case "b":
			o = netscrape.WithBroker(w.broker(n))
		default:
			o = netscrape.WithMarshaler(w.marsh(n))
		}
		if h != nil {
			in := o
			o = func(c *netscrape.Options) { h.Point(); in(c); h.Point() }
		}
		x = append(x, o)
	}
	if h == nil {
		w.mu.Lock()
		if y, ok := w.opts[k]; ok {
			x = y
		} else {
			w.opts[k] = x
		}
		w.mu.Unlock()
	}
	return x
}

func look(opts []netscrape.Option) M {
	var c netscrape.Options
	for _, o := range opts {
		o(&c)
	}
	m := M{"s": "", "b": "", "m": ""}
	if c.Store != nil {
		m["s"] = "?"
		if x, ok := c.Store.(*fstore); ok {
			m["s"] = x.id
		}
	}
	if c.Broker != nil {
		m["b"] = "?"
		if x, ok := c.Broker.(*fbroker); ok {
			m["b"] = x.id
		}
	}
	if c.Marshaler != nil {
		m["m"] = "?"
		if x, ok := c.Marshaler.(*fmarsh); ok {
			m["m"] = x.id
		}
	}
	return m
}

// scraper records how it is called.
type scraper struct {
	w      *world
	h      *vt.Hook
	op     M
	err    error
	plan   plan.Plan
	cancel context.CancelFunc
	given  context.Context
	nested func()
	mu     sync.Mutex
	calls  []any
}

func (s *scraper) ctxName(ctx context.Context) string {
	if ctx == nil {
		return "nil"
	}
	n, _ := ctx.Value(key{}).(string)
	d1, ok1 := ctx.Deadline()
	d2, ok2 := s.given.Deadline()
	if n == "" || ok1 != ok2 || !d1.Equal(d2) || (ctx.Err() == nil) != (s.given.Err() == nil) {
		return "?" + n
	}
	if s.cancel != nil {
		s.cancel()
		select {
		case <-ctx.Done():
		case <-time.After(vt.StuckAfter):
			return "uncancelled " + n
		}
	}
	return n
}

func (s *scraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	if s.h != nil {
		s.h.Point()
	}
	c := look(opts)
	c["plan"] = "?"
	if p == nil {
		c["plan"] = "nil"
	} else if x, ok := p.(*fplan); ok && p == s.plan {
		c["plan"] = x.id
	}
	c["ctx"] = s.ctxName(ctx)
	s.mu.Lock()
	s.calls = append(s.calls, c)
	s.mu.Unlock()
	s.w.mu.Lock()
	s.w.kept[vt.Str(s.op["id"])] = opts
	s.w.mu.Unlock()
	if s.nested != nil {
		s.nested()
	}
	return s.err
}

// contexts by kind, told from the name
func context_(n string) (context.Context, context.CancelFunc, context.CancelFunc) {
	ctx := context.WithValue(context.Background(), key{}, n)
	switch n[len(n)-1] {
	case 'd': // cancelled before
		c, f := context.WithCancel(ctx)
		f()
		return c, nil, f
	case 'x': // cancelled while scraping
		c, f := context.WithCancel(ctx)
		return c, f, f
	case 't': // with a deadline
		c, f := context.WithTimeout(ctx, time.Hour)
		return c, nil, f
	}
	return ctx, nil, func() {}
}

func (w *world) exec(op M, h *vt.Hook, nested func()) M {
	switch op["o"] {
	case "new":
		r, err := netscrape.NewRunner(w.options(op["opts"], h)...)
		w.mu.Lock()
		w.r[vt.Str(op["r"])] = r
		w.mu.Unlock()
		return M{"err": vt.ErrName(err, nil)}
	case "run":
		w.mu.Lock()
		r := w.r[vt.Str(op["r"])]
		w.mu.Unlock()
		s := &scraper{w: w, h: h, op: op, nested: nested, calls: []any{}}
		if e := vt.Str(op["ret"]); e != "ok" {
			s.err = &ferr{e}
			switch e[len(e)-1] { // errors that mean something elsewhere
			case 'P':
				s.err = fmt.Errorf("%s: %w", e, netscrape.ErrMissingPlan)
			case 'M':
				s.err = netscrape.ErrMissingPlan
			case 'D':
				s.err = context.DeadlineExceeded
			case 'C':
				s.err = context.Canceled
			case 'W':
				s.err = fmt.Errorf("%s: %w", e, vt.Pick(vt.NewRng(uint64(len(e))), []error{context.Canceled, context.DeadlineExceeded}))
			case 'B':
				s.err = broker.ErrTimeout
			case 'N':
				s.err = store.ErrEntityNotFound
			}
		}
		if p := vt.Str(op["plan"]); p != "" {
			s.plan = &fplan{id: p}
		}
		ctx, during, done := context_(vt.Str(op["ctx"]))
		defer done()
		s.given, s.cancel = ctx, during
		err := r.Run(ctx, s.plan, s, w.options(op["opts"], h)...)
		res := M{}
		s.mu.Lock()
		res["calls"] = s.calls
		s.mu.Unlock()
		switch {
		case err == nil:
			res["err"] = "ok"
		case s.plan == nil && errors.Is(err, netscrape.ErrMissingPlan):
			res["err"] = "ErrMissingPlan"
		case s.err != nil && err == s.err:
			res["err"] = op["ret"]
		default:
			res["err"] = "other: " + err.Error()
		}
		return res
	case "later":
		w.mu.Lock()
		o := w.kept[vt.Str(op["id"])]
		w.mu.Unlock()
		m := look(o)
		m["err"] = "ok"
		return m
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil, nil) })) })
}

type gen struct {
	r   *vt.Rng
	rs  []string
	ids []string
	pre string
	n   int
}

func (g *gen) opts(max int) []any {
	l := []any{}
	for k := g.r.N(max + 1); k > 0; k-- {
		f := vt.Pick(g.r, []string{"s", "b", "m"})
		l = append(l, []any{f, fmt.Sprintf("%s%d", f, g.r.N(4))})
	}
	return l
}

func (g *gen) mk() M {
	g.n++
	n := fmt.Sprintf("%sr%d", g.pre, g.n)
	return M{"o": "new", "r": n, "opts": g.opts(4)}
}

func (g *gen) run() M {
	g.n++
	op := M{"o": "run", "id": fmt.Sprintf("%si%d", g.pre, g.n), "r": vt.Pick(g.r, g.rs), "opts": g.opts(5), "plan": "",
		"ctx": fmt.Sprintf("%sc%d%s", g.pre, g.n, vt.Pick(g.r, []string{"", "", "d", "x", "t"})), "ret": "ok"}
	if g.r.P(80) {
		op["plan"] = fmt.Sprintf("%sp%d", g.pre, g.n)
	}
	if g.r.P(30) {
		op["ret"] = fmt.Sprintf("%se%d%s", g.pre, g.n, vt.Pick(g.r, []string{"", "", "P", "M", "D", "C", "W", "B", "N"}))
	}
	return op
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	ok := true
	switch *mode {
	case "seq":
		for k, s := range vt.ReadScripts(*scripts) {
			t := vt.NewTrace(fmt.Sprintf("script%d", k), nil)
			w := newWorld()
			for _, op := range s {
				if ok = ok && w.step(t, op); !ok {
					break
				}
			}
			o.Put(t)
			if !ok {
				break
			}
		}
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			t := vt.NewTrace(fmt.Sprintf("random%d", k), nil)
			w := newWorld()
			g := &gen{r: vt.NewRng(seed*1000003 + uint64(k))}
			for j := 0; j < 20 && ok; j++ {
				switch c := g.r.N(10); {
				case len(g.rs) == 0 || c == 0 && len(g.rs) < 4:
					op := g.mk()
					g.rs = append(g.rs, vt.Str(op["r"]))
					ok = w.step(t, op)
				case c == 1 && len(g.ids) > 0:
					ok = w.step(t, M{"o": "later", "id": vt.Pick(g.r, g.ids)})
				case c == 2:
					// a scraper that runs the runner
					a, b := g.run(), g.run()
					if a["plan"] == "" {
						a["plan"] = "p"
					}
					g.ids = append(g.ids, vt.Str(a["id"]))
					if b["plan"] != "" {
						g.ids = append(g.ids, vt.Str(b["id"]))
					}
					ok = vt.Guard(t, func() {
						ca := t.Call(1, a)
						res := vt.Catch(func() M {
							return w.exec(a, nil, func() {
								cb := t.Call(2, b)
								t.Ret(2, cb, w.exec(b, nil, nil))
							})
						})
						t.Ret(1, ca, res)
					})
				default:
					op := g.run()
					if op["plan"] != "" {
						g.ids = append(g.ids, vt.Str(op["id"]))
					}
					ok = w.step(t, op)
				}
			}
			for _, id := range g.ids {
				ok = ok && w.step(t, M{"o": "later", "id": id})
			}
			o.Put(t)
		}
	case "conc":
		all := []any{[]any{"s", "s1"}, []any{"b", "b1"}, []any{"m", "m1"}}
		news := [][]any{{}, all}
		runs := []M{
			{"o": "run", "opts": []any{}, "plan": "p", "ret": "ok"},
			{"o": "run", "opts": []any{[]any{"s", "s2"}}, "plan": "p", "ret": "ok"},
			{"o": "run", "opts": []any{[]any{"b", "b2"}, []any{"m", "m2"}}, "plan": "p", "ret": "e"},
			{"o": "run", "opts": []any{[]any{"m", "m3"}, []any{"s", "s3"}, []any{"b", "b3"}}, "plan": "p", "ret": "ok"},
			{"o": "run", "opts": []any{[]any{"m", "m4"}}, "plan": "", "ret": "ok"},
		}
		with := func(op M, n string) M {
			x := M{"r": "r", "id": n, "ctx": "c" + n}
			for k, v := range op {
				x[k] = v
			}
			return x
		}
		for ni, nw := range news {
			for ai, a := range runs {
				for bi, b := range runs {
					for k := 1; k <= 12 && ok; k++ {
						w := newWorld()
						t := vt.NewTrace(fmt.Sprintf("preempt-%d-%d-%d-%d", ni, ai, bi, k), nil)
						w.step(t, M{"o": "new", "r": "r", "opts": nw})
						th := func(op M) vt.Thread {
							return vt.Thread{Op: op, Run: func(h *vt.Hook) M {
								if h == nil {
									h = vt.NewHook(0)
								}
								return w.exec(op, h, nil)
							}}
						}
						reached, fin := vt.OnePreemption(t, th(with(a, "1")), th(with(b, "2")), k)
						ok = fin
						for j, x := range []M{a, b} {
							if x["plan"] != "" {
								ok = ok && w.step(t, M{"o": "later", "id": fmt.Sprint(j + 1)})
							}
						}
						o.Put(t)
						if !reached {
							break
						}
					}
				}
			}
		}
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			w := newWorld()
			g := &gen{r: vt.NewRng(seed*7777777 + uint64(k))}
			t := vt.NewTrace(fmt.Sprintf("conc%d", k), nil)
			for j := 0; j < 1+k%2; j++ {
				op := g.mk()
				g.rs = append(g.rs, vt.Str(op["r"]))
				ok = ok && w.step(t, op)
			}
			ids := []string{}
			threads := make([][]vt.Thread, 4)
			for p := range threads {
				for j := 0; j < 3; j++ {
					op := g.run()
					if op["plan"] != "" {
						ids = append(ids, vt.Str(op["id"]))
					}
					threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M {
						if k%3 == 0 {
							h = nil // options shared between the runs
						}
						return w.exec(op, h, nil)
					}})
				}
			}
			ok = ok && vt.Parallel(t, threads)
			for _, id := range ids {
				ok = ok && w.step(t, M{"o": "later", "id": id})
			}
			o.Put(t)
		}
	}
	o.Close()
}
