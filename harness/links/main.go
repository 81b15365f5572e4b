// links drives the link cache.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"sync/atomic"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	cachemem "github.com/milosgajdos/netscrape/pkg/cache/memory"

	"verif/vt"
)

type M = vt.M

// hlink is a link whose accessors are scheduling points.
type hlink struct {
	id, f, t string
	a        attrs.Attrs
	h        *vt.Hook
}

func (l *hlink) UID() uuid.UID      { return vt.UID(l.id) }
func (l *hlink) From() uuid.UID     { l.h.Point(); return &vt.HUID{S: l.f, H: l.h} }
func (l *hlink) To() uuid.UID       { l.h.Point(); return &vt.HUID{S: l.t, H: l.h} }
func (l *hlink) Attrs() attrs.Attrs { return l.a }

type held struct {
	ls   []cache.Link
	proj string
}

type world struct {
	c    *cachemem.Links
	held []held
	n    atomic.Int64
}

func newWorld() *world {
	c, err := cachemem.NewLinks()
	vt.Must(err)
	return &world{c: c}
}

func mklink(op M, h *vt.Hook, n int) cache.Link {
	id, f, t, a := vt.Str(op["id"]), vt.Str(op["f"]), vt.Str(op["t"]), vt.Str(op["a"])
	if h != nil || n%3 == 0 {
		return &hlink{id, f, t, vt.Attrs(a), h}
	}
	l, err := link.New(vt.UID(f), vt.UID(t), link.WithUID(vt.UID(id)), link.WithAttrs(vt.Attrs(a)))
	vt.Must(err)
	return l
}

func proj(ls []cache.Link) []any {
	out := []any{}
	for _, l := range ls {
		if l == nil {
			out = append(out, M{"id": "<nil>", "f": "", "t": "", "a": ""})
			continue
		}
		out = append(out, M{"id": l.UID().String(), "f": l.From().String(), "t": l.To().String(), "a": vt.AttrStr(l.Attrs())})
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func uid(s string, h *vt.Hook) uuid.UID {
	if h != nil {
		return &vt.HUID{S: s, H: h}
	}
	return vt.UID(s)
}

func (w *world) keep(ls []cache.Link) {
	w.held = append(w.held, held{ls, fmt.Sprint(proj(ls))})
}

// option with a scheduling point
func opts(ups bool, h *vt.Hook) []cache.Option {
	var o []cache.Option
	if ups {
		o = append(o, cache.WithUpsert())
	}
	if h != nil {
		o = append(o, func(*cache.Options) { h.Point() })
	}
	return o
}

func errRes(err error) M { return M{"err": vt.ErrName(err, nil)} }

func (w *world) bulk(us []string, h *vt.Hook, get func([]uuid.UID) (map[uuid.UID][]cache.Link, error)) M {
	objs := make([]uuid.UID, len(us))
	for i, u := range us {
		objs[i] = uid(u, h)
		// a repeated UID is the same object at odd distances, else another one of the same value
		for j := i - 1; j >= 0; j -= 2 {
			if us[j] == u {
				objs[i] = objs[j]
			}
		}
	}
	m, err := get(objs)
	if err != nil {
		return errRes(err)
	}
	// a requested UID may be repeated: the entry may be under any of the objects
	// passed with its value
	out, extra, known := []any{}, 0, map[string]bool{}
	for i := range objs {
		known[us[i]] = true
		var ls []cache.Link
		for j := range objs {
			if us[j] == us[i] {
				if l, ok := m[objs[j]]; ok {
					ls = l
				}
			}
		}
		if h == nil {
			w.keep(ls)
		}
		out = append(out, proj(ls))
	}
	for k, ls := range m {
		if !known[k.String()] && len(ls) > 0 {
			extra++
		}
	}
	return M{"err": "ok", "m": out, "extra": extra}
}

// exec runs one operation on the real cache.
func (w *world) exec(op M, h *vt.Hook) M {
	n := int(w.n.Add(1))
	switch op["o"] {
	case "put":
		return errRes(w.c.Put(vt.Ctx, mklink(op["l"].(M), h, n), opts(vt.Bool(op["ups"]), h)...))
	case "bulkput":
		var ls []cache.Link
		for _, l := range op["ls"].([]any) {
			ls = append(ls, mklink(l.(M), h, n))
		}
		return errRes(w.c.BulkPut(vt.Ctx, ls, opts(vt.Bool(op["ups"]), h)...))
	case "del":
		return errRes(w.c.Delete(vt.Ctx, uid(vt.Str(op["u"]), h), opts(false, h)...))
	case "bulkdel":
		var us []uuid.UID
		for _, u := range vt.Strs(op["us"]) {
			us = append(us, uid(u, h))
		}
		return errRes(w.c.BulkDelete(vt.Ctx, us, opts(false, h)...))
	case "clear":
		return errRes(w.c.Clear(vt.Ctx, opts(false, h)...))
	case "from", "to":
		get := w.c.GetFrom
		if op["o"] == "to" {
			get = w.c.GetTo
		}
		ls, err := get(vt.Ctx, uid(vt.Str(op["u"]), h), opts(false, h)...)
		if err != nil {
			return errRes(err)
		}
		if h == nil {
			w.keep(ls)
		}
		return M{"err": "ok", "ls": proj(ls)}
	case "bulkfrom":
		return w.bulk(vt.Strs(op["us"]), h, func(us []uuid.UID) (map[uuid.UID][]cache.Link, error) {
			return w.c.BulkGetFrom(vt.Ctx, us, opts(false, h)...)
		})
	case "bulkto":
		return w.bulk(vt.Strs(op["us"]), h, func(us []uuid.UID) (map[uuid.UID][]cache.Link, error) {
			return w.c.BulkGetTo(vt.Ctx, us, opts(false, h)...)
		})
	case "all":
		from, to := []any{}, []any{}
		for _, u := range vt.Strs(op["us"]) {
			f, err := w.c.GetFrom(vt.Ctx, vt.UID(u))
			if err != nil {
				return errRes(err)
			}
			t, err := w.c.GetTo(vt.Ctx, vt.UID(u))
			if err != nil {
				return errRes(err)
			}
			from, to = append(from, proj(f)), append(to, proj(t))
		}
		return M{"err": "ok", "from": from, "to": to}
	case "held":
		same := true
		for _, x := range w.held {
			same = same && fmt.Sprint(proj(x.ls)) == x.proj
		}
		return M{"err": "ok", "same": same}
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil) })) })
}

func ulist(us []string) []any {
	out := []any{}
	for _, u := range us {
		out = append(out, u)
	}
	return out
}

// gen makes random operations.
type gen struct {
	r     *vt.Rng
	us    []string
	kinds []string
	n     int
	max   int // bound of bulk calls
	every int
}

func (g *gen) link() M {
	g.n++
	f, t := "", ""
	if len(g.us) > 0 {
		f, t = vt.Pick(g.r, g.us), vt.Pick(g.r, g.us)
	}
	id := fmt.Sprintf("l%d", g.n)
	if g.r.P(15) {
		id = fmt.Sprintf("l%d", 1+g.r.N(g.n)) // UIDs of links may repeat
	}
	return M{"id": id, "f": f, "t": t, "a": fmt.Sprintf("n=%d", g.n)}
}

func (g *gen) uids(max int) []any {
	out := []any{}
	for n := g.r.N(max + 1); n > 0; n-- {
		out = append(out, vt.Pick(g.r, g.us))
	}
	return out
}

func (g *gen) op() M {
	switch k := vt.Pick(g.r, g.kinds); k {
	case "put":
		return M{"o": "put", "l": g.link(), "ups": g.r.P(30)}
	case "bulkput":
		ls := []any{}
		for n := g.r.N(max(g.max, 4)); n > 0; n-- {
			ls = append(ls, g.link())
		}
		return M{"o": "bulkput", "ls": ls, "ups": g.r.P(30)}
	case "clear":
		return M{"o": "clear"}
	case "bulkdel", "bulkfrom", "bulkto":
		return M{"o": k, "us": g.uids(max(g.max, 4))}
	default:
		return M{"o": k, "u": vt.Pick(g.r, g.us)}
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc, hammer")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	prop := os.Getenv("PROP")
	us := []string{"a", "b", "c", "d"}
	ok := true
	switch *mode {
	case "seq":
		for k, s := range vt.ReadScripts(*scripts) {
			t := vt.NewTrace(fmt.Sprintf("script%d", k), nil)
			w := newWorld()
			for _, op := range s {
				if ok = w.step(t, op); !ok {
					break
				}
			}
			if ok {
				ok = w.step(t, M{"o": "all", "us": ulist(us[:3])})
			}
			if ok && prop != "C17" {
				ok = w.step(t, M{"o": "held"})
			}
			o.Put(t)
			if !ok {
				break
			}
		}
		kinds := []string{"put", "put", "put", "put", "from", "to", "del", "clear"}
		if prop != "C17" {
			kinds = append(kinds, "bulkput", "bulkput", "bulkdel", "bulkfrom", "bulkto", "put", "put")
		}
		for k := 0; k < vt.Env("HUGE", 4) && ok && prop != "C17"; k++ {
			// bulk calls longer than a batch is likely to be
			t := vt.NewTrace(fmt.Sprintf("huge%d", k), nil)
			w := newWorld()
			g := &gen{r: vt.NewRng(seed*1000003 + uint64(k))}
			n := 101 + g.r.N(160)
			us := vt.Many(n)
			shuffled := func(m int) []any {
				out := []any{}
				for _, j := range g.r.Perm(n)[:m] {
					out = append(out, us[j])
				}
				return out
			}
			ls := []any{}
			for j := range us {
				l := g.link()
				l["id"], l["f"], l["t"] = fmt.Sprintf("l%d", j), us[j], us[j*(k+1)%(5+20*k)]
				ls = append(ls, l)
			}
			for _, op := range []M{{"o": "bulkput", "ls": ls, "ups": k%2 == 0}, {"o": "all", "us": ulist(us)},
				{"o": "bulkfrom", "us": shuffled(n)}, {"o": "bulkto", "us": shuffled(n)}, {"o": "bulkput", "ls": ls[3:], "ups": true},
				{"o": "bulkdel", "us": shuffled(n - 5)}, {"o": "all", "us": ulist(us)}} {
				ok = ok && w.step(t, op)
			}
			o.Put(t)
		}
		n, length := vt.Env("RANDOM", 200), vt.Env("LENGTH", 40)
		for k := 0; k < n+vt.Env("LARGE", 4) && ok; k++ {
			t := vt.NewTrace(fmt.Sprintf("random%d", k), nil)
			w := newWorld()
			us := vt.Names(k / 3)[:4]
			g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), us: us[:2+k%3], kinds: kinds, max: 4, every: 5}
			if k >= n { // many UIDs, long bulk calls
				us = vt.Many(10 + k%3*20)
				g.us, g.max, g.every, length = us, 10+k%2*60, 40, 160
			}
			for j := 0; j < length && ok; j++ {
				ok = w.step(t, g.op())
				if ok && j%g.every == g.every-1 {
					ok = w.step(t, M{"o": "all", "us": ulist(us)})
				}
			}
			if ok {
				ok = w.step(t, M{"o": "held"})
			}
			o.Put(t)
		}
	case "conc":
		conc(o, seed, us)
	case "hammer":
		hammer(o, seed, us)
	}
	o.Close()
}

// seen are the UIDs to look at after a schedule.
func seen(set []M, a M, us []string) []string {
	for _, op := range append(set, a) {
		if ls, ok := op["ls"].([]any); ok && len(ls) > 10 {
			return vt.Many(len(ls))
		}
	}
	return us
}

// conc explores every single preemption at a scheduling point for pairs of
// operations, then random concurrent histories.
func conc(o *vt.Out, seed uint64, us []string) {
	l := func(id, f, t string) M { return M{"id": id, "f": f, "t": t, "a": "n=" + id} }
	setup := []M{
		{"o": "put", "l": l("s1", "a", "b"), "ups": false},
		{"o": "put", "l": l("s2", "b", "a"), "ups": false},
		{"o": "put", "l": l("s3", "b", "b"), "ups": false},
	}
	ops := []M{
		{"o": "put", "l": l("x1", "a", "b"), "ups": true},
		{"o": "put", "l": l("x2", "a", "c"), "ups": false},
		{"o": "put", "l": l("x3", "c", "b"), "ups": false},
		{"o": "bulkput", "ls": []any{l("y1", "a", "c"), l("y2", "c", "a")}, "ups": false},
		{"o": "bulkput", "ls": []any{l("y3", "a", "b"), l("y4", "b", "a")}, "ups": true},
		{"o": "del", "u": "a"}, {"o": "del", "u": "b"},
		{"o": "bulkdel", "us": []any{"a", "b"}},
		{"o": "clear"},
		{"o": "from", "u": "a"}, {"o": "to", "u": "a"}, {"o": "from", "u": "b"}, {"o": "to", "u": "b"},
		{"o": "bulkfrom", "us": []any{"a", "b", "c"}}, {"o": "bulkto", "us": []any{"a", "b", "c"}},
	}
	ok := true
	maxk := vt.Env("MAXK", 8)
	for si, set := range [][]M{setup, nil} {
		for ai, a := range ops {
			for bi, b := range ops {
				for k := 1; k <= maxk && ok; k++ {
					w := newWorld()
					t := vt.NewTrace(fmt.Sprintf("preempt-%d-%d-%d-%d", si, ai, bi, k), nil)
					for _, op := range set {
						w.step(t, op)
					}
					th := func(op M) vt.Thread {
						return vt.Thread{Op: op, Run: func(h *vt.Hook) M {
							if h == nil {
								h = vt.NewHook(0)
							}
							return w.exec(op, h)
						}}
					}
					reached, fin := vt.OnePreemption(t, th(a), th(b), k)
					ok = fin
					if fin {
						ok = w.step(t, M{"o": "all", "us": ulist(us)})
					}
					o.Put(t)
					if !reached {
						break
					}
				}
			}
		}
	}
	// a call on many items against two calls one after the other
	three := []M{
		{"o": "put", "l": l("s1", "a", "b"), "ups": false}, {"o": "put", "l": l("s2", "b", "c"), "ups": false}, {"o": "put", "l": l("s3", "c", "a"), "ups": false},
	}
	rd := func(o, u string) M { return M{"o": o, "u": u} }
	us3 := func(o string, us ...string) M { return M{"o": o, "us": ulist(us)} }
	put := func(id, f, t string) M { return M{"o": "put", "l": l(id, f, t), "ups": true} }
	bput := func(ups bool, ls ...any) M { return M{"o": "bulkput", "ls": ls, "ups": ups} }
	ring := bput(false, l("r1", "a", "b"), l("r2", "b", "c"), l("r3", "c", "a"))
	type schedule struct {
		set []M
		a   M
		bs  [][]M
	}
	many := []schedule{
		{three, us3("bulkdel", "a", "b", "c"), [][]M{{rd("from", "a"), rd("to", "b")}, {rd("from", "c"), rd("from", "a")}, {us3("bulkfrom", "c", "b", "a")}, {put("x1", "c", "d"), rd("from", "a")}, {put("x2", "a", "c"), put("x3", "c", "a")}}},
		{nil, ring, [][]M{{rd("from", "a"), rd("from", "c")}, {rd("to", "a"), rd("to", "b")}, {us3("bulkto", "a", "b", "c")}, {us3("bulkdel", "a", "c")}, {rd("del", "a"), rd("from", "b")}, {{"o": "clear"}}}},
		{three, bput(true, l("r1", "a", "b"), l("r2", "b", "c"), l("r3", "c", "a")), [][]M{{rd("from", "a"), rd("from", "c")}, {us3("bulkdel", "b")}, {put("x1", "c", "a"), put("x2", "a", "b")}, {{"o": "clear"}, rd("from", "a")}}},
		{three, us3("bulkfrom", "a", "b", "c"), [][]M{{rd("del", "c"), rd("del", "a")}, {put("x1", "c", "a"), put("x2", "a", "b")}, {{"o": "clear"}, ring}, {us3("bulkdel", "c")}}},
		{three, us3("bulkto", "a", "b", "c"), [][]M{{rd("del", "c"), rd("del", "a")}, {put("x1", "b", "c"), put("x2", "a", "b")}, {{"o": "clear"}, ring}, {us3("bulkdel", "c")}}},
		{three, rd("del", "a"), [][]M{{rd("from", "a"), rd("to", "b")}, {rd("from", "c"), rd("to", "a")}, {put("x1", "a", "c"), rd("to", "a")}}},
		{three, M{"o": "clear"}, [][]M{{rd("from", "a"), rd("to", "b")}, {rd("to", "a"), rd("from", "c")}, {put("x1", "a", "c"), rd("to", "c")}}},
	}
	// long calls, which may be tempted to give way
	for _, n := range []int{20, 70, 140} {
		xs := vt.Many(n)
		puts, again := []any{}, []any{}
		for i, x := range xs {
			puts = append(puts, l("p"+x, x, xs[(i+1)%n]))
			again = append(again, l("q"+x, x, xs[(i+1)%n]))
		}
		bp := func(ups bool, ls []any) M { return M{"o": "bulkput", "ls": ls, "ups": ups} }
		first, last, rev := xs[0], xs[n-1], []any{}
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, xs[i])
		}
		fl := []M{rd("from", first), rd("from", last)}
		lf := []M{rd("from", last), rd("from", first)}
		many = append(many, []schedule{
			{nil, bp(false, puts), [][]M{fl, lf, {rd("del", first), rd("to", first)}, {us3("bulkdel", last, first)}, {{"o": "clear"}}}},
			{[]M{bp(false, puts)}, bp(true, again), [][]M{fl, {us3("bulkfrom", last, first)}, {{"o": "clear"}}}},
			{[]M{bp(false, puts)}, us3("bulkdel", xs...), [][]M{fl, lf, {us3("bulkto", last, first)}, {put("x1", first, last)}, {put("x1", first, last), rd("from", last)}}},
			{[]M{bp(false, puts)}, us3("bulkfrom", xs...), [][]M{{rd("del", first), rd("del", last)}, {rd("del", last), rd("del", first)}, {bp(true, again)}, {{"o": "clear"}}}},
			{[]M{bp(false, puts)}, M{"o": "bulkto", "us": rev}, [][]M{{rd("del", first), rd("del", last)}, {rd("del", last), rd("del", first)}, {bp(true, again)}, {{"o": "clear"}}}},
			{[]M{bp(false, puts)}, M{"o": "clear"}, [][]M{fl, lf}},
		}...)
	}
	for mi, m := range many {
		for bi, bs := range m.bs {
			for k := 1; k <= maxk && ok; k++ {
				w := newWorld()
				t := vt.NewTrace(fmt.Sprintf("many-%d-%d-%d", mi, bi, k), nil)
				for _, op := range m.set {
					w.step(t, op)
				}
				var tbs []vt.Thread
				for _, b := range bs {
					tbs = append(tbs, vt.Thread{Op: b, Run: func(*vt.Hook) M { return w.exec(b, vt.NewHook(0)) }})
				}
				reached, fin := vt.Preempt(t, vt.Thread{Op: m.a, Run: func(h *vt.Hook) M { return w.exec(m.a, h) }}, tbs, k, 8)
				ok = fin && w.step(t, M{"o": "all", "us": ulist(seen(m.set, m.a, us))})
				o.Put(t)
				if !reached {
					break
				}
			}
		}
	}
	n := vt.Env("RANDOM", 200)
	kinds := []string{"put", "put", "put", "from", "to", "del", "clear", "bulkput", "bulkdel", "bulkfrom", "bulkto"}
	for k := 0; k < n && ok; k++ {
		w := newWorld()
		g := &gen{r: vt.NewRng(seed*7777777 + uint64(k)), us: us[:2+k%2], kinds: kinds}
		if k%12 == 5 {
			g.max = 60
		}
		t := vt.NewTrace(fmt.Sprintf("conc%d", k), nil)
		for round := 0; round < 3 && ok; round++ {
			threads := make([][]vt.Thread, 3)
			for p := range threads {
				for j := 0; j < 3; j++ {
					op := g.op()
					threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M { return w.exec(op, h) }})
				}
			}
			ok = vt.Parallel(t, threads)
			if ok {
				ok = w.step(t, M{"o": "all", "us": ulist(us)})
			}
		}
		o.Put(t)
	}
}

// hammer runs operations from many goroutines without recording them, and
// then looks at what is left.
func hammer(o *vt.Out, seed uint64, us []string) {
	kinds := []string{"put", "put", "put", "from", "to", "del", "clear", "bulkput", "bulkdel", "bulkfrom", "bulkto"}
	for k := 0; k < vt.Env("HAMMERS", 4); k++ {
		w := newWorld()
		t := vt.NewTrace(fmt.Sprintf("hammer%d", k), nil)
		ok := vt.Hammer(t, seed+uint64(k)*131, vt.Env("HAMMER_OPS", 3000), func(r *vt.Rng) func() {
			g := &gen{r: r, us: us, kinds: kinds}
			return func() { w.exec(g.op(), vt.YieldHook()) }
		})
		if ok {
			ok = vt.Guard(t, func() {
				res := vt.Catch(func() M { return w.exec(M{"o": "all", "us": ulist(us)}, nil) })
				t.Op(M{"o": "adopt", "us": ulist(us)}, res)
			})
		}
		o.Put(t)
		if !ok {
			return
		}
	}
}
