// store drives the in-memory store.
package main

import (
	"context"
	"flag"
	"fmt"
	"os"
	"sort"
	"sync/atomic"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	graphmem "github.com/milosgajdos/netscrape/pkg/graph/memory"
	storemem "github.com/milosgajdos/netscrape/pkg/store/memory"

	"verif/gh"
	"verif/vt"
)

type M = vt.M

var known = map[string]error{"ErrEntityNotFound": store.ErrEntityNotFound, "ErrAlreadyExists": store.ErrAlreadyExists}

func errRes(err error) M { return M{"err": vt.ErrName(err, known)} }

// ent is an entity; its UID is a scheduling point.
type ent struct {
	w  *world
	u  string
	ty string
	a  attrs.Attrs
}

func (e *ent) UID() uuid.UID      { return e.w.uid(e.u) }
func (e *ent) Type() string       { return e.ty }
func (e *ent) Attrs() attrs.Attrs { return e.a }

type handle interface {
	graph.Graph
	Edges(context.Context) ([]graph.Edge, error)
}

type world struct {
	s    *storemem.Memory
	hd   graph.Graph // the graph handle taken at the start
	hook atomic.Pointer[vt.Hook]
	n    atomic.Int64
	last map[string]store.Entity // the entity objects last added, by UID
}

func (w *world) point() { w.hook.Load().Point() }

func (w *world) uid(s string) uuid.UID {
	if h := w.hook.Load(); h != nil {
		return &vt.HUID{S: s, H: h}
	}
	return vt.UID(s)
}

func newWorld(kind string, hooked bool) *world {
	w := &world{last: map[string]store.Entity{}}
	var opts []storemem.Option
	var g graphmem.Graph
	var err error
	switch {
	case hooked && kind == "d":
		g, err = graphmem.NewWG(gh.Directed(w.point))
	case hooked:
		g, err = graphmem.NewWG(gh.Undirected(w.point))
	case kind == "d":
		g, err = graphmem.NewWDG()
	}
	vt.Must(err)
	if g != nil {
		opts = append(opts, storemem.WithGraph(g))
	}
	w.s, err = storemem.NewStore(opts...)
	vt.Must(err)
	w.hd, err = w.s.Graph()
	vt.Must(err)
	return w
}

// view shows an entity.
func view(e store.Entity) M {
	if e == nil {
		return M{"u": "<nil>", "ty": "", "at": ""}
	}
	return M{"u": e.UID().String(), "ty": e.Type(), "at": vt.AttrStr(e.Attrs())}
}

// nview shows a node of the graph handle.
func nview(n graph.Node) M {
	if e, ok := n.(store.Entity); ok {
		return view(e)
	}
	return M{"u": n.UID().String(), "ty": "<none>", "at": vt.AttrStr(n.Attrs())}
}

func sorted(out []any) []any {
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func (w *world) handle(us []string) M {
	g := w.hd
	if w.n.Add(1)%2 == 0 {
		var err error
		if g, err = w.s.Graph(); err != nil {
			return errRes(err)
		}
	}
	ns, err := g.Nodes(vt.Ctx)
	if err != nil {
		return errRes(err)
	}
	es, err := g.(handle).Edges(vt.Ctx)
	if err != nil {
		return errRes(err)
	}
	nodes, edges, look, from := []any{}, []any{}, []any{}, []any{}
	for _, n := range ns {
		nodes = append(nodes, nview(n))
	}
	for _, e := range es {
		f, err := e.FromNode()
		if err != nil {
			return errRes(err)
		}
		t, err := e.ToNode()
		if err != nil {
			return errRes(err)
		}
		edges = append(edges, M{"f": f.UID().String(), "t": t.UID().String(), "a": vt.AttrStr(e.Attrs())})
	}
	for _, u := range us {
		l := []any{}
		if n, err := g.Node(vt.Ctx, vt.UID(u)); err == nil {
			l = append(l, nview(n))
		}
		look = append(look, l)
		fs := []any{}
		ns, err := g.From(vt.Ctx, vt.UID(u))
		if err == nil {
			for _, n := range ns {
				fs = append(fs, n.UID().String())
			}
		}
		from = append(from, sorted(fs))
	}
	return M{"err": "ok", "nodes": sorted(nodes), "edges": sorted(edges), "look": look, "from": from}
}

func (w *world) ent(n M, hooked bool) store.Entity {
	u, ty, at := vt.Str(n["u"]), vt.Str(n["ty"]), vt.Str(n["at"])
	switch k := w.n.Add(1); {
	case !hooked && k%3 == 0:
		e, err := entity.New(ty, entity.WithUID(vt.UID(u)), entity.WithAttrs(vt.Attrs(at)))
		vt.Must(err)
		return e
	case at == "" && k%2 == 0:
		return &ent{w, u, ty, nil}
	default:
		return &ent{w, u, ty, vt.Attrs(at)}
	}
}

// again is like ent, but now and then the very object that was added before under
// that UID, if it has that type, with the attributes it is to have now.
func (w *world) again(n M, hooked bool) store.Entity {
	u, ty, at := vt.Str(n["u"]), vt.Str(n["ty"]), vt.Str(n["at"])
	if hooked {
		return w.ent(n, hooked)
	}
	if e := w.last[u]; e != nil && e.Type() == ty && w.n.Add(1)%3 != 0 {
		if a, ok := e.Attrs().(*memattrs.Attrs); ok && a != nil {
			for k := range *a {
				delete(*a, k)
			}
			for k, v := range vt.AttrMap(at) {
				vt.Must(a.Set(vt.Ctx, k, v))
			}
			return e
		}
	}
	e := w.ent(n, hooked)
	w.last[u] = e
	return e
}

// later changes the attributes of an entity that has been added with attributes of
// its own: the change is not part of what it was added with.
func (w *world) later(e store.Entity, hooked bool) {
	if a, ok := e.Attrs().(*memattrs.Attrs); ok && a != nil && !hooked && w.n.Add(1)%2 == 0 {
		vt.Must(a.Set(vt.Ctx, "later", "x"))
	}
}

func (w *world) opts(op M, h *vt.Hook) []store.Option {
	var o []store.Option
	if vt.Bool(op["ups"]) {
		o = append(o, store.WithUpsert())
	}
	if a, ok := op["a"].(string); ok && (a != "" || w.n.Add(1)%2 == 0) {
		o = append(o, store.WithAttrs(vt.Attrs(a)))
	}
	if h != nil {
		o = append(o, func(*store.Options) { h.Point() })
	}
	return o
}

func (w *world) uids(v any) []uuid.UID {
	var us []uuid.UID
	for j, u := range vt.Strs(v) {
		x := w.uid(u)
		for i := range us {
			if (j-i)%2 == 1 && us[i].String() == u {
				x = us[i] // the same object again
			}
		}
		us = append(us, x)
	}
	return us
}

func (w *world) exec(op M, h *vt.Hook) M {
	s, c := w.s, vt.Ctx
	u, f, t := vt.Str(op["u"]), vt.Str(op["f"]), vt.Str(op["t"])
	switch op["o"] {
	case "add":
		// attributes passed with the add take the place of the entity's own
		n := op["n"].(M)
		if at := vt.Str(n["at"]); w.n.Add(1)%3 == 0 {
			e := w.again(M{"u": n["u"], "ty": n["ty"], "at": "own=1"}, h != nil)
			return errRes(s.Add(c, e, append(w.opts(op, h), store.WithAttrs(vt.Attrs(at)))...))
		}
		e := w.again(n, h != nil)
		err := s.Add(c, e, w.opts(op, h)...)
		w.later(e, h != nil)
		return errRes(err)
	case "get":
		e, err := s.Get(c, w.uid(u), w.opts(op, h)...)
		if err != nil {
			return errRes(err)
		}
		return M{"err": "ok", "n": view(e)}
	case "del":
		return errRes(s.Delete(c, w.uid(u), w.opts(op, h)...))
	case "link":
		return errRes(s.Link(c, w.uid(f), w.uid(t), w.opts(op, h)...))
	case "unlink":
		return errRes(s.Unlink(c, w.uid(f), w.uid(t), w.opts(op, h)...))
	case "bulkadd":
		var es []store.Entity
		o, given := w.opts(op, h), w.n.Add(1)%2 == 0
		ns := op["ns"].([]any)
		for _, n := range ns {
			given = given && n.(M)["at"] == ns[0].(M)["at"]
		}
		for k, n := range ns {
			n := n.(M)
			if given { // the attributes of all of them are passed with the call
				if k == 0 {
					o = append(o, store.WithAttrs(vt.Attrs(vt.Str(n["at"]))))
				}
				n = M{"u": n["u"], "ty": n["ty"], "at": "own=1"}
			}
			es = append(es, w.ent(n, h != nil))
		}
		return errRes(s.BulkAdd(c, es, o...))
	case "bulkget":
		es, err := s.BulkGet(c, w.uids(op["us"]), w.opts(op, h)...)
		out := []any{}
		for _, e := range es {
			out = append(out, view(e))
		}
		return M{"err": vt.ErrName(err, known), "ns": out}
	case "bulkdel":
		return errRes(s.BulkDelete(c, w.uids(op["us"]), w.opts(op, h)...))
	case "bulklink":
		return errRes(s.BulkLink(c, w.uid(f), w.uids(op["us"]), w.opts(op, h)...))
	case "bulkunlink":
		return errRes(s.BulkUnlink(c, w.uid(f), w.uids(op["us"]), w.opts(op, h)...))
	case "handle", "adopt":
		return w.handle(vt.Strs(op["us"]))
	case "hread":
		// the graph handle read while others write: only that it works matters
		w.handle(vt.Strs(op["us"]))
		return M{"err": "ok"}
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil) })) })
}

func list(us []string) []any {
	out := []any{}
	for _, u := range us {
		out = append(out, u)
	}
	return out
}

// ---------------------------------------------------------------- histories

type gen struct {
	r    *vt.Rng
	us   []string
	prop string
	tag  string
	n    int
	max  int // bound of bulk calls
}

func (g *gen) u() string { return vt.Pick(g.r, g.us) }

func (g *gen) ent() M {
	g.n++
	id := fmt.Sprintf("%s%d", g.tag, g.n)
	n := M{"u": g.u(), "ty": "t" + id, "at": ""}
	if g.r.P(40) {
		n["ty"] = "t"
	}
	if g.r.P(75) {
		n["at"] = "n=" + id
	}
	if g.r.P(30) {
		n["at"] = "m=x;n=" + id
	}
	return n
}

func (g *gen) uids(max int) []any {
	out := []any{}
	for n := g.r.N(max + 1); n > 0; n-- {
		out = append(out, g.u())
	}
	return out
}

func (g *gen) la() string {
	g.n++
	if g.r.P(20) {
		return ""
	}
	return fmt.Sprintf("l=%s%d", g.tag, g.n)
}

var kinds = map[string][]string{
	"C14": {"add", "add", "add", "add", "get", "get", "del", "link", "link", "link", "unlink"},
	"C15": {"bulkadd", "bulkadd", "bulkget", "bulkget", "bulkdel", "bulklink", "bulklink", "bulkunlink", "add", "link"},
	"C16": {"add", "add", "get", "del", "link", "link", "unlink", "bulkadd", "bulkadd", "bulkget", "bulkdel", "bulklink", "bulkunlink", "hread"},
}

func (g *gen) op() M {
	switch k := vt.Pick(g.r, kinds[g.prop]); k {
	case "add":
		return M{"o": k, "n": g.ent(), "ups": g.r.P(40)}
	case "link":
		return M{"o": k, "f": g.u(), "t": g.u(), "a": g.la()}
	case "unlink":
		return M{"o": k, "f": g.u(), "t": g.u()}
	case "bulkadd":
		ns := []any{}
		for n := g.r.N(max(g.max, 3) + 1); n > 0; n-- {
			ns = append(ns, g.ent())
		}
		if g.r.P(20) {
			for _, n := range ns {
				n.(M)["at"] = ns[0].(M)["at"]
			}
		}
		return M{"o": k, "ns": ns, "ups": g.r.P(40)}
	case "bulkget", "bulkdel":
		return M{"o": k, "us": g.uids(max(g.max, 3))}
	case "bulklink":
		return M{"o": k, "f": g.u(), "us": g.uids(max(g.max, 3)), "a": g.la()}
	case "bulkunlink":
		return M{"o": k, "f": g.u(), "us": g.uids(max(g.max, 3))}
	case "hread":
		return M{"o": k, "us": list(g.us)}
	default:
		return M{"o": k, "u": g.u()}
	}
}

var allUIDs = []string{"a", "b", "c", "d", "e", "f"}

// look ends a trace with a full view of the store.
func (w *world) look(t *vt.Trace, us []string) bool {
	for _, u := range us {
		if !w.step(t, M{"o": "get", "u": u}) {
			return false
		}
	}
	return w.step(t, M{"o": "handle", "us": list(us)})
}

func seq(o *vt.Out, seed uint64, prop, scripts string) {
	for si, s := range vt.ReadScripts(scripts) {
		kind := vt.Str(s[0]["k"])
		w := newWorld(kind, false)
		t := vt.NewTrace(fmt.Sprintf("script%d", si), M{"k": kind})
		ok := true
		for _, op := range s[1:] {
			ok = ok && w.step(t, op)
		}
		ok = ok && w.look(t, allUIDs[:3])
		o.Put(t)
		if !ok {
			return
		}
	}
	ok := prop != "C15" || huge(o, seed)
	n, length := vt.Env("RANDOM", 300), vt.Env("LENGTH", 30)
	for k := 0; k < n+vt.Env("LARGE", 4) && ok; k++ {
		kind := []string{"d", "u"}[k%2]
		w := newWorld(kind, false)
		t := vt.NewTrace(fmt.Sprintf("random%d", k), M{"k": kind})
		g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), us: vt.Names(k / 8)[:2+k/2%4], prop: prop, max: 3}
		often := 20
		if k >= n { // many entities, long bulk calls
			g.us, g.max, often, length = vt.Many(10+k%3*20), 10+k%2*50, 2, 160
		}
		for j := 0; j < length && ok; j++ {
			ok = w.step(t, g.op())
			if ok && g.r.P(often) {
				ok = w.look(t, g.us)
			}
		}
		ok = ok && w.look(t, g.us)
		o.Put(t)
	}
}

// huge has bulk calls longer than a batch is likely to be.
func huge(o *vt.Out, seed uint64) bool {
	for k := 0; k < vt.Env("HUGE", 4); k++ {
		kind := []string{"d", "u"}[k%2]
		w := newWorld(kind, false)
		t := vt.NewTrace(fmt.Sprintf("huge%d", k), M{"k": kind})
		r := vt.NewRng(seed*1000003 + uint64(k))
		n := 101 + r.N(160)
		g := &gen{r: r, us: vt.Many(n)}
		us := g.us
		shuffled := func(m int) []any {
			out := []any{}
			for _, j := range r.Perm(n)[:m] {
				out = append(out, us[j])
			}
			return out
		}
		ns := []any{}
		for _, u := range us {
			e := g.ent()
			e["u"] = u
			ns = append(ns, e)
		}
		ok := true
		for _, op := range []M{
			{"o": "bulkadd", "ns": ns, "ups": k%4 > 1}, {"o": "bulkget", "us": shuffled(n)},
			{"o": "bulklink", "f": us[1], "us": shuffled(n), "a": g.la()}, {"o": "handle", "us": list(us)},
			{"o": "bulkunlink", "f": us[1], "us": shuffled(n - 3)}, {"o": "bulklink", "f": us[n-1], "us": shuffled(n), "a": g.la()},
			{"o": "bulkadd", "ns": ns, "ups": true}, {"o": "bulkdel", "us": shuffled(n - 4)},
			{"o": "bulkget", "us": list(us)}, {"o": "handle", "us": list(us)},
		} {
			ok = ok && w.step(t, op)
		}
		o.Put(t)
		if !ok {
			return false
		}
	}
	return true
}

// long is the number of entities of the longest bulk add, if many.
func long(ops []M) int {
	for _, op := range ops {
		if ns, ok := op["ns"].([]any); ok && len(ns) > 10 {
			return len(ns)
		}
	}
	return 0
}

func conc(o *vt.Out, seed uint64) {
	e := func(u, v string) M { return M{"u": u, "ty": "t" + v, "at": "n=" + v} }
	setup := []M{
		{"o": "add", "n": e("a", "s1"), "ups": false}, {"o": "add", "n": e("b", "s2"), "ups": false},
		{"o": "link", "f": "a", "t": "b", "a": "l=s"},
	}
	ops := []M{
		{"o": "add", "n": e("a", "x1"), "ups": true}, {"o": "add", "n": e("c", "x2"), "ups": false},
		{"o": "bulkadd", "ns": []any{e("c", "y1"), e("a", "y2")}, "ups": false},
		{"o": "bulkadd", "ns": []any{e("a", "y3"), e("b", "y4")}, "ups": true},
		{"o": "get", "u": "a"}, {"o": "bulkget", "us": []any{"a", "b"}},
		{"o": "del", "u": "a"}, {"o": "bulkdel", "us": []any{"a", "b"}},
		{"o": "link", "f": "a", "t": "b", "a": "l=x"}, {"o": "link", "f": "b", "t": "a", "a": "l=y"},
		{"o": "bulklink", "f": "b", "us": []any{"a", "c"}, "a": "l=z"},
		{"o": "unlink", "f": "a", "t": "b"}, {"o": "bulkunlink", "f": "a", "us": []any{"b", "c"}},
		{"o": "hread", "us": []any{"a", "b"}},
	}
	ok := true
	maxk := vt.Env("MAXK", 10)
	for _, kind := range []string{"d", "u"} {
		for si, set := range [][]M{setup, nil} {
			for ai, a := range ops {
				for bi, b := range ops {
					for k := 1; k <= maxk && ok; k++ {
						w := newWorld(kind, true)
						t := vt.NewTrace(fmt.Sprintf("preempt-%s-%d-%d-%d-%d", kind, si, ai, bi, k), M{"k": kind})
						for _, op := range set {
							w.step(t, op)
						}
						ta := vt.Thread{Op: a, Run: func(h *vt.Hook) M { w.hook.Store(h); return w.exec(a, h) }}
						tb := vt.Thread{Op: b, Run: func(*vt.Hook) M { return w.exec(b, nil) }}
						reached, fin := vt.OnePreemption(t, ta, tb, k)
						w.hook.Store(nil)
						ok = fin && w.step(t, M{"o": "handle", "us": list(allUIDs[:3])})
						o.Put(t)
						if !reached {
							break
						}
					}
				}
			}
		}
	}
	// a call on many items against two calls one after the other
	three := []M{
		{"o": "add", "n": e("a", "s1"), "ups": false}, {"o": "add", "n": e("b", "s2"), "ups": false}, {"o": "add", "n": e("c", "s3"), "ups": false},
		{"o": "link", "f": "b", "t": "a", "a": "l=s"}, {"o": "link", "f": "b", "t": "c", "a": "l=s"},
	}
	get := func(u string) M { return M{"o": "get", "u": u} }
	all := func(us ...string) M { return M{"o": "bulkget", "us": list(us)} }
	add := func(us string, v string) M {
		ns := []any{}
		for _, u := range us {
			ns = append(ns, e(string(u), v+string(u)))
		}
		return M{"o": "bulkadd", "ns": ns, "ups": true}
	}
	lk := func(t, a string) M { return M{"o": "link", "f": "b", "t": t, "a": a} }
	unlk := func(t string) M { return M{"o": "unlink", "f": "b", "t": t} }
	hd := M{"o": "handle", "us": []any{"a", "b", "c"}}
	type schedule struct {
		set []M
		a   M
		bs  [][]M
	}
	many := []schedule{
		{three, M{"o": "bulkdel", "us": []any{"a", "b", "c"}}, [][]M{{get("a"), get("c")}, {get("c"), get("a")}, {all("c", "a")}, {add("cba", "x")}, {lk("c", "l=x"), get("a")}, {{"o": "del", "u": "c"}, get("a")}}},
		{nil, add("abc", "y"), [][]M{{get("a"), get("c")}, {get("c"), get("a")}, {{"o": "bulkdel", "us": []any{"c", "b", "a"}}}, {add("cba", "x")}, {{"o": "del", "u": "a"}, get("c")}}},
		{three, add("abc", "y"), [][]M{{get("a"), get("c")}, {{"o": "bulkdel", "us": []any{"c", "b", "a"}}}, {add("cba", "x")}, {{"o": "add", "n": e("c", "z"), "ups": true}, get("a")}}},
		{three, all("a", "b", "c"), [][]M{{add("cba", "x")}, {{"o": "del", "u": "c"}, {"o": "del", "u": "a"}}, {{"o": "add", "n": e("c", "z"), "ups": true}, {"o": "add", "n": e("a", "z"), "ups": true}}, {{"o": "bulkdel", "us": []any{"c", "a"}}}}},
		{three, M{"o": "bulklink", "f": "b", "us": []any{"a", "zz", "c"}, "a": "l=y"}, [][]M{{unlk("a"), unlk("c")}, {{"o": "del", "u": "c"}, get("a")}, {lk("c", "l=x"), lk("a", "l=x")}}},
		{three, M{"o": "bulklink", "f": "b", "us": []any{"a", "c"}, "a": "l=y"}, [][]M{{lk("c", "l=x"), lk("a", "l=x")}, {{"o": "bulkunlink", "f": "b", "us": []any{"c", "a"}}}, {unlk("c"), unlk("a")}, {{"o": "del", "u": "c"}, {"o": "del", "u": "b"}}}},
		{three, M{"o": "bulkunlink", "f": "b", "us": []any{"a", "c"}}, [][]M{{lk("c", "l=x"), lk("a", "l=x")}, {{"o": "bulklink", "f": "b", "us": []any{"c", "a"}, "a": "l=x"}}}},
	}
	// long calls, which may be tempted to give way
	for _, n := range []int{20, 70, 140} {
		xs := vt.Many(n)
		es, again, rev := []any{}, []any{}, []string{}
		for i, x := range xs {
			es, again = append(es, e(x, "s"+x)), append(again, e(xs[n-1-i], "y"+x))
			rev = append(rev, xs[n-1-i])
		}
		first, last := xs[0], xs[n-1]
		bk := func(o string, us []string) M { return M{"o": o, "us": list(us)} }
		ba := func(ups bool, ns []any) M { return M{"o": "bulkadd", "ns": ns, "ups": ups} }
		fl, lf := []M{get(first), get(last)}, []M{get(last), get(first)}
		set := []M{ba(false, es)}
		hub := M{"o": "bulklink", "f": first, "us": list(xs[1:]), "a": "l=s"}
		unhub := M{"o": "bulkunlink", "f": first, "us": list(xs[1:])}
		views := []M{{"o": "handle", "us": []any{first, xs[1], last}}}
		many = append(many, []schedule{
			{nil, ba(false, es), [][]M{fl, lf, {all(last, first)}, {{"o": "del", "u": first}, get(first)}, {bk("bulkdel", rev)}}},
			{set, ba(true, again), [][]M{fl, lf, {{"o": "del", "u": last}, get(first)}, {bk("bulkget", xs)}}},
			{set, bk("bulkdel", xs), [][]M{fl, lf, {ba(true, again)}, {{"o": "add", "n": e(first, "z"), "ups": true}, get(last)}}},
			{set, bk("bulkget", xs), [][]M{{ba(true, again)}, {{"o": "del", "u": last}, {"o": "del", "u": first}}, {{"o": "del", "u": first}, {"o": "del", "u": last}}}},
			{set, hub, [][]M{views, {{"o": "del", "u": last}, {"o": "del", "u": xs[1]}}, {{"o": "del", "u": first}}, {{"o": "unlink", "f": first, "t": xs[1]}, {"o": "unlink", "f": first, "t": last}}, {unhub}}},
			{append(set[:1:1], hub), unhub, [][]M{views, {{"o": "link", "f": first, "t": xs[1], "a": "l=x"}, {"o": "link", "f": first, "t": last, "a": "l=x"}}, {hub}}},
		}...)
	}
	for mi, m := range many {
		for bi, bs := range m.bs {
			for k := 1; k <= maxk && ok; k++ {
				kind := []string{"d", "u"}[(mi+bi+k)%2]
				w := newWorld(kind, true)
				t := vt.NewTrace(fmt.Sprintf("many-%d-%d-%d", mi, bi, k), M{"k": kind})
				for _, op := range m.set {
					w.step(t, op)
				}
				ta := vt.Thread{Op: m.a, Run: func(h *vt.Hook) M { w.hook.Store(h); return w.exec(m.a, h) }}
				var tbs []vt.Thread
				for _, b := range bs {
					tbs = append(tbs, vt.Thread{Op: b, Run: func(*vt.Hook) M { return w.exec(b, nil) }})
				}
				reached, fin := vt.Preempt(t, ta, tbs, k, 8)
				w.hook.Store(nil)
				end := hd
				if n := long(append(m.set[:len(m.set):len(m.set)], m.a)); n > 0 {
					xs := vt.Many(n)
					end = M{"o": "handle", "us": []any{xs[0], xs[1], xs[n/2], xs[n-1]}}
					ok = fin && w.step(t, M{"o": "bulkget", "us": list(xs)})
				} else {
					ok = fin
				}
				ok = ok && w.step(t, end)
				o.Put(t)
				if !reached {
					break
				}
			}
		}
	}
	for k := 0; k < vt.Env("RANDOM", 200) && ok; k++ {
		kind := []string{"d", "u"}[k%2]
		w := newWorld(kind, k%3 == 0)
		t := vt.NewTrace(fmt.Sprintf("conc%d", k), M{"k": kind})
		us := allUIDs[:2+k%2]
		g := &gen{r: vt.NewRng(seed*7777777 + uint64(k)), us: us, prop: "C16"}
		if k%12 == 5 {
			g.max = 60
		}
		for round := 0; round < 3 && ok; round++ {
			threads := make([][]vt.Thread, 3)
			for p := range threads {
				for j := 0; j < 3; j++ {
					op := g.op()
					threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M { return w.exec(op, h) }})
				}
			}
			if k%3 == 0 {
				w.hook.Store(vt.YieldHook())
			}
			ok = vt.Parallel(t, threads)
			w.hook.Store(nil)
			ok = ok && w.look(t, us)
		}
		o.Put(t)
	}
}

func hammer(o *vt.Out, seed uint64) {
	for k := 0; k < vt.Env("HAMMERS", 4); k++ {
		kind := []string{"d", "u"}[k%2]
		w := newWorld(kind, false)
		t := vt.NewTrace(fmt.Sprintf("hammer%d", k), M{"k": kind})
		us := allUIDs[:5]
		p := 0
		ok := vt.Hammer(t, seed+uint64(k)*131, vt.Env("HAMMER_OPS", 1500), func(r *vt.Rng) func() {
			p++
			g := &gen{r: r, us: us, prop: "C16", tag: fmt.Sprintf("t%d-", p)}
			return func() { w.exec(g.op(), vt.YieldHook()) }
		})
		if ok {
			ok = w.step(t, M{"o": "adopt", "us": list(us)})
		}
		if ok {
			ok = w.look(t, us)
		}
		o.Put(t)
		if !ok {
			return
		}
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc, hammer")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	switch *mode {
	case "seq":
		seq(o, seed, os.Getenv("PROP"), *scripts)
	case "conc":
		conc(o, seed)
	case "hammer":
		hammer(o, seed)
	}
	o.Close()
}
