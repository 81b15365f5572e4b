// plan drives the scrape plan.
package main

import (
	"flag"
	"fmt"
	"sort"

	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	"github.com/milosgajdos/netscrape/pkg/plan/simple"

	"verif/vt"
)

type M = vt.M

// hres is a resource whose UID is a scheduling point.
type hres struct {
	u, g, v, k, n string
	h             *vt.Hook
}

func (r *hres) UID() uuid.UID   { r.h.Point(); return &vt.HUID{S: r.u, H: r.h} }
func (r *hres) Group() string   { return r.g }
func (r *hres) Version() string { return r.v }
func (r *hres) Kind() string    { return r.k }
func (r *hres) Name() string    { return r.n }

type held struct {
	rs   []plan.Resource
	proj string
}

type world struct {
	p    *simple.Simple
	held []held
}

func newWorld() *world {
	p, err := simple.NewSimple()
	vt.Must(err)
	return &world{p: p}
}

func proj(rs []plan.Resource) []any {
	out := []any{}
	for _, r := range rs {
		if r == nil {
			out = append(out, M{"u": "<nil>", "g": "", "v": "", "k": "", "n": ""})
			continue
		}
		n := "<none>"
		if x, ok := r.(interface{ Name() string }); ok {
			n = x.Name()
		}
		out = append(out, M{"u": r.UID().String(), "g": r.Group(), "v": r.Version(), "k": r.Kind(), "n": n})
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func uid(s string, h *vt.Hook) uuid.UID {
	if h != nil {
		return &vt.HUID{S: s, H: h}
	}
	return vt.UID(s)
}

var known = map[string]error{"ErrResourceNotFound": plan.ErrResourceNotFound}

func errRes(err error) M { return M{"err": vt.ErrName(err, known)} }

func opts(h *vt.Hook) []plan.Option {
	if h == nil {
		return nil
	}
	return []plan.Option{func(*plan.Options) { h.Point() }}
}

func (w *world) get(u string, h *vt.Hook) M {
	r, err := w.p.Get(vt.Ctx, uid(u, h), opts(h)...)
	if err != nil {
		l := []any{}
		if r != nil {
			l = proj([]plan.Resource{r})
		}
		return M{"err": vt.ErrName(err, known), "r": l}
	}
	return M{"err": "ok", "r": proj([]plan.Resource{r})}
}

func (w *world) exec(op M, h *vt.Hook) M {
	switch op["o"] {
	case "add":
		x := op["r"].(M)
		u, g, v, k, n := vt.Str(x["u"]), vt.Str(x["g"]), vt.Str(x["v"]), vt.Str(x["k"]), vt.Str(x["n"])
		if h != nil {
			return errRes(w.p.Add(vt.Ctx, &hres{u, g, v, k, n, h}, opts(h)...))
		}
		r, err := entity.NewResource("t", n, g, v, k, false, entity.WithUID(vt.UID(u)))
		vt.Must(err)
		return errRes(w.p.Add(vt.Ctx, r))
	case "get":
		return w.get(vt.Str(op["u"]), h)
	case "del":
		return errRes(w.p.Delete(vt.Ctx, uid(vt.Str(op["u"]), h), opts(h)...))
	case "getall":
		rs, err := w.p.GetAll(vt.Ctx, opts(h)...)
		if err != nil {
			return errRes(err)
		}
		if h == nil {
			w.held = append(w.held, held{rs, fmt.Sprint(proj(rs))})
		}
		return M{"err": "ok", "rs": proj(rs)}
	case "held":
		same := true
		for _, x := range w.held {
			same = same && fmt.Sprint(proj(x.rs)) == x.proj
		}
		return M{"err": "ok", "same": same}
	case "adopt":
		res := w.exec(M{"o": "getall"}, nil)
		gets := []any{}
		for _, u := range vt.Strs(op["us"]) {
			gets = append(gets, w.get(u, nil)["r"])
		}
		res["gets"] = gets
		return res
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil) })) })
}

type gen struct {
	r  *vt.Rng
	us []string
	n  int
}

func (g *gen) op() M {
	u := vt.Pick(g.r, g.us)
	switch g.r.N(10) {
	case 0, 1, 2, 3:
		g.n++
		few := func(s string) string { return vt.Pick(g.r, []string{"", s, s, s + "1", "V1"}) }
		return M{"o": "add", "r": M{"u": u, "g": few("g"), "v": few("v"), "k": few("k"), "n": fmt.Sprintf("n%d", g.n)}}
	case 4, 5:
		return M{"o": "del", "u": u}
	case 6, 7:
		return M{"o": "get", "u": u}
	default:
		return M{"o": "getall"}
	}
}

func list(us []string) []any {
	out := []any{}
	for _, u := range us {
		out = append(out, u)
	}
	return out
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc, hammer")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	us := []string{"a", "b", "c", "d", "e"}
	finish := func(w *world, t *vt.Trace, us []string) bool {
		for _, u := range us {
			if !w.step(t, M{"o": "get", "u": u}) {
				return false
			}
		}
		return w.step(t, M{"o": "getall"})
	}
	ok := true
	switch *mode {
	case "seq":
		for k, s := range vt.ReadScripts(*scripts) {
			t := vt.NewTrace(fmt.Sprintf("script%d", k), nil)
			w := newWorld()
			for _, op := range s {
				if ok = ok && w.step(t, op); !ok {
					break
				}
			}
			ok = ok && finish(w, t, us[:4])
			o.Put(t)
			if !ok {
				break
			}
		}
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			t := vt.NewTrace(fmt.Sprintf("random%d", k), nil)
			w := newWorld()
			us := vt.Names(k / 5)[:5]
			g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), us: us[:1+k%5]}
			length := 30
			if k%100 == 99 { // many resources
				us = vt.Many(20 + k%3*60)
				g.us, length = us, 300
			}
			for j := 0; j < length && ok; j++ {
				ok = w.step(t, g.op())
			}
			ok = ok && finish(w, t, us) && w.step(t, M{"o": "held"})
			o.Put(t)
		}
	case "conc":
		r := func(u, k string) M { return M{"u": u, "g": "g", "v": "v", "k": "k", "n": k} }
		ops := []M{
			{"o": "add", "r": r("a", "x1")}, {"o": "add", "r": r("b", "x2")}, {"o": "del", "u": "a"}, {"o": "del", "u": "b"},
			{"o": "get", "u": "a"}, {"o": "get", "u": "b"}, {"o": "getall"},
		}
		for si := 0; si < 2; si++ {
			for ai, a := range ops {
				for bi, b := range ops {
					for k := 1; k <= 8 && ok; k++ {
						w := newWorld()
						t := vt.NewTrace(fmt.Sprintf("preempt-%d-%d-%d-%d", si, ai, bi, k), nil)
						if si == 0 {
							w.step(t, M{"o": "add", "r": r("a", "s")})
						}
						th := func(op M) vt.Thread {
							return vt.Thread{Op: op, Run: func(h *vt.Hook) M {
								if h == nil {
									h = vt.NewHook(0)
								}
								return w.exec(op, h)
							}}
						}
						reached, fin := vt.OnePreemption(t, th(a), th(b), k)
						ok = fin && finish(w, t, us[:4])
						o.Put(t)
						if !reached {
							break
						}
					}
				}
			}
		}
		// a plan of many resources looked at while it changes
		for _, n := range []int{3, 20, 70, 140} {
			xs := vt.Many(n)
			first, last := xs[0], xs[n-1]
			del := func(u string) M { return M{"o": "del", "u": u} }
			add := func(u, k string) M { return M{"o": "add", "r": r(u, k)} }
			get := func(u string) M { return M{"o": "get", "u": u} }
			for mi, m := range []struct {
				a  M
				bs [][]M
			}{
				{M{"o": "getall"}, [][]M{{del(first), del(last)}, {del(last), del(first)}, {add(first, "x"), add(last, "x")}, {add(last, "x"), add(first, "x")}, {add("new", "x"), del(first)}, {del(first), add("new", "x")}}},
				{add(last, "y"), [][]M{{del(last), get(first)}, {get(last), add(last, "x")}, {{"o": "getall"}}}},
				{del(last), [][]M{{add(last, "x"), get(last)}, {del(first), get(last)}, {{"o": "getall"}}}},
			} {
				for bi, bs := range m.bs {
					for k := 1; k <= 4 && ok; k++ {
						w := newWorld()
						t := vt.NewTrace(fmt.Sprintf("many-%d-%d-%d-%d", n, mi, bi, k), nil)
						for _, u := range xs {
							ok = ok && w.step(t, add(u, "s"))
						}
						var tbs []vt.Thread
						for _, b := range bs {
							tbs = append(tbs, vt.Thread{Op: b, Run: func(*vt.Hook) M { return w.exec(b, vt.NewHook(0)) }})
						}
						reached, fin := vt.Preempt(t, vt.Thread{Op: m.a, Run: func(h *vt.Hook) M { return w.exec(m.a, h) }}, tbs, k, 8)
						ok = ok && fin && finish(w, t, []string{first, last, "new"})
						o.Put(t)
						if !reached {
							break
						}
					}
				}
			}
		}
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			w := newWorld()
			g := &gen{r: vt.NewRng(seed*7777777 + uint64(k)), us: us[:1+k%3]}
			t := vt.NewTrace(fmt.Sprintf("conc%d", k), nil)
			for round := 0; round < 3 && ok; round++ {
				threads := make([][]vt.Thread, 3)
				for p := range threads {
					for j := 0; j < 3; j++ {
						op := g.op()
						threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M { return w.exec(op, h) }})
					}
				}
				ok = vt.Parallel(t, threads) && finish(w, t, us[:4])
			}
			o.Put(t)
		}
	case "hammer":
		for k := 0; k < vt.Env("HAMMERS", 3) && ok; k++ {
			w := newWorld()
			t := vt.NewTrace(fmt.Sprintf("hammer%d", k), nil)
			ok = vt.Hammer(t, seed+uint64(k)*131, vt.Env("HAMMER_OPS", 3000), func(r *vt.Rng) func() {
				g := &gen{r: r, us: us}
				return func() { w.exec(g.op(), vt.YieldHook()) }
			}) && w.step(t, M{"o": "adopt", "us": list(us)})
			o.Put(t)
		}
	}
	o.Close()
}
