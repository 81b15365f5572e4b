// graph drives the in-memory graph.
package main

import (
	"context"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	graphmem "github.com/milosgajdos/netscrape/pkg/graph/memory"

	"gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"

	"verif/gh"
	"verif/vt"
)

type M = vt.M

var known = map[string]error{
	"ErrNodeNotFound": graph.ErrNodeNotFound, "ErrDuplicateNode": graph.ErrDuplicateNode,
	"ErrInvalidNode": graph.ErrInvalidNode, "ErrEdgeNotExist": graph.ErrEdgeNotExist,
}

func errRes(err error) M { return M{"err": vt.ErrName(err, known)} }

// ---------------------------------------------------------------- entities

// ent is an entity; its UID is a scheduling point.
type ent struct {
	w  *world
	u  string
	ty string
	a  attrs.Attrs
}

func (e *ent) UID() uuid.UID      { return e.w.uid(e.u) }
func (e *ent) Type() string       { return e.ty }
func (e *ent) Attrs() attrs.Attrs { return e.a }

// dotent is an entity with a DOT ID.
type dotent struct {
	*ent
	dot string
}

func (e *dotent) DOTID() string     { return e.dot }
func (e *dotent) SetDOTID(d string) { e.dot = d }

// foreign is a node the graph does not accept.
type foreign struct{ *ent }

// full is what every in-memory graph offers.
type full interface {
	graphmem.Graph
	DOT() (string, error)
}

type world struct {
	mu   sync.Mutex
	g    map[string]full
	h    map[string]graph.Node
	hook atomic.Pointer[vt.Hook] // of the operation being scheduled
	n    atomic.Int64
	used map[int64]bool // node IDs handed out or used so far
}

func (w *world) point() { w.hook.Load().Point() }

// uid makes a UID; while an operation is being scheduled it is a scheduling point.
func (w *world) uid(s string) uuid.UID {
	if h := w.hook.Load(); h != nil {
		return &vt.HUID{S: s, H: h}
	}
	return vt.UID(s)
}

func newWorld(cfg M, hooked bool) *world {
	w := &world{g: map[string]full{}, h: map[string]graph.Node{}, used: map[int64]bool{}}
	opts := []graph.Option{graph.WithDOTID(vt.Str(cfg["dot"]))}
	var g full
	var err error
	switch {
	case hooked && cfg["k"] == "d":
		g, err = graphmem.NewWG(gh.Directed(w.point), opts...)
	case hooked:
		g, err = graphmem.NewWG(gh.Undirected(w.point), opts...)
	case cfg["k"] == "d":
		g, err = graphmem.NewWDG(opts...)
	default:
		g, err = graphmem.NewWUG(opts...)
	}
	vt.Must(err)
	w.g["g"] = g
	return w
}

// ---------------------------------------------------------------- views

func nview(n graph.Node) M {
	g, ok := n.(*graphmem.Node)
	if !ok || g == nil {
		return M{"u": "<nil>", "ty": "", "ea": "", "at": "", "dot": ""}
	}
	return M{"u": g.UID().String(), "ty": g.Type(), "ea": vt.AttrStr(g.Entity.Attrs()), "at": vt.AttrStr(g.Attrs()), "dot": g.DOTID()}
}

func nviews(ns []graph.Node) []any {
	out := []any{}
	for _, n := range ns {
		out = append(out, nview(n))
	}
	sortViews(out)
	return out
}

func eview(e graph.Edge) M {
	if e == nil || e == graph.Edge((*graphmem.Edge)(nil)) {
		return M{"id": "<nil>", "a": "", "w": "", "fn": nview(nil), "tn": nview(nil)}
	}
	f, err := e.FromNode()
	if err != nil {
		f = nil
	}
	t, err := e.ToNode()
	if err != nil {
		t = nil
	}
	return M{"id": e.UID().String(), "a": vt.AttrStr(e.Attrs()), "w": fmt.Sprint(e.Weight()), "fn": nview(f), "tn": nview(t)}
}

func eviews(es []graph.Edge) []any {
	out := []any{}
	for _, e := range es {
		out = append(out, eview(e))
	}
	sortViews(out)
	return out
}

func sortViews(out []any) {
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
}

func merge(a, b M) M {
	for k, v := range b {
		a[k] = v
	}
	return a
}

func (w *world) look(g full, u string) M {
	n, err := g.Node(vt.Ctx, w.uid(u))
	if err != nil {
		return errRes(err)
	}
	return M{"err": "ok", "n": nview(n)}
}

func (w *world) edge(g full, f, t string) M {
	e, err := g.Edge(vt.Ctx, w.uid(f), w.uid(t))
	if err != nil {
		return errRes(err)
	}
	return M{"err": "ok", "e": eview(e)}
}

func (w *world) from(g full, u string) M {
	ns, err := g.From(vt.Ctx, w.uid(u))
	return M{"err": vt.ErrName(err, known), "ns": nviews(ns)}
}

func lists(g full) M {
	ns, err := g.Nodes(vt.Ctx)
	if err != nil {
		return errRes(err)
	}
	es, err := g.Edges(vt.Ctx)
	if err != nil {
		return errRes(err)
	}
	return M{"err": "ok", "nodes": nviews(ns), "edges": eviews(es)}
}

func (w *world) obs(g full, us []string) M {
	res := lists(g)
	look, from, pair := []any{}, []any{}, []any{}
	for _, u := range us {
		look = append(look, w.look(g, u))
		from = append(from, w.from(g, u))
		row := []any{}
		for _, v := range us {
			row = append(row, w.edge(g, u, v))
		}
		pair = append(pair, row)
	}
	return merge(res, M{"look": look, "from": from, "pair": pair})
}

// ---------------------------------------------------------------- DOT text

func unquote(s string) string {
	if strings.HasPrefix(s, `"`) {
		if u, err := strconv.Unquote(s); err == nil {
			return u
		}
	}
	return s
}

func dotAttrs(as []*ast.Attr) string {
	m := map[string]string{}
	for _, a := range as {
		m[unquote(a.Key)] = unquote(a.Val)
	}
	return vt.MapStr(m)
}

func parseDOT(text string) M {
	f, err := dot.ParseString(text)
	if err != nil || len(f.Graphs) != 1 {
		return M{"err": "not DOT", "text": text}
	}
	g := f.Graphs[0]
	nodes, edges := []any{}, []any{}
	seen := map[string]bool{}
	for _, s := range g.Stmts {
		switch s := s.(type) {
		case *ast.NodeStmt:
			seen[unquote(s.Node.ID)] = true
			nodes = append(nodes, M{"dot": unquote(s.Node.ID), "at": dotAttrs(s.Attrs)})
		case *ast.AttrStmt, *ast.Attr:
			// defaults for the drawing, not part of the graph
		case *ast.EdgeStmt:
		default:
			return M{"err": fmt.Sprintf("unexpected %T", s), "text": text}
		}
	}
	for _, s := range g.Stmts {
		if s, ok := s.(*ast.EdgeStmt); ok {
			f, ok1 := s.From.(*ast.Node)
			t, ok2 := s.To.Vertex.(*ast.Node)
			if !ok1 || !ok2 || s.To.To != nil || s.To.Directed != g.Directed {
				return M{"err": "unexpected edge", "text": text}
			}
			for _, id := range []string{unquote(f.ID), unquote(t.ID)} {
				if !seen[id] {
					seen[id] = true
					nodes = append(nodes, M{"dot": id, "at": ""})
				}
			}
			edges = append(edges, M{"f": unquote(f.ID), "t": unquote(t.ID), "a": dotAttrs(s.Attrs)})
		}
	}
	return M{"err": "ok", "directed": g.Directed, "id": unquote(g.ID), "nodes": nodes, "edges": edges}
}

// ---------------------------------------------------------------- operations

// mkent makes an entity for node n; the second result tells whether it
// carries the DOT ID.
func (w *world) mkent(n M, hooked bool) (graph.Entity, bool) {
	e := &ent{w, vt.Str(n["u"]), vt.Str(n["ty"]), vt.Attrs(vt.Str(n["ea"]))}
	d := vt.Str(n["dot"])
	k := w.n.Add(1)
	switch {
	case k%3 == 0:
		return &dotent{e, d}, true
	case k%3 == 1 && !hooked:
		x, err := entity.New(e.ty, entity.WithUID(vt.UID(e.u)), entity.WithAttrs(e.a), entity.WithDOTID(d))
		vt.Must(err)
		return x, true
	}
	return e, d == e.u
}

func (w *world) node(h string) graph.Node {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.h[h]
}

func (w *world) graph(name any) full {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.g[vt.Str(name)]
}

func point(h *vt.Hook) []graph.Option {
	if h == nil {
		return nil
	}
	return []graph.Option{func(*graph.Options) { h.Point() }}
}

func (w *world) exec(op M, h *vt.Hook) M {
	g := w.graph(op["g"])
	f, t, u := vt.Str(op["f"]), vt.Str(op["t"]), vt.Str(op["u"])
	switch op["o"] {
	case "new":
		n := op["n"].(M)
		e, has := w.mkent(n, h != nil)
		opts := point(h)
		if a := vt.Str(n["at"]); a != "" {
			opts = append(opts, graph.WithAttrs(vt.Attrs(a)))
		}
		if !has || w.n.Load()%5 == 0 {
			opts = append(opts, graph.WithDOTID(vt.Str(n["dot"])))
		}
		var x graph.Node
		var err error
		if vt.Bool(op["own"]) {
			// not prepared by the graph: the caller chooses an ID that is not in use
			id := int64(0)
			for w.used[id] {
				id++
			}
			x, err = graphmem.NewNode(id, e, opts...)
		} else {
			x, err = g.NewNode(vt.Ctx, e, opts...)
		}
		if err != nil {
			return errRes(err)
		}
		w.mu.Lock()
		w.h[vt.Str(op["h"])] = x
		if mn, ok := x.(*graphmem.Node); ok {
			w.used[mn.ID()] = true
		}
		w.mu.Unlock()
		return M{"err": "ok", "n": nview(x)}
	case "add":
		opts := point(h)
		if vt.Bool(op["ups"]) {
			opts = append(opts, graph.WithUpsert())
		}
		return errRes(g.AddNode(vt.Ctx, w.node(vt.Str(op["h"])), opts...))
	case "addbad":
		return errRes(g.AddNode(vt.Ctx, &foreign{&ent{w, u, "t", vt.Attrs("")}}, point(h)...))
	case "remove":
		return errRes(g.RemoveNode(vt.Ctx, w.uid(u), point(h)...))
	case "node":
		return w.look(g, u)
	case "nodes":
		ns, err := g.Nodes(vt.Ctx)
		return M{"err": vt.ErrName(err, known), "ns": nviews(ns)}
	case "edge":
		return w.edge(g, f, t)
	case "edges":
		es, err := g.Edges(vt.Ctx)
		return M{"err": vt.ErrName(err, known), "es": eviews(es)}
	case "from":
		return w.from(g, u)
	case "link":
		opts := point(h)
		if a := vt.Str(op["a"]); a != "" {
			opts = append(opts, graph.WithAttrs(vt.Attrs(a)))
		}
		if ws := vt.Str(op["w"]); ws != "1" || w.n.Add(1)%4 == 0 {
			x, err := strconv.ParseFloat(ws, 64)
			vt.Must(err)
			opts = append(opts, graph.WithWeight(x))
		}
		if id := vt.Str(op["id"]); id != "" {
			opts = append(opts, graph.WithUID(vt.UID(id)))
		}
		e, err := g.Link(vt.Ctx, w.uid(f), w.uid(t), opts...)
		if err != nil {
			return errRes(err)
		}
		return M{"err": "ok", "e": eview(e)}
	case "unlink":
		return errRes(g.Unlink(vt.Ctx, w.uid(f), w.uid(t), point(h)...))
	case "eset":
		e, err := g.Edge(vt.Ctx, w.uid(f), w.uid(t))
		if err != nil {
			return M{"err": "none"}
		}
		for k, v := range vt.AttrMap(vt.Str(op["a"])) {
			if err := e.Attrs().Set(vt.Ctx, k, v); err != nil {
				return errRes(err)
			}
		}
		return M{"err": "ok"}
	case "setdot":
		n := w.node(vt.Str(op["h"]))
		n.(*graphmem.Node).SetDOTID(vt.Str(op["dot"]))
		return M{"err": "ok"}
	case "sub":
		s, err := g.SubGraph(context.Background(), w.uid(u), vt.Int(op["d"]), point(h)...)
		if err != nil {
			return errRes(err)
		}
		sf, ok := s.(full)
		if !ok {
			return M{"err": "limited subgraph"}
		}
		w.mu.Lock()
		w.g[vt.Str(op["as"])] = sf
		w.mu.Unlock()
		return lists(sf)
	case "obs", "adopt":
		return w.obs(g, vt.Strs(op["us"]))
	case "dot":
		text, err := g.DOT()
		if err != nil {
			return errRes(err)
		}
		return parseDOT(text)
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil) })) })
}

func list(us []string) []any {
	out := []any{}
	for _, u := range us {
		out = append(out, u)
	}
	return out
}

// ---------------------------------------------------------------- histories

type gen struct {
	r    *vt.Rng
	us   []string
	prop string
	n    int
	hs   []string // prepared handles of graph "g"
	subs []string
	shs  map[string][]string // prepared handles of the subgraphs
	deep int                 // bound of subgraph depths
	tag  string              // makes handles, UIDs and attributes of threads differ
}

func (g *gen) u() string { return vt.Pick(g.r, g.us) }

func (g *gen) newNode() M {
	g.n++
	u := g.u()
	id := fmt.Sprintf("%s%d", g.tag, g.n)
	n := M{"u": u, "ty": "t" + id, "ea": "e=" + id, "at": "", "dot": u}
	if g.r.P(60) {
		n["at"] = "n=" + id
	}
	if g.prop == "C13" {
		n["dot"] = vt.Pick(g.r, []string{"", "node ", "graph", "a->b ", "x\"q", "ü ", "-", "1.", "{;}"}) + id
		n["at"] = vt.Pick(g.r, []string{"", "color=red", "label=a b", "label=x\"y;shape=box", "node=graph", "weight=", "k\\l=1;z=2"})
	} else if g.r.P(50) {
		n["dot"] = "dot" + id
	}
	return n
}

func (g *gen) link(gr string) M {
	g.n++
	id := fmt.Sprintf("%s%d", g.tag, g.n)
	op := M{"o": "link", "g": gr, "f": g.u(), "t": g.u(), "id": "", "a": "", "w": "1"}
	if g.r.P(70) {
		op["a"] = "l=" + id
	}
	if g.prop == "C13" {
		op["a"] = vt.Pick(g.r, []string{"", "color=blue", "label=a b;style=dashed", "a=\"", "edge=1"})
	}
	if g.r.P(50) {
		op["w"] = vt.Pick(g.r, []string{"0", "2.5", "-1", "100", "0.001"})
	}
	if g.r.P(40) {
		op["id"] = "e" + id
	}
	return op
}

// name of a graph to work on
func (g *gen) gr() string {
	if len(g.subs) > 0 && g.r.P(50) {
		return vt.Pick(g.r, g.subs)
	}
	return "g"
}

var kinds = map[string][]string{
	"C09": {"new", "new", "new", "add", "add", "add", "add", "add", "remove", "link", "link", "node", "nodes", "from", "addbad", "addnew"},
	"C10": {"addnew", "addnew", "link", "link", "link", "link", "link", "unlink", "remove", "edge", "edges", "from"},
	"C11": {"addnew", "link", "link", "link", "link", "unlink", "remove", "sub", "sub", "eset", "eset"},
	"C13": {"addnew", "addnew", "addnew", "link", "link", "link", "unlink", "remove", "dot", "dot", "setdot"},
	"C12": {"new", "add", "addnew", "addnew", "link", "link", "link", "unlink", "remove", "remove", "node", "nodes", "edge", "edges", "from", "sub", "dot"},
}

// ops returns the next operations of a history.
func (g *gen) ops() []M {
	gr := "g"
	if g.prop == "C11" {
		gr = g.gr()
	}
	switch k := vt.Pick(g.r, kinds[g.prop]); k {
	case "new", "addnew":
		g.n++
		h := fmt.Sprintf("h%s%d", g.tag, g.n)
		op := M{"o": "new", "g": gr, "h": h, "n": g.newNode()}
		if g.tag == "" && gr == "g" && g.r.P(15) {
			// a node with an ID chosen by the caller is added at once and never again:
			// its ID is only known to be unused now
			op["own"] = true
			return []M{op, {"o": "add", "g": gr, "h": h, "ups": true}}
		}
		if gr == "g" {
			g.hs = append(g.hs, h)
		} else {
			g.shs[gr] = append(g.shs[gr], h)
		}
		if k == "new" {
			return []M{op}
		}
		return []M{op, {"o": "add", "g": gr, "h": h, "ups": g.r.P(40)}}
	case "add", "setdot":
		hs := g.hs
		if gr != "g" {
			hs = g.shs[gr]
		}
		if len(hs) == 0 {
			return nil
		}
		if k == "setdot" {
			g.n++
			return []M{{"o": k, "h": vt.Pick(g.r, hs), "dot": fmt.Sprintf("set %d", g.n)}}
		}
		return []M{{"o": "add", "g": gr, "h": vt.Pick(g.r, hs), "ups": g.r.P(40)}}
	case "addbad", "remove", "node", "from":
		return []M{{"o": k, "g": gr, "u": g.u()}}
	case "nodes", "edges", "dot":
		return []M{{"o": k, "g": gr}}
	case "edge", "unlink":
		return []M{{"o": k, "g": gr, "f": g.u(), "t": g.u()}}
	case "link":
		return []M{g.link(gr)}
	case "eset":
		g.n++
		return []M{{"o": k, "g": gr, "f": g.u(), "t": g.u(), "a": fmt.Sprintf("l=set%d", g.n)}}
	case "sub":
		g.n++
		as := fmt.Sprintf("s%s%d", g.tag, g.n)
		op := M{"o": "sub", "g": gr, "u": g.u(), "d": g.r.N(max(g.deep, 5)), "as": as}
		if g.prop == "C11" && len(g.subs) < 4 {
			op["as"] = as
			g.subs = append(g.subs, as)
		} else if len(g.subs) > 0 && g.prop == "C11" {
			return nil
		}
		return []M{op}
	}
	return nil
}

// run executes operations; an operation on a subgraph that was never made
// (its root was absent) is left out.
func (w *world) run(t *vt.Trace, ops []M) bool {
	for _, op := range ops {
		if g, ok := op["g"]; ok && w.graph(g) == nil {
			continue
		}
		if op["o"] == "add" || op["o"] == "setdot" {
			if w.node(vt.Str(op["h"])) == nil {
				continue
			}
		}
		if !w.step(t, op) {
			return false
		}
	}
	return true
}

// views looks at every graph.
func (w *world) views(t *vt.Trace, prop string, us []string) bool {
	names := []string{}
	for k := range w.g {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		op := M{"o": "obs", "g": k, "us": list(us)}
		if prop == "C13" {
			op = M{"o": "dot", "g": k}
		}
		if !w.step(t, op) {
			return false
		}
	}
	return true
}

var allUIDs = []string{"a", "b", "c", "d", "e", "f"}

func seq(o *vt.Out, seed uint64, prop, scripts string) {
	ok := true
	for si, s := range vt.ReadScripts(scripts) {
		cfg := s[0]
		w := newWorld(cfg, false)
		t := vt.NewTrace(fmt.Sprintf("script%d", si), M{"k": cfg["k"], "dot": cfg["dot"]})
		ok = ok && w.run(t, s[1:]) && w.views(t, prop, allUIDs[:3])
		o.Put(t)
		if !ok {
			return
		}
	}
	ok = ok && huge(o, seed, prop)
	n, length := vt.Env("RANDOM", 300), vt.Env("LENGTH", 30)
	for k := 0; k < n+vt.Env("LARGE", 4) && ok; k++ {
		cfg := M{"k": []string{"d", "u"}[k%2], "dot": []string{"G", "my graph"}[k/2%2]}
		w := newWorld(cfg, false)
		t := vt.NewTrace(fmt.Sprintf("random%d", k), cfg)
		us := vt.Names(k / 8)[:3+k/2%4]
		seen, every, deep := us, 7, 5
		if k >= n { // a large graph
			us = vt.Many(12 + k%3*20)
			seen, every, deep, length = us[:6], 40, 20, 200
		}
		g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), us: us, prop: prop, shs: map[string][]string{}, deep: deep}
		if prop == "C11" || k >= n || g.r.P(50) {
			// start from a populated graph
			for j, u := range us {
				h := fmt.Sprintf("p%d", j)
				nd := g.newNode()
				nd["u"] = u
				ok = ok && w.run(t, []M{{"o": "new", "g": "g", "h": h, "n": nd}, {"o": "add", "g": "g", "h": h, "ups": false}})
				g.hs = append(g.hs, h)
			}
			for j := 0; j < len(us); j++ {
				l := g.link("g")
				if k >= n && j > 0 && j%12 != 0 { // long paths
					l["f"], l["t"] = us[j-1], us[j]
				}
				ok = ok && w.run(t, []M{l})
			}
		}
		for j := 0; j < length && ok; j++ {
			ok = w.run(t, g.ops())
			if ok && (j%every == every-1 || k < n && g.r.P(10)) {
				ok = w.views(t, prop, seen)
			}
		}
		if ok {
			ok = w.views(t, prop, seen)
		}
		o.Put(t)
	}
}

// huge is a graph with more nodes, links and steps than a batch is likely to hold.
func huge(o *vt.Out, seed uint64, prop string) bool {
	for k := 0; k < vt.Env("HUGE", 2); k++ {
		cfg := M{"k": []string{"d", "u"}[k%2], "dot": "G"}
		w := newWorld(cfg, false)
		t := vt.NewTrace(fmt.Sprintf("huge%d", k), cfg)
		g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), prop: prop, shs: map[string][]string{}}
		n := 130 + g.r.N(20)
		g.us = vt.Many(n)
		us, ok := g.us, true
		look := func() { ok = ok && w.views(t, prop, []string{us[0], us[1], us[n/2], us[n-1]}) }
		for j, u := range us {
			h := fmt.Sprintf("p%d", j)
			nd := g.newNode()
			nd["u"] = u
			ok = ok && w.run(t, []M{{"o": "new", "g": "g", "h": h, "n": nd}, {"o": "add", "g": "g", "h": h, "ups": false}})
			g.hs = append(g.hs, h)
		}
		look()
		link := func(f, to string) {
			l := g.link("g")
			l["f"], l["t"] = f, to
			ok = ok && w.run(t, []M{l})
		}
		for j := 1; j < n; j++ {
			link(us[j-1], us[j])
		}
		look()
		if prop == "C11" {
			for _, d := range []int{n - 2, n, 33, 17} {
				ok = ok && w.run(t, []M{{"o": "sub", "g": "g", "u": us[0], "d": d, "as": fmt.Sprintf("s%d", d)}})
			}
		}
		for j := n - 1; j > 1; j-- {
			link(us[0], us[j])
		}
		look()
		if prop == "C11" {
			ok = ok && w.run(t, []M{{"o": "sub", "g": "g", "u": us[0], "d": 1, "as": "s1"}})
		}
		for j := 0; j < 20; j++ {
			ok = ok && w.run(t, g.ops())
		}
		ok = ok && w.run(t, []M{{"o": "remove", "g": "g", "u": us[n/2]}, {"o": "remove", "g": "g", "u": us[0]}})
		look()
		o.Put(t)
		if !ok {
			return false
		}
	}
	return true
}

func conc(o *vt.Out, seed uint64) {
	node := func(u, v string) M { return M{"u": u, "ty": "t" + v, "ea": "e=" + v, "at": "n=" + v, "dot": u + v} }
	var prep []M
	for _, h := range []string{"s1:a", "s2:b", "x1:a", "x2:c", "x3:c", "x4:b"} {
		prep = append(prep, M{"o": "new", "g": "g", "h": h[:2], "n": node(h[3:], h[:2])})
	}
	lk := func(f, t, id string) M {
		return M{"o": "link", "g": "g", "f": f, "t": t, "id": id, "a": "l=" + id, "w": "2"}
	}
	populated := append(append([]M{}, prep...), M{"o": "add", "g": "g", "h": "s1", "ups": false},
		M{"o": "add", "g": "g", "h": "s2", "ups": false}, lk("a", "b", "e0"))
	ops := [][]M{
		{{"o": "add", "g": "g", "h": "x1", "ups": true}},
		{{"o": "add", "g": "g", "h": "x2", "ups": false}},
		{{"o": "add", "g": "g", "h": "x3", "ups": false}},
		{{"o": "add", "g": "g", "h": "x4", "ups": true}},
		{{"o": "remove", "g": "g", "u": "a"}}, {{"o": "remove", "g": "g", "u": "b"}},
		{lk("a", "b", "e1")}, {lk("b", "a", "e2")}, {lk("b", "a", "")},
		{{"o": "unlink", "g": "g", "f": "a", "t": "b"}},
		{{"o": "node", "g": "g", "u": "a"}}, {{"o": "nodes", "g": "g"}}, {{"o": "edge", "g": "g", "f": "a", "t": "b"}},
		{{"o": "edges", "g": "g"}}, {{"o": "from", "g": "g", "u": "a"}},
		{{"o": "sub", "g": "g", "u": "a", "d": 2, "as": "s"}}, {{"o": "dot", "g": "g"}},
		{{"o": "new", "g": "g", "h": "N", "n": node("d", "N")}},
	}
	ok := true
	maxk := vt.Env("MAXK", 12)
	for _, kind := range []string{"d", "u"} {
		for si, set := range [][]M{populated, prep} {
			for ai, a := range ops {
				for bi, b := range ops {
					for k := 1; k <= maxk && ok; k++ {
						cfg := M{"k": kind, "dot": "G"}
						w := newWorld(cfg, true)
						t := vt.NewTrace(fmt.Sprintf("preempt-%s-%d-%d-%d-%d", kind, si, ai, bi, k), cfg)
						w.run(t, set)
						if b[0]["o"] == "new" {
							b = []M{{"o": "new", "g": "g", "h": "M", "n": node("e", "M")}}
						}
						reached, fin := preempt(w, t, a[0], b, k, 0)
						for _, h := range []string{"N", "M"} {
							if fin && w.node(h) != nil {
								fin = w.step(t, M{"o": "add", "g": "g", "h": h, "ups": false})
							}
						}
						ok = fin
						if fin {
							ok = w.step(t, M{"o": "obs", "g": "g", "us": list(allUIDs[:5])})
						}
						o.Put(t)
						if !reached {
							break
						}
					}
				}
			}
		}
	}
	// a call that looks at or changes many things against two calls one after the other
	full := append(append([]M{}, populated...), M{"o": "add", "g": "g", "h": "x2", "ups": false}, lk("b", "c", "e8"), lk("c", "a", "e9"))
	op := func(o string, kv ...string) M {
		m := M{"o": o, "g": "g"}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i]] = kv[i+1]
		}
		return m
	}
	up := func(h string) M { return M{"o": "add", "g": "g", "h": h, "ups": true} }
	writes := [][]M{
		{op("unlink", "f", "c", "t", "a"), op("unlink", "f", "a", "t", "b")}, {op("unlink", "f", "a", "t", "b"), op("unlink", "f", "c", "t", "a")},
		{op("remove", "u", "a"), up("s1")}, {op("remove", "u", "c"), op("remove", "u", "b")},
		{up("x4"), up("x1")}, {up("x1"), up("x3")}, {lk("c", "a", "e3"), lk("a", "b", "e4")}, {lk("b", "a", "e5"), op("remove", "u", "c")},
	}
	reads := [][]M{
		{op("nodes"), op("edges")}, {op("edges"), op("nodes")}, {op("edge", "f", "a", "t", "b"), op("node", "u", "a")}, {op("node", "u", "a"), op("edge", "f", "a", "t", "b")},
		{op("from", "u", "c"), op("from", "u", "a")}, {op("edge", "f", "c", "t", "a"), op("edge", "f", "a", "t", "b")},
	}
	many := []struct {
		a  M
		bs [][]M
	}{
		{op("nodes"), writes}, {op("edges"), writes}, {op("from", "u", "a"), writes}, {op("dot"), writes},
		{M{"o": "sub", "g": "g", "u": "a", "d": 2, "as": "s"}, writes},
		{op("remove", "u", "a"), append(reads, []M{up("x1"), lk("a", "b", "e6")}, []M{lk("a", "c", "e7"), op("edges")}, []M{lk("b", "a", "e7"), op("nodes")})},
		{lk("b", "a", "e1"), append(reads, []M{op("remove", "u", "a"), up("x1")}, []M{op("unlink", "f", "b", "t", "a"), lk("b", "a", "e7")}, []M{op("remove", "u", "b"), op("nodes")})},
		{up("x1"), append(reads, []M{op("remove", "u", "a"), op("nodes")}, []M{up("s1"), op("node", "u", "a")}, []M{op("remove", "u", "a"), up("s1")})},
	}
	for mi, m := range many {
		for bi, bs := range m.bs {
			for k := 1; k <= maxk && ok; k++ {
				cfg := M{"k": []string{"d", "u"}[(mi+bi+k)%2], "dot": "G"}
				w := newWorld(cfg, true)
				t := vt.NewTrace(fmt.Sprintf("many-%d-%d-%d", mi, bi, k), cfg)
				w.run(t, full)
				reached, fin := preempt(w, t, m.a, bs, k, 8)
				ok = fin && w.step(t, M{"o": "obs", "g": "g", "us": list(allUIDs[:5])})
				o.Put(t)
				if !reached {
					break
				}
			}
		}
	}
	// a large graph looked at while it changes
	for _, n := range []int{20, 70} {
		xs := vt.Many(n)
		first, last := xs[0], xs[n-1]
		var set []M
		for i, u := range xs {
			h := fmt.Sprintf("n%d", i)
			set = append(set, M{"o": "new", "g": "g", "h": h, "n": node(u, h)}, M{"o": "add", "g": "g", "h": h, "ups": false})
		}
		for i := 1; i < n; i++ {
			set = append(set, lk(first, xs[i], ""), lk(xs[i], xs[(i+1)%n], ""))
		}
		set = append(set, M{"o": "new", "g": "g", "h": "y0", "n": node(first, "y0")}, M{"o": "new", "g": "g", "h": "yn", "n": node(last, "yn")})
		rm := func(u string) M { return op("remove", "u", u) }
		cut := func(u string) M { return op("unlink", "f", first, "t", u) }
		writes := [][]M{{rm(xs[1]), rm(last)}, {rm(last), rm(xs[1])}, {cut(xs[1]), cut(last)}, {cut(last), cut(xs[1])}, {up("y0"), up("yn")}, {up("yn"), up("y0")},
			{lk(first, last, "e1"), lk(first, xs[1], "e2")}, {lk(first, xs[1], "e2"), lk(first, last, "e1")}}
		for mi, m := range []struct {
			a  M
			bs [][]M
		}{
			{op("nodes"), writes}, {op("edges"), writes}, {op("from", "u", first), writes}, {op("dot"), writes[:4]},
			{M{"o": "sub", "g": "g", "u": first, "d": 2, "as": "s"}, writes},
			{rm(first), [][]M{{op("edge", "f", first, "t", last), op("edge", "f", first, "t", xs[1])}, {op("edge", "f", first, "t", xs[1]), op("edge", "f", first, "t", last)}, {op("from", "u", first)},
				{op("edges")}, {op("nodes")}, {rm(last)}, {up("y0"), lk(first, last, "e3")}}},
		} {
			for bi, bs := range m.bs {
				for _, k := range []int{1, 2, 3, 5} {
					if n > 50 && (k == 5 || mi+bi+k > 6) || !ok {
						continue
					}
					cfg := M{"k": []string{"d", "u"}[(mi+bi+k)%2], "dot": "G"}
					w := newWorld(cfg, true)
					t := vt.NewTrace(fmt.Sprintf("large-%d-%d-%d-%d", n, mi, bi, k), cfg)
					w.run(t, set)
					reached, fin := preempt(w, t, m.a, bs, k, 8)
					ok = fin && w.step(t, M{"o": "obs", "g": "g", "us": list([]string{first, xs[1], last})})
					o.Put(t)
					if !reached {
						break
					}
				}
			}
		}
	}
	n := vt.Env("RANDOM", 200)
	for k := 0; k < n && ok; k++ {
		cfg := M{"k": []string{"d", "u"}[k%2], "dot": "G"}
		w := newWorld(cfg, k%3 == 0)
		t := vt.NewTrace(fmt.Sprintf("conc%d", k), cfg)
		us := allUIDs[:2+k%2]
		gens := make([]*gen, 3)
		for p := range gens {
			gens[p] = &gen{r: vt.NewRng(seed*7777777 + uint64(k)*10 + uint64(p)), us: us, prop: "C12", tag: string(rune('x' + p)), shs: map[string][]string{}}
		}
		for round := 0; round < 3 && ok; round++ {
			threads := make([][]vt.Thread, 3)
			for p := range threads {
				for len(threads[p]) < 3 {
					for _, op := range gens[p].ops() {
						if op["o"] == "new" {
							op["n"] = renamed(op["n"].(M))
						}
						threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M { return w.exec(op, h) }})
					}
				}
			}
			if k%3 == 0 {
				w.hook.Store(vt.YieldHook())
			}
			ok = vt.Parallel(t, threads)
			w.hook.Store(nil)
			if ok {
				ok = w.step(t, M{"o": "obs", "g": "g", "us": list(us)})
			}
		}
		o.Put(t)
	}
}

// renamed gives a node a DOT ID no other node has.
func renamed(n M) M { n["dot"] = vt.Str(n["ty"]) + vt.Str(n["u"]); return n }

// preempt runs a, pauses it at its k-th scheduling point, and runs bs.
func preempt(w *world, t *vt.Trace, a M, bs []M, k, drags int) (bool, bool) {
	th := func(op M, first bool) vt.Thread {
		return vt.Thread{Op: op, Run: func(h *vt.Hook) M {
			if first {
				w.hook.Store(h)
			}
			return w.exec(op, nil)
		}}
	}
	var tbs []vt.Thread
	for _, b := range bs {
		tbs = append(tbs, th(b, false))
	}
	r, f := vt.Preempt(t, th(a, true), tbs, k, drags)
	w.hook.Store(nil)
	return r, f
}

func hammer(o *vt.Out, seed uint64) {
	for k := 0; k < vt.Env("HAMMERS", 4); k++ {
		cfg := M{"k": []string{"d", "u"}[k%2], "dot": "G"}
		w := newWorld(cfg, false)
		t := vt.NewTrace(fmt.Sprintf("hammer%d", k), cfg)
		us := allUIDs[:5]
		p := 0
		ok := vt.Hammer(t, seed+uint64(k)*131, vt.Env("HAMMER_OPS", 1500), func(r *vt.Rng) func() {
			p++
			g := &gen{r: r, us: us, prop: "C12", tag: fmt.Sprintf("t%d-", p), shs: map[string][]string{}}
			return func() {
				for _, op := range g.ops() {
					if op["o"] == "new" {
						op["n"] = renamed(op["n"].(M))
					}
					w.exec(op, vt.YieldHook())
				}
				if len(g.hs) > 50 {
					g.hs = g.hs[40:]
				}
			}
		})
		if ok {
			ok = w.step(t, M{"o": "adopt", "g": "g", "us": list(us)})
		}
		o.Put(t)
		if !ok {
			return
		}
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc, hammer")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	switch *mode {
	case "seq":
		seq(o, seed, os.Getenv("PROP"), *scripts)
	case "conc":
		conc(o, seed)
	case "hammer":
		hammer(o, seed)
	}
	o.Close()
}
