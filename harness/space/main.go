// space drives attributes, entities, resources, objects, links, nodes, edges
// and their marshaling.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/uuid"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	jsonmar "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"

	"verif/vt"
)

type M = vt.M

var ctx = context.Background()

var errAttrs = errors.New("attributes cannot be read")

var known = map[string]error{"ErrUnsuportedType": marshal.ErrUnsuportedType, "errAttrs": errAttrs}

func errName(err error) string { return vt.ErrName(err, known) }

// enc writes any text in ASCII, so that texts can be joined before or after it.
func enc(s string) string {
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

func dec(s string) string {
	out, err := strconv.Unquote(`"` + s + `"`)
	vt.Must(err)
	return out
}

// ------------------------------------------------------ the caller's own types

// oattrs are attributes that are not the ones of the code under test.
type oattrs struct {
	m   map[string]string
	bad string // what fails: keys or get
}

func (a *oattrs) Keys(context.Context) ([]string, error) {
	if a.bad == "keys" {
		return nil, errAttrs
	}
	out := []string{}
	for k := range a.m {
		out = append(out, k)
	}
	return out, nil
}

func (a *oattrs) Get(_ context.Context, k string) (string, error) {
	if a.bad != "" {
		return "", errAttrs
	}
	return a.m[k], nil
}

func (a *oattrs) Set(_ context.Context, k, v string) error { a.m[k] = v; return nil }

// mattrs makes a plain map look like attributes to the rest of the harness.
type mattrs map[string]string

func (a mattrs) Keys(context.Context) ([]string, error) {
	out := []string{}
	for k := range a {
		out = append(out, k)
	}
	return out, nil
}
func (a mattrs) Get(_ context.Context, k string) (string, error) { return a[k], nil }
func (a mattrs) Set(_ context.Context, k, v string) error        { a[k] = v; return nil }

type oent struct {
	uid uuid.UID
	ty  string
	at  attrs.Attrs
}

func (e *oent) UID() uuid.UID      { return e.uid }
func (e *oent) Type() string       { return e.ty }
func (e *oent) Attrs() attrs.Attrs { return e.at }

type ores struct {
	oent
	name, group, version, kind string
	nsd                        bool
}

func (r *ores) Name() string     { return r.name }
func (r *ores) Group() string    { return r.group }
func (r *ores) Version() string  { return r.version }
func (r *ores) Kind() string     { return r.kind }
func (r *ores) Namespaced() bool { return r.nsd }

type oobj struct {
	oent
	name, ns string
	res      space.Resource
}

func (o *oobj) Name() string             { return o.name }
func (o *oobj) Namespace() string        { return o.ns }
func (o *oobj) Resource() space.Resource { return o.res }

type olink struct {
	uid, from, to uuid.UID
	at            attrs.Attrs
}

func (l *olink) UID() uuid.UID      { return l.uid }
func (l *olink) From() uuid.UID     { return l.from }
func (l *olink) To() uuid.UID       { return l.to }
func (l *olink) Attrs() attrs.Attrs { return l.at }

// ----------------------------------------------------------------------- world

type val struct {
	k string
	x any
}

type world struct {
	at    map[string]attrs.Attrs
	bad   map[string]bool
	vs    map[string]val
	blobs map[string][]byte
	m     *jsonmar.Marshaler
	turn  int
}

func newWorld() *world {
	m, err := jsonmar.NewMarshaler()
	vt.Must(err)
	return &world{at: map[string]attrs.Attrs{}, bad: map[string]bool{}, vs: map[string]val{}, blobs: map[string][]byte{}, m: m}
}

func uidStr(u uuid.UID) string {
	if u == nil {
		return "<nil>"
	}
	return enc(u.String())
}

func pairs(a attrs.Attrs) []any {
	if a == nil {
		return []any{[]any{"<nil>", "<nil>"}}
	}
	keys, err := a.Keys(ctx)
	if err != nil {
		return []any{[]any{"!", "!"}}
	}
	sort.Strings(keys)
	out := []any{}
	for _, k := range keys {
		v, err := a.Get(ctx, k)
		if err != nil {
			return []any{[]any{"!", "!"}}
		}
		out = append(out, []any{enc(k), enc(v)})
	}
	return out
}

// dotPairs are the attributes as the DOT encoder sees them.
func dotPairs(x any, or []any) []any {
	d, ok := x.(attrs.DOT)
	if !ok {
		return or
	}
	out := []any{}
	for _, a := range d.Attributes() {
		out = append(out, []any{enc(a.Key), enc(a.Value)})
	}
	sort.SliceStable(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func (w *world) viewOf(n string, v val) M {
	out := M{"n": n, "k": v.k, "uid": "", "ty": "", "name": "", "group": "", "version": "", "kind": "", "nsd": false, "ns": "",
		"from": "", "to": "", "w": "", "res": "", "dot": ""}
	if e, ok := v.x.(interface{ UID() uuid.UID }); ok {
		out["uid"] = uidStr(e.UID())
	}
	if e, ok := v.x.(interface{ DOTID() string }); ok {
		out["dot"] = enc(e.DOTID())
	}
	x := v.x
	if nd, ok := x.(*memgraph.Node); ok {
		x = nd.Entity
	}
	if e, ok := x.(interface{ Type() string }); ok {
		out["ty"] = enc(e.Type())
	}
	if r, ok := x.(space.Resource); ok {
		out["name"], out["group"], out["version"], out["kind"], out["nsd"] = enc(r.Name()), enc(r.Group()), enc(r.Version()), enc(r.Kind()), r.Namespaced()
	}
	if o, ok := x.(space.Object); ok {
		out["name"], out["ns"] = enc(o.Name()), enc(o.Namespace())
		if o.Resource() != nil && v.k == "object" {
			out["res"] = uidStr(o.Resource().UID())
		}
	}
	if l, ok := x.(space.Link); ok {
		out["from"], out["to"] = uidStr(l.From()), uidStr(l.To())
	}
	if e, ok := x.(*memgraph.Edge); ok {
		f, err1 := e.FromNode()
		t, err2 := e.ToNode()
		if err1 != nil || err2 != nil {
			out["from"] = "<error>"
		} else {
			out["from"], out["to"] = uidStr(f.UID()), uidStr(t.UID())
			if any(e.From()) != any(f) || any(e.To()) != any(t) {
				out["from"] = "<ends differ>"
			}
		}
		out["w"] = strconv.FormatFloat(e.Weight(), 'g', -1, 64)
	}
	return out
}

func attrsOf(x any) attrs.Attrs {
	return x.(interface{ Attrs() attrs.Attrs }).Attrs()
}

func (w *world) view() M {
	ats, vs := []any{}, []any{}
	for _, n := range names(w.at) {
		p := pairs(w.at[n])
		ats = append(ats, M{"n": n, "kv": p, "da": dotPairs(w.at[n], p)})
	}
	for _, n := range names(w.vs) {
		p := pairs(attrsOf(w.vs[n].x))
		ats = append(ats, M{"n": n, "kv": p, "da": dotPairs(w.vs[n].x, p)})
		vs = append(vs, w.viewOf(n, w.vs[n]))
	}
	return M{"at": ats, "vs": vs}
}

func names[T any](m map[string]T) []string {
	out := []string{}
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// attr finds attributes by name.
func (w *world) attr(n string) attrs.Attrs {
	if a, ok := w.at[n]; ok {
		return a
	}
	return attrsOf(w.vs[n].x)
}

// known to make the next copy or map in another way
func (w *world) flip() bool { w.turn++; return w.turn%2 == 0 }

func (w *world) exec(op M) M {
	s := func(k string) string { return dec(vt.Str(op[k])) }
	n := vt.Str(op["n"])
	res := M{"err": "ok", "uid": ""}
	switch op["o"] {
	case "new":
		w.at[n] = memattrs.New()
	case "map":
		m := map[string]string{}
		for _, kv := range op["kv"].([]any) {
			p := kv.([]any)
			m[dec(p[0].(string))] = dec(p[1].(string))
		}
		if w.flip() {
			w.at[n] = &oattrs{m: m}
		} else {
			w.at[n] = mattrs(m)
		}
	case "bad":
		a := &oattrs{m: map[string]string{"k": "v"}, bad: "get"}
		if w.flip() {
			a.bad = "keys"
		}
		w.at[n], w.bad[n] = a, true
	case "copy":
		var src attrs.Attrs
		if op["src"] != "" {
			src = w.attr(vt.Str(op["src"]))
		}
		if op["as"] == "map" {
			m, err := attrs.ToMap(ctx, src)
			if err != nil {
				return M{"err": errName(err), "uid": "", "view": w.view()}
			}
			w.at[n] = mattrs(m)
			break
		}
		if m, ok := src.(mattrs); ok && w.flip() {
			w.at[n] = memattrs.NewFromMap(m)
			break
		}
		var c *memattrs.Attrs
		var err error
		if src == nil {
			if w.flip() {
				c = memattrs.NewFromMap(nil)
			} else {
				c, err = memattrs.NewCopyFrom(ctx, nil)
			}
		} else {
			c, err = memattrs.NewCopyFrom(ctx, src)
		}
		res["err"] = errName(err)
		if err == nil {
			w.at[n] = c
		}
	case "set":
		res["err"] = errName(w.attr(n).Set(ctx, s("key"), s("val")))
	case "get":
		v, err := w.attr(n).Get(ctx, s("key"))
		res["err"], res["v"] = errName(err), enc(v)
	case "mk":
		x, err := w.make(op, s)
		res["err"] = errName(err)
		if err == nil {
			w.vs[n] = val{vt.Str(op["k"]), x}
			res["uid"] = uidStr(x.(interface{ UID() uuid.UID }).UID())
		}
	case "setdot":
		w.vs[n].x.(interface{ SetDOTID(string) }).SetDOTID(s("dot"))
	case "rev":
		e := w.vs[vt.Str(op["src"])].x.(*memgraph.Edge)
		if r, ok := e.ReversedEdge().(*memgraph.Edge); ok {
			w.vs[n] = val{"edge", r}
		} else {
			res["err"] = "not an edge"
		}
	case "fresh":
		res["us"] = fresh(vt.Int(op["count"]), vt.Bool(op["conc"]))
		res["more"] = 0
		if n := vt.Int(op["more"]); n > 0 { // too many to write down
			seen := make(map[string]bool, n)
			for k := 0; k < n; k++ {
				seen[memuid.New().String()] = true
			}
			res["more"] = len(seen)
		}
		return res
	case "marshal":
		b, err := w.m.Marshal(w.vs[vt.Str(op["x"])].x)
		res["err"] = errName(err)
		if err == nil {
			if w.flip() { // the result belongs to the caller
				w.blobs[vt.Str(op["b"])] = b
			} else {
				w.blobs[vt.Str(op["b"])] = append([]byte(nil), b...)
				for k := range b {
					b[k] = '#'
				}
			}
		}
	case "unmarshal":
		b := append([]byte(nil), w.blobs[vt.Str(op["b"])]...)
		res["err"], _ = w.unmarshal(b, op)
		for k := range b {
			b[k] = '#'
		}
	case "garbage":
		res["err"], res["same"] = w.unmarshal(garble(w.blobs[vt.Str(op["b"])], vt.Str(op["how"]), vt.Str(op["k"])), op)
	case "wire":
		res["err"] = w.wire(w.vs[vt.Str(op["x"])].x, op)
	case "unsup":
		res["err"], res["same"] = w.unsup(vt.Str(op["what"]), w.vs[vt.Str(op["x"])])
	default:
		vt.Must(fmt.Errorf("unknown op %v", op))
	}
	res["view"] = w.view()
	return res
}

func (w *world) make(op M, s func(string) string) (any, error) {
	var at attrs.Attrs
	if a := vt.Str(op["at"]); a != "" {
		at = w.attr(a)
	}
	u := s("uid")
	var rsc space.Resource
	if r := vt.Str(op["res"]); r != "" && op["k"] == "object" {
		rsc = w.vs[r].x.(space.Resource)
	}
	if vt.Bool(op["own"]) {
		e := oent{vt.UID(u), s("ty"), at}
		switch op["k"] {
		case "entity":
			return &e, nil
		case "resource":
			return &ores{e, s("name"), s("group"), s("version"), s("kind"), vt.Bool(op["nsd"])}, nil
		case "object":
			return &oobj{e, s("name"), s("ns"), rsc}, nil
		case "link":
			return &olink{vt.UID(u), vt.UID(s("from")), vt.UID(s("to")), at}, nil
		}
	}
	switch op["k"] {
	case "entity", "resource", "object":
		var o []entity.Option
		if at != nil {
			o = append(o, entity.WithAttrs(at))
		} else if w.flip() {
			o = append(o, entity.WithAttrs(nil))
		}
		if d := s("dot"); d != "" {
			o = append(o, entity.WithDOTID(d))
		}
		if u != "" {
			o = append(o, entity.WithUID(vt.UID(u)))
		} else if w.flip() {
			o = append(o, entity.WithUID(nil))
		}
		switch op["k"] {
		case "entity":
			return entity.New(s("ty"), o...)
		case "resource":
			return entity.NewResource(s("ty"), s("name"), s("group"), s("version"), s("kind"), vt.Bool(op["nsd"]), o...)
		}
		return entity.NewObject(s("ty"), s("name"), s("ns"), rsc, o...)
	case "link":
		var o []link.Option
		if u != "" {
			o = append(o, link.WithUID(vt.UID(u)))
		}
		if at != nil {
			o = append(o, link.WithAttrs(at))
		}
		return link.New(vt.UID(s("from")), vt.UID(s("to")), o...)
	case "node", "edge":
		var o []graph.Option
		if at != nil {
			o = append(o, graph.WithAttrs(at))
		}
		if u != "" {
			o = append(o, graph.WithUID(vt.UID(u)))
		}
		if d := s("dot"); d != "" {
			o = append(o, graph.WithDOTID(d))
		}
		if op["k"] == "node" {
			w.turn++
			return memgraph.NewNode(int64(w.turn), w.vs[vt.Str(op["res"])].x.(graph.Entity), o...)
		}
		if x := vt.Str(op["w"]); x != "" {
			f, err := strconv.ParseFloat(x, 64)
			vt.Must(err)
			o = append(o, graph.WithWeight(f))
		}
		return memgraph.NewEdge(w.vs[vt.Str(op["from"])].x.(*memgraph.Node), w.vs[vt.Str(op["to"])].x.(*memgraph.Node), o...)
	}
	vt.Must(fmt.Errorf("unknown kind %v", op))
	return nil, nil
}

// keep puts an unmarshaled value and its resource into the world.
func (w *world) keep(n, k string, x any) {
	w.vs[n] = val{k, x}
	if o, ok := x.(space.Object); ok && k == "object" && o.Resource() != nil {
		w.vs[n+".r"] = val{"resource", o.Resource()}
	}
}

// unmarshal reads b as op.k into a variable that holds value op.t; if that
// fails it reports whether the variable is still what it was.
func (w *world) unmarshal(b []byte, op M) (string, bool) {
	n, t := vt.Str(op["n"]), w.vs[vt.Str(op["t"])].x
	before := fmt.Sprint(w.view())
	var err error
	var same bool
	switch op["k"] {
	case "entity":
		v, _ := t.(space.Entity)
		old := v
		if err = w.m.Unmarshal(b, &v); err == nil {
			w.keep(n, "entity", v)
		}
		same = v == old
	case "resource":
		v, _ := t.(space.Resource)
		old := v
		if err = w.m.Unmarshal(b, &v); err == nil {
			w.keep(n, "resource", v)
		}
		same = v == old
	case "object":
		v, _ := t.(space.Object)
		old := v
		if err = w.m.Unmarshal(b, &v); err == nil {
			w.keep(n, "object", v)
		}
		same = v == old
	case "link":
		v, _ := t.(space.Link)
		old := v
		if err = w.m.Unmarshal(b, &v); err == nil {
			w.keep(n, "link", v)
		}
		same = v == old
	}
	return errName(err), same && (err == nil || fmt.Sprint(w.view()) == before)
}

func (w *world) wire(x any, op M) string {
	n := vt.Str(op["n"])
	var err error
	var y any
	switch op["k"] {
	case "entity":
		var e *marshal.Entity
		if e, err = marshal.EntityFromSpace(x.(space.Entity)); err == nil {
			y, err = marshal.EntityToSpace(*e)
			scramble(e.Attrs)
		}
	case "resource":
		var e *marshal.Resource
		if e, err = marshal.ResourceFromSpace(x.(space.Resource)); err == nil {
			y, err = marshal.ResourceToSpace(*e)
			scramble(e.Attrs)
		}
	case "object":
		var e *marshal.Object
		if e, err = marshal.ObjectFromSpace(x.(space.Object)); err == nil {
			y, err = marshal.ObjectToSpace(*e)
			scramble(e.Attrs)
			if e.Resource != nil {
				scramble(e.Resource.Attrs)
			}
		}
	case "link":
		var e *marshal.Link
		if e, err = marshal.LinkFromSpace(x.(space.Link)); err == nil {
			y, err = marshal.LinkToSpace(*e)
			scramble(e.Attrs)
		}
	}
	if err == nil {
		w.keep(n, vt.Str(op["k"]), y)
	}
	return errName(err)
}

// scramble changes a wire value after it was converted.
func scramble(m map[string]string) {
	if m != nil {
		for k := range m {
			m[k] = "scrambled"
		}
		m["scrambled"] = "x"
	}
}

// garble makes something that is not the JSON of a value of kind k out of b.
func garble(b []byte, how, k string) []byte {
	set := func(key string, v any) []byte {
		var m map[string]any
		vt.Must(json.Unmarshal(b, &m))
		m[key] = v
		out, err := json.Marshal(m)
		vt.Must(err)
		return out
	}
	switch how {
	case "cut":
		return b[:len(b)-1]
	case "type":
		if k == "link" {
			return set("to", 7)
		}
		return set("type", []any{"x"})
	case "attrs":
		return set("attrs", M{"k": 7})
	case "empty":
		return nil
	case "tail":
		return append(append([]byte(nil), b...), '}')
	case "resource":
		if k == "object" {
			return set("resource", M{"uid": "u", "type": "t", "namespaced": "yes"})
		}
		return []byte("[" + string(b) + "]")
	}
	vt.Must(fmt.Errorf("unknown garbage %s", how))
	return nil
}

func (w *world) unsup(what string, v val) (string, bool) {
	before := fmt.Sprint(w.view())
	same := func() bool { return fmt.Sprint(w.view()) == before }
	mar := func(x any) (string, bool) {
		b, err := w.m.Marshal(x)
		return errName(err), len(b) == 0 && same()
	}
	good := []byte(`{"uid":"zz","type":"zz","name":"zz","from":"a","to":"b"}`)
	switch what {
	case "nil":
		return mar(nil)
	case "text":
		return mar("text")
	case "pointer":
		switch x := v.x.(type) {
		case space.Resource:
			return mar(&x)
		case space.Object:
			return mar(&x)
		case space.Link:
			return mar(&x)
		case space.Entity:
			return mar(&x)
		}
	case "wire":
		switch v.k {
		case "link":
			return mar(marshal.Link{UID: "u"})
		case "object":
			return mar(&marshal.Object{Name: "u"})
		case "resource":
			return mar(marshal.Resource{Name: "u"})
		}
		return mar([]space.Entity{})
	case "into-nil":
		return errName(w.m.Unmarshal(good, nil)), same()
	case "into-text":
		t := "text"
		err := w.m.Unmarshal(good, &t)
		return errName(err), t == "text" && same()
	case "into-value":
		return errName(w.m.Unmarshal(good, v.x)), same()
	case "into-concrete":
		e, err := entity.New("kept")
		vt.Must(err)
		u := e.UID().String()
		err = w.m.Unmarshal(good, e)
		return errName(err), e.Type() == "kept" && e.UID().String() == u && same()
	case "into-wire":
		e := marshal.Entity{UID: "kept"}
		err := w.m.Unmarshal(good, &e)
		return errName(err), e.UID == "kept" && same()
	}
	vt.Must(fmt.Errorf("unknown unsup %s", what))
	return "", false
}

// fresh makes n UIDs in every way there is.
func fresh(n int, conc bool) []any {
	out := make([]any, n)
	one := func(k int) {
		var u uuid.UID
		switch k % 5 {
		case 0:
			u = memuid.New()
		case 1:
			e, _ := entity.New("t")
			u = e.UID()
		case 2:
			e, _ := entity.NewObject("t", "n", "ns", nil)
			u = e.UID()
		case 3:
			e, _ := entity.NewResource("t", "n", "g", "v", "k", true)
			u = e.UID()
		case 4:
			e, _ := link.New(memuid.NewFromString("a"), memuid.NewFromString("b"))
			u = e.UID()
		}
		out[k] = uidStr(u)
	}
	if !conc {
		for k := range out {
			one(k)
		}
		return out
	}
	var wg sync.WaitGroup
	for p := 0; p < 8; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := p; k < n; k += 8 {
				one(k)
			}
		}()
	}
	wg.Wait()
	return out
}

func (w *world) step(t *vt.Trace, op M) bool {
	return vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op) })) })
}

// ---------------------------------------------------------------------- random

type gen struct {
	r    *vt.Rng
	w    *world
	n    int
	kind map[string]string // of the blobs
	refd map[string]bool   // values used by nodes, edges and objects
	prof string
}

var texts = []string{"", "a", "b", "A", "a/b", "/", "x y", "\"q\"", "<&>", "\u2028", "é", "日本", "\\u0041", "a=b;c", "line\nbreak", "\t", "\x00", "😀", "null", "uid", "0", "true",
	strings.Repeat("long", 30), strings.Repeat("x", 4100), "k=v", "{}", "[1]", "\u00a0", "e\u0301", "ﬀ", "İ", "K"}

func (g *gen) text() string {
	if g.r.P(15) {
		return ""
	}
	return enc(vt.Pick(g.r, texts))
}

func (g *gen) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

func (g *gen) of(ks ...string) []string {
	out := []string{}
	for _, n := range names(g.w.vs) {
		for _, k := range ks {
			if g.w.vs[n].k == k {
				out = append(out, n)
			}
		}
	}
	return out
}

func (g *gen) attrs(readable bool) []string {
	out := []string{}
	for _, n := range names(g.w.at) {
		if !readable || !g.w.bad[n] {
			out = append(out, n)
		}
	}
	for _, n := range names(g.w.vs) {
		if !readable || !g.w.bad[n] {
			out = append(out, n)
		}
	}
	return out
}

func (g *gen) maybe(s []string, pct int) string {
	if len(s) == 0 || !g.r.P(pct) {
		return ""
	}
	return vt.Pick(g.r, s)
}

func (g *gen) mk() M {
	ks := []string{"entity", "resource", "object", "link"}
	if g.prof != "marshal" {
		if len(g.of("entity", "resource", "object")) > 0 {
			ks = append(ks, "node")
		}
		if len(g.of("node")) > 0 {
			ks = append(ks, "edge")
		}
	}
	k := vt.Pick(g.r, ks)
	op := M{"o": "mk", "n": g.name("x"), "k": k, "own": false, "uid": "", "at": g.maybe(names(g.w.at), 50), "dot": "", "res": "", "ty": "", "name": "",
		"group": "", "version": "", "kind": "", "nsd": false, "ns": "", "from": "", "to": "", "w": ""}
	if g.r.P(60) && k != "node" {
		op["uid"] = g.name("u") + g.text()
	}
	if g.r.P(30) && k != "link" {
		op["dot"] = g.name("d") + g.text()
	}
	switch k {
	case "entity":
		op["ty"] = g.text()
	case "resource":
		op["ty"], op["name"], op["group"], op["version"], op["kind"], op["nsd"] = g.text(), g.text(), g.text(), g.text(), g.text(), g.r.P(50)
	case "object":
		op["ty"], op["name"], op["ns"], op["res"] = g.text(), g.text(), g.text(), g.maybe(g.of("resource"), 70)
	case "link":
		op["from"], op["to"] = g.text(), g.text()
	case "node":
		op["res"] = vt.Pick(g.r, g.of("entity", "resource", "object"))
	case "edge":
		op["from"], op["to"] = vt.Pick(g.r, g.of("node")), vt.Pick(g.r, g.of("node"))
		op["w"] = vt.Pick(g.r, []string{"", "0", "0.5", "-1", "1e+300"})
	}
	if op["dot"] != "" && g.r.P(40) {
		op["dot"] = g.familiar(op)
	}
	if k != "node" && k != "edge" && op["at"] != "" && op["uid"] != "" && op["dot"] == "" && g.r.P(30) {
		op["own"] = true
	}
	return op
}

// familiar gives a DOT ID equal to one of the texts the value is made of.
func (g *gen) familiar(op M) string {
	xs := []string{vt.Str(op["dot"])}
	for _, f := range []string{"uid", "ty", "name", "group", "version", "kind", "ns", "w"} {
		if s, ok := op[f].(string); ok && s != "" {
			xs = append(xs, s)
		}
	}
	if n := vt.Str(op["res"]); n != "" {
		if v, ok := g.w.vs[n]; ok {
			for f, s := range g.w.viewOf(n, v) {
				if s, ok := s.(string); ok && s != "" && f != "n" && f != "k" && f != "w" && f != "res" {
					xs = append(xs, s)
				}
			}
		}
	}
	sort.Strings(xs)
	return vt.Pick(g.r, xs)
}

// steps gives the next operations.
func (g *gen) op() M {
	for {
		switch c := g.r.N(20); {
		case c < 2 && len(g.w.at) < 6:
			if g.r.P(40) {
				return M{"o": "new", "n": g.name("a")}
			}
			kv, seen := []any{}, map[string]bool{}
			j := g.r.N(4)
			if g.r.P(5) {
				j = 40
			}
			for ; j > 0; j-- {
				if k := g.text(); !seen[k] {
					seen[k] = true
					kv = append(kv, []any{k, g.text()})
				}
			}
			return M{"o": "map", "n": g.name("m"), "kv": kv}
		case c == 2 && len(g.w.at) < 6 && len(g.w.bad) == 0 && g.r.P(30):
			return M{"o": "bad", "n": g.name("b")}
		case c < 5 && len(g.w.at) < 8:
			op := M{"o": "copy", "n": g.name("c"), "src": g.maybe(g.attrs(false), 90), "as": "attrs"}
			if op["src"] != "" && g.r.P(30) {
				op["as"] = "map"
			}
			return op
		case c < 8:
			if as := g.attrs(true); len(as) > 0 {
				return M{"o": "set", "n": vt.Pick(g.r, as), "key": g.text(), "val": g.text()}
			}
		case c == 8:
			if as := g.attrs(true); len(as) > 0 {
				return M{"o": "get", "n": vt.Pick(g.r, as), "key": g.text()}
			}
		case c < 12 && len(g.w.vs) < 8:
			return g.mk()
		case c == 12 && g.prof != "marshal":
			var xs []string
			for _, n := range names(g.w.vs) {
				if _, ok := g.w.vs[n].x.(interface{ SetDOTID(string) }); ok {
					xs = append(xs, n)
				}
			}
			if len(xs) > 0 {
				dot, n := g.name("D")+g.text(), vt.Pick(g.r, xs)
				if g.r.P(30) {
					dot = g.familiar(M{"dot": dot, "res": n})
				}
				return M{"o": "setdot", "n": n, "dot": dot}
			}
		case c == 13 && g.prof != "marshal":
			if es := g.of("edge"); len(es) > 0 && len(g.w.vs) < 10 {
				return M{"o": "rev", "n": g.name("x"), "src": vt.Pick(g.r, es)}
			}
		case c >= 14 && g.prof == "marshal":
			xs := g.of("entity", "resource", "object", "link")
			bs := names(g.w.blobs)
			switch d := g.r.N(10); {
			case d < 3 && len(xs) > 0:
				x := vt.Pick(g.r, xs)
				b := g.name("j")
				g.kind[b] = g.w.vs[x].k
				return M{"o": "marshal", "x": x, "b": b}
			case d < 6 && len(bs) > 0 && len(g.w.vs) < 12:
				b := vt.Pick(g.r, bs)
				k := g.kind[b]
				if k != "link" && g.r.P(30) {
					k = "entity"
				}
				return M{"o": "unmarshal", "b": b, "k": k, "n": g.name("x"), "t": g.maybe(g.of(k), 50)}
			case d < 8 && len(bs) > 0:
				b := vt.Pick(g.r, bs)
				return M{"o": "garbage", "b": b, "k": g.kind[b], "n": "none", "t": g.maybe(g.of(g.kind[b]), 60),
					"how": vt.Pick(g.r, []string{"cut", "type", "attrs", "empty", "tail", "resource"})}
			case d == 8 && len(xs) > 0 && len(g.w.vs) < 12:
				x := vt.Pick(g.r, xs)
				return M{"o": "wire", "x": x, "k": g.w.vs[x].k, "n": g.name("x")}
			case d == 9 && len(xs) > 0:
				return M{"o": "unsup", "x": vt.Pick(g.r, xs), "what": vt.Pick(g.r, []string{"nil", "text", "pointer", "wire", "into-nil", "into-text", "into-value", "into-concrete", "into-wire"})}
			}
		}
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	if *mode != "seq" {
		vt.Must(fmt.Errorf("unknown mode %s", *mode))
	}
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	ok := true
	for k, s := range vt.ReadScripts(*scripts) {
		if !ok {
			break
		}
		t := vt.NewTrace(fmt.Sprintf("script%d", k), nil)
		w := newWorld()
		w.turn = k
		for _, op := range s {
			if ok = ok && w.step(t, op); !ok {
				break
			}
		}
		o.Put(t)
	}
	prof := "make"
	if vt.Env("MARSHAL", 0) != 0 {
		prof = "marshal"
	}
	for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
		t := vt.NewTrace(fmt.Sprintf("random%d", k), nil)
		w := newWorld()
		w.turn = k
		g := &gen{r: vt.NewRng(seed*1000003 + uint64(k)), w: w, kind: map[string]string{}, refd: map[string]bool{}, prof: prof}
		for j := 0; j < vt.Env("LENGTH", 30) && ok; j++ {
			ok = w.step(t, g.op())
		}
		if k%10 == 0 {
			ok = ok && w.step(t, M{"o": "fresh", "n": "", "count": 20, "conc": k%20 == 0, "more": 0})
		}
		o.Put(t)
	}
	if ok && prof == "make" {
		t := vt.NewTrace("fresh", nil)
		w := newWorld()
		w.step(t, M{"o": "fresh", "n": "", "count": 400, "conc": false, "more": 500000})
		w.step(t, M{"o": "fresh", "n": "", "count": 400, "conc": true, "more": 0})
		o.Put(t)
	}
	o.Close()
}
