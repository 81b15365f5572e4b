// pipe drives the ingester and the digester.
package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"

	simdig "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	siming "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	brokermem "github.com/milosgajdos/netscrape/pkg/broker/memory"
	spacejson "github.com/milosgajdos/netscrape/pkg/space/marshal/json"

	"verif/vt"
)

type M = vt.M

var (
	errPub, errMarshal = errors.New("publish failed"), errors.New("marshal failed")
	errHandler, errSub = errors.New("handler failed"), errors.New("subscriber failed")
	errUsedUp          = errors.New("the subscriber has nothing left")
	capture            *os.File // what os.Stdout is while a digest runs
	stdout             = os.Stdout
	told               = map[string]error{"errPub": errPub, "ErrTimeout": broker.ErrTimeout, "errHandler": errHandler, "errSub": errSub, "ErrSubscriptionInactive": broker.ErrSubscriptionInactive}
	// errors that could be taken for something else
	odd = map[string]error{"canceled": context.Canceled, "deadline": context.DeadlineExceeded, "EOF": io.EOF, "ErrNotConnected": broker.ErrNotConnected, "ErrNotImplemented": broker.ErrNotImplemented,
		"wrapped timeout": fmt.Errorf("x: %w", broker.ErrTimeout), "wrapped canceled": fmt.Errorf("x: %w", context.Canceled), "wrapped inactive": fmt.Errorf("x: %w", broker.ErrSubscriptionInactive), "empty": errors.New("")}
	odds                = []string{"canceled", "deadline", "EOF", "ErrNotConnected", "ErrNotImplemented", "wrapped timeout", "wrapped canceled", "wrapped inactive", "empty"}
	spaceMarshaler, err = spacejson.NewMarshaler()
)

func init() {
	for n, e := range odd {
		told[n] = e
	}
}

// same names an error that must come back unchanged.
func same(err error) string {
	if err == nil {
		return "ok"
	}
	if err == errMarshal {
		return "errMarshal"
	}
	for n, e := range told {
		if err == e {
			return n
		}
	}
	var t *json.UnsupportedTypeError
	var v *json.UnsupportedValueError
	var m *json.MarshalerError
	if errors.As(err, &t) || errors.As(err, &v) || errors.As(err, &m) {
		return "errJSON"
	}
	return "other: " + err.Error()
}

// marshaler is a marshaler of the harness.
type marshaler struct {
	name string
	h    *vt.Hook
}

func dataID(x any) string {
	if _, ok := x.(chan int); ok {
		return "bad"
	}
	return fmt.Sprint(x)
}

func (m *marshaler) Marshal(x any) ([]byte, error) {
	m.h.Point()
	switch m.name {
	case "F":
		return []byte("partial"), errMarshal
	case "N":
		return nil, nil
	}
	return []byte(m.name + "(" + dataID(x) + ")"), nil
}

func marsh(name string, h *vt.Hook) broker.Marshaler {
	if name == "space" {
		return spaceMarshaler
	}
	return &marshaler{name, h}
}

type raw struct {
	A int `json:"a"`
	b int
}

type stringer struct{ X int }

func (stringer) String() string { return "as text" }

type selfmade struct{}

func (selfmade) MarshalJSON() ([]byte, error) { return []byte(`{"self": "made"}`), nil }

type failing struct{}

func (failing) MarshalJSON() ([]byte, error) { return nil, errHandler }

// odddata are data that could be taken for something else.
var odddata = func() map[string]any {
	e, err := entity.New("t", entity.WithUID(vt.UID("u")))
	vt.Must(err)
	n := 7
	return map[string]any{"bytes": []byte("x"), "json bytes": []byte(`{"a":1}`), "no bytes": []byte{}, "nil bytes": []byte(nil), "raw": json.RawMessage(`{"b" : 2}`),
		"message": broker.Message{UID: "m", Type: broker.Link, Data: []byte("d")}, "message pointer": &broker.Message{Data: []byte("d")}, "json text": `{"a":1}`,
		"struct": raw{A: 1, b: 2}, "pointer": &n, "nil pointer": (*int)(nil), "stringer": stringer{3}, "selfmade": selfmade{}, "failing": failing{}, "error": errHandler,
		"entity": e, "nan": math.NaN(), "func": func() {}, "nil map": map[string]int(nil), "nil slice": []int(nil), "zero": 0, "false": false, "big": strings.Repeat("0123456789", 1000)}
}()

var oddnames = func() []string {
	var out []string
	for n := range odddata {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

// fake is a broker that does what it is told.
type fake struct {
	err  error
	h    *vt.Hook
	ctx  context.Context
	pubs []any
}

func (b *fake) Pub(ctx context.Context, topic string, m broker.Message, _ ...broker.Option) error {
	b.h.Point()
	b.ctx = ctx
	b.pubs = append(b.pubs, M{"topic": topic, "ty": int(m.Type), "da": string(m.Data)})
	return b.err
}

func (b *fake) Sub(context.Context, string, ...broker.Option) (broker.Subscriber, error) {
	return nil, broker.ErrNotImplemented
}

// script is a subscriber that does what it is told.
type script struct {
	items   []M
	n       int
	inside  atomic.Int32
	overlap bool
	stdout  bool // the handler is the default one
	cancel  context.CancelFunc
	cur     M
	h       *vt.Hook
}

func (s *script) ID(context.Context) (string, error)                      { return "sub", nil }
func (s *script) Topic(context.Context, ...broker.Option) (string, error) { return "T", nil }
func (s *script) Unsubscribe(context.Context, ...broker.Option) error     { return nil }
func (s *script) Receive(ctx context.Context, h broker.Handler, _ ...broker.Option) error {
	if s.inside.Add(1) > 1 {
		s.overlap = true
	}
	defer s.inside.Add(-1)
	s.h.Point()
	s.n++
	if s.n > len(s.items)+200 {
		panic("the digest does not stop")
	}
	if s.n > len(s.items) {
		return errUsedUp
	}
	x := s.items[s.n-1]
	switch x["k"] {
	case "err":
		return told[vt.Str(x["r"])]
	case "nil":
		s.cancel()
		return nil
	}
	s.cur = x
	err := h(ctx, message(x["m"].(M)))
	if s.stdout {
		s.finish()
		if err == nil {
			err = told[vt.Str(x["r"])]
		}
	}
	return err
}

func (s *script) finish() {
	if vt.Bool(s.cur["cx"]) {
		s.cancel()
	}
}

func message(v M) broker.Message {
	da, err := hex.DecodeString(vt.Str(v["da"]))
	vt.Must(err)
	return broker.Message{UID: vt.Str(v["id"]), Type: broker.Type(vt.Int(v["ty"])), Data: da, Attrs: vt.AttrMap(vt.Str(v["at"]))}
}

func mview(m broker.Message) M {
	return M{"id": m.UID, "ty": int(m.Type), "da": hex.EncodeToString(m.Data), "at": vt.MapStr(m.Attrs)}
}

type hkey struct{}

// handler is the configured handler of that name; which digest it belongs to is in the context.
func handler(name string) broker.Handler {
	return func(ctx context.Context, m broker.Message) error {
		d, ok := ctx.Value(hkey{}).(*digestion)
		if !ok {
			return errors.New("handler called without the context of its digest")
		}
		if d.inside.Add(1) > 1 {
			d.sub.overlap = true
		}
		defer d.inside.Add(-1)
		d.handed = append(d.handed, M{"h": name, "m": mview(m)})
		d.sub.h.Point()
		d.sub.finish()
		return told[vt.Str(d.sub.cur["r"])]
	}
}

// named names an error, which may have been wrapped.
func named(err error) string {
	if n := same(err); !strings.HasPrefix(n, "other: ") {
		return n
	}
	for n, e := range odd {
		if strings.HasPrefix(n, "wrapped") && errors.Is(err, e) {
			return n
		}
	}
	return vt.ErrName(err, told)
}

type digestion struct {
	sub    *script
	inside atomic.Int32
	handed []any
}

type world struct {
	im, dh string
	in     *siming.Ingester
	dg     *simdig.Digester
	b      *brokermem.Memory
	sub    broker.Subscriber
	vals   map[string]any
}

func newWorld(cfg M, real bool) *world {
	w := &world{im: vt.Str(cfg["im"]), dh: vt.Str(cfg["dh"])}
	var io []ingester.Option
	if w.im != "" {
		io = append(io, ingester.WithMarshaler(marsh(w.im, nil)))
	}
	var do []digester.Option
	if w.dh != "" {
		do = append(do, digester.WithHandler(handler(w.dh)))
	}
	var err error
	w.in, err = siming.NewIngester(io...)
	vt.Must(err)
	w.dg, err = simdig.NewDigester(do...)
	vt.Must(err)
	if real {
		w.b, err = brokermem.New(broker.WithCap(50))
		vt.Must(err)
		vt.Must(w.b.Open(vt.Ctx))
		w.sub, err = w.b.Sub(vt.Ctx, "T")
		vt.Must(err)
		w.vals = map[string]any{}
	}
	return w
}

func list(v any) []M {
	var out []M
	switch a := v.(type) {
	case []M:
		return a
	case []any:
		for _, x := range a {
			out = append(out, x.(M))
		}
	}
	return out
}

// datum is the value that data [id, js] stands for.
func datum(d M) any {
	if k := vt.Str(d["k"]); k != "" {
		return odddata[k]
	}
	if vt.Str(d["js"]) == "" {
		return make(chan int)
	}
	var x any
	vt.Must(json.Unmarshal([]byte(vt.Str(d["js"])), &x))
	return x
}

func (w *world) exec(op M, h *vt.Hook) M {
	switch op["o"] {
	case "ingest":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var o []ingester.Option
		if h != nil {
			o = append(o, func(*ingester.Options) { h.Point() })
		}
		if m := vt.Str(op["m"]); m != "" {
			o = append(o, ingester.WithMarshaler(marsh(m, h)))
		}
		if h != nil {
			o = append(o, func(*ingester.Options) { h.Point() })
		}
		b := &fake{err: told[vt.Str(op["pub"])], h: h, pubs: []any{}}
		err := w.in.Ingest(ctx, b, vt.Str(op["topic"]), broker.Type(vt.Int(op["ty"])), datum(op["d"].(M)), o...)
		ok := true
		if b.ctx != nil {
			ok = b.ctx.Err() == nil
			cancel()
			select {
			case <-b.ctx.Done():
			case <-time.After(5 * time.Second):
				ok = false
			}
		}
		return M{"err": same(err), "pubs": b.pubs, "ctx": ok}
	case "digest":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		d := &digestion{handed: []any{}}
		name := vt.Str(op["h"])
		d.sub = &script{items: list(op["script"]), cancel: cancel, h: h, stdout: name == "" && w.dh == ""}
		var o []digester.Option
		if h != nil {
			o = append(o, func(*digester.Options) { h.Point() })
		}
		if name != "" {
			o = append(o, digester.WithHandler(handler(name)))
		}
		if h != nil {
			o = append(o, func(*digester.Options) { h.Point() })
		}
		if capture != nil {
			vt.Must(capture.Truncate(0))
			_, err := capture.Seek(0, io.SeekStart)
			vt.Must(err)
			os.Stdout = capture
		}
		err := w.dg.Digest(context.WithValue(ctx, hkey{}, d), d.sub, o...)
		out := ""
		if capture != nil {
			os.Stdout = stdout
			b, err := os.ReadFile(capture.Name())
			vt.Must(err)
			out = hex.EncodeToString(b)
		}
		return M{"err": named(err), "used": d.sub.n, "overlap": d.sub.overlap, "handed": d.handed, "out": out}
	case "send":
		var o []ingester.Option
		if m := vt.Str(op["m"]); m != "" {
			o = append(o, ingester.WithMarshaler(marsh(m, h)))
		}
		return M{"err": same(w.in.Ingest(vt.Ctx, w.b, "T", broker.Type(vt.Int(op["ty"])), w.vals[vt.Str(op["v"])], o...))}
	case "take":
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		got := []any{}
		h := func(_ context.Context, m broker.Message) error {
			got = append(got, M{"ty": int(m.Type), "v": received(m)})
			cancel()
			return nil
		}
		err := w.dg.Digest(ctx, w.sub, digester.WithHandler(h))
		if err != nil && !errors.Is(err, context.Canceled) {
			return M{"err": same(err), "got": got}
		}
		return M{"err": "ok", "got": got}
	}
	vt.Must(fmt.Errorf("unknown op %v", op))
	return nil
}

// received is the view of the value in a message.
func received(m broker.Message) string {
	switch m.Type {
	case broker.Entity:
		var x space.Entity
		if err := spaceMarshaler.Unmarshal(m.Data, &x); err != nil {
			return err.Error()
		}
		return view(x)
	case broker.Resource:
		var x space.Resource
		if err := spaceMarshaler.Unmarshal(m.Data, &x); err != nil {
			return err.Error()
		}
		return view(x)
	case broker.Object:
		var x space.Object
		if err := spaceMarshaler.Unmarshal(m.Data, &x); err != nil {
			return err.Error()
		}
		return view(x)
	case broker.Link:
		var x space.Link
		if err := spaceMarshaler.Unmarshal(m.Data, &x); err != nil {
			return err.Error()
		}
		return view(x)
	}
	var x map[string]string
	if err := json.Unmarshal(m.Data, &x); err != nil {
		return err.Error()
	}
	return view(x)
}

func view(x any) string {
	switch v := x.(type) {
	case space.Resource:
		return fmt.Sprintf("resource %q %q %s %q %q %q %q %v", v.UID(), v.Type(), vt.AttrStr(v.Attrs()), v.Name(), v.Group(), v.Version(), v.Kind(), v.Namespaced())
	case space.Object:
		r := "none"
		if v.Resource() != nil {
			r = view(v.Resource())
		}
		return fmt.Sprintf("object %q %q %s %q %q (%s)", v.UID(), v.Type(), vt.AttrStr(v.Attrs()), v.Name(), v.Namespace(), r)
	case space.Entity:
		return fmt.Sprintf("entity %q %q %s", v.UID(), v.Type(), vt.AttrStr(v.Attrs()))
	case space.Link:
		return fmt.Sprintf("link %q %q %q %s", v.UID(), v.From(), v.To(), vt.AttrStr(v.Attrs()))
	case map[string]string:
		return "map " + vt.MapStr(v)
	}
	return fmt.Sprintf("%T", x)
}

// value makes a value of a random kind.
func value(r *vt.Rng, n int) (broker.Type, any) {
	s := func() string {
		return vt.Pick(r, []string{"", "a", fmt.Sprint(n), "é\"\\<&>", "x y/z"})
	}
	a := func() map[string]string {
		m := map[string]string{}
		for k := r.N(3); k > 0; k-- {
			m[s()] = s()
		}
		return m
	}
	eo := func() []entity.Option {
		return []entity.Option{entity.WithUID(vt.UID(fmt.Sprintf("u%d%s", n, s()))), entity.WithAttrs(attrsOf(a()))}
	}
	switch r.N(5) {
	case 0:
		e, err := entity.New(s(), eo()...)
		vt.Must(err)
		return broker.Entity, e
	case 1:
		e, err := entity.NewResource(s(), s(), s(), s(), s(), r.P(50), eo()...)
		vt.Must(err)
		return broker.Resource, e
	case 2:
		var res space.Resource
		if r.P(60) {
			x, err := entity.NewResource(s(), s(), s(), s(), s(), r.P(50), eo()...)
			vt.Must(err)
			res = x
		}
		e, err := entity.NewObject(s(), s(), s(), res, eo()...)
		vt.Must(err)
		return broker.Object, e
	case 3:
		l, err := link.New(vt.UID("f"+s()), vt.UID("t"+s()), link.WithUID(vt.UID(fmt.Sprintf("l%d", n))), link.WithAttrs(attrsOf(a())))
		vt.Must(err)
		return broker.Link, l
	}
	return broker.Unknown, a()
}

type harnessAttrs map[string]string

func attrsOf(m map[string]string) *harnessAttrs { a := harnessAttrs(m); return &a }

func (a *harnessAttrs) Keys(context.Context) ([]string, error) {
	var out []string
	for k := range *a {
		out = append(out, k)
	}
	return out, nil
}
func (a *harnessAttrs) Get(_ context.Context, k string) (string, error) { return (*a)[k], nil }
func (a *harnessAttrs) Set(_ context.Context, k, v string) error        { (*a)[k] = v; return nil }

// ---------------------------------------------------------- random histories
func randIngest(r *vt.Rng, n int) M {
	d := M{"id": "bad", "js": ""}
	if !r.P(15) {
		x := vt.Pick(r, []any{fmt.Sprintf("d%d", n), n, nil, true, []any{"a", n}, map[string]any{"k": "v"}, "", "<é>\n"})
		b, err := json.Marshal(x)
		vt.Must(err)
		var y any
		vt.Must(json.Unmarshal(b, &y))
		d = M{"id": fmt.Sprint(y), "js": string(b)}
		if r.P(50) {
			k := vt.Pick(r, oddnames)
			b, _ := json.Marshal(odddata[k]) // nothing if that fails
			d = M{"id": dataID(odddata[k]), "js": string(b), "k": k}
		}
	}
	return M{"o": "ingest", "m": vt.Pick(r, []string{"", "", "A", "B", "F", "N"}), "topic": vt.Pick(r, []string{"T", "U", "", "T ", "*", "a/b"}), "ty": vt.Pick(r, []int{0, 1, 2, 3, 4, 5, -1, 1000}), "d": d,
		"pub": vt.Pick(r, append(odds, "ok", "ok", "ok", "ok", "ok", "ok", "errPub", "ErrTimeout"))}
}

func randDigest(r *vt.Rng, hs []string) M {
	var items []M
	long := r.P(10)
	for n := 1; ; n++ {
		m := M{"id": fmt.Sprintf("m%d", n), "ty": r.N(5), "da": hex.EncodeToString([]byte(vt.Pick(r, []string{"", "x", fmt.Sprintf("data %d\n", n), "\x00\xff%d"}))), "at": ""}
		x := M{"k": "msg", "m": m, "r": "ok", "cx": false}
		end := true
		switch q := r.N(20); {
		case long && n < 100, q < 14 && n < 8:
			end = false
		case q < 15:
			x["r"] = vt.Pick(r, append(odds, "errHandler", "errHandler", "ErrTimeout"))
			x["cx"] = r.P(20)
		case q < 16:
			x["cx"] = true
		case q < 18:
			x["k"], x["r"] = "err", vt.Pick(r, append(odds, "errSub", "ErrTimeout", "ErrSubscriptionInactive"))
		default:
			x["k"], x["r"], x["cx"] = "nil", "", true
		}
		items = append(items, x)
		if end {
			break
		}
	}
	for n := r.N(3); n > 0; n-- { // must not be asked for
		items = append(items, M{"k": "msg", "m": M{"id": "late", "ty": 0, "da": "", "at": ""}, "r": "ok", "cx": false})
	}
	return M{"o": "digest", "h": vt.Pick(r, hs), "script": items}
}

func main() {
	out := flag.String("out", "", "trace file")
	mode := flag.String("mode", "seq", "seq, conc")
	scripts := flag.String("scripts", "", "scripts to replay")
	flag.Parse()
	vt.Must(err)
	o := vt.NewOut(*out)
	seed := uint64(vt.Env("VERIF_SEED", 1))
	prop := os.Getenv("PROP")
	randOp := func(r *vt.Rng, n int, hs []string) M {
		if prop == "C07" {
			return randIngest(r, n)
		}
		return randDigest(r, hs)
	}
	cfgs := []M{{"im": "", "dh": ""}, {"im": "A", "dh": "H1"}, {"im": "B", "dh": ""}, {"im": "F", "dh": "H2"}}
	switch *mode {
	case "seq":
		f, err := os.CreateTemp("", "stdout")
		vt.Must(err)
		vt.Must(os.Remove(f.Name()))
		vt.Must(f.Close())
		f, err = os.OpenFile(f.Name(), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o600)
		vt.Must(err)
		capture = f
		defer os.Remove(f.Name())
		run := func(id string, cfg M, real bool, n int, next func(w *world, k int) M) bool {
			t := vt.NewTrace(id, cfg)
			w := newWorld(cfg, real)
			for k := 0; k < n; k++ {
				op := next(w, k)
				t0 := time.Now()
				if !vt.Guard(t, func() { t.Op(op, vt.Catch(func() M { return w.exec(op, nil) })) }) {
					o.Put(t)
					return false
				}
				// something was waited for in vain: the trace shows it, and there is no need for more of it
				if time.Since(t0) > 3*time.Second {
					o.Put(t)
					return false
				}
			}
			o.Put(t)
			return true
		}
		ok := true
		for k, s := range vt.ReadScripts(*scripts) {
			ok = ok && run(fmt.Sprintf("script%d", k), s[0], false, len(s)-1, func(_ *world, j int) M { return s[j+1] })
		}
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			r := vt.NewRng(seed*1000003 + uint64(k))
			ok = run(fmt.Sprintf("random%d", k), vt.Pick(r, cfgs), false, 8, func(_ *world, j int) M { return randOp(r, j, []string{"", "", "H1", "H2"}) })
		}
		for k := 0; k < vt.Env("REAL", 100) && ok; k++ {
			r := vt.NewRng(seed*500009 + uint64(k))
			cfg := M{"im": vt.Pick(r, []string{"", "space"}), "dh": ""}
			sent, n := 0, 0
			ok = run(fmt.Sprintf("real%d", k), cfg, true, 40, func(w *world, j int) M {
				if sent > 0 && (sent > 30 || r.P(50)) {
					sent--
					return M{"o": "take"}
				}
				sent++
				n++
				ty, x := value(r, n)
				v := view(x)
				w.vals[v] = x
				m := ""
				if _, plain := x.(map[string]string); plain {
					if cfg["im"] != "" { // the space marshaler does not take it
						e, err := entity.New("t", entity.WithUID(vt.UID(fmt.Sprint(n))))
						vt.Must(err)
						ty, v = broker.Entity, view(e)
						w.vals[v] = e
					}
				} else if cfg["im"] == "" {
					m = "space"
				}
				return M{"o": "send", "ty": int(ty), "v": v, "m": m}
			})
		}
	case "conc":
		hs := []string{"", "H1", "H2"}
		thread := func(w *world, op M) vt.Thread {
			return vt.Thread{Op: op, Run: func(h *vt.Hook) M {
				if h == nil {
					h = vt.NewHook(0)
				}
				return w.exec(op, h)
			}}
		}
		ok := true
		for k := 0; k < vt.Env("RANDOM", 300) && ok; k++ {
			r := vt.NewRng(seed*7777777 + uint64(k))
			cfg := vt.Pick(r, cfgs)
			// the default handler writes to where all calls write to
			if cfg["dh"] == "" {
				hs = []string{"H1", "H2"}
			} else {
				hs = []string{"", "H1", "H2"}
			}
			a, b := randOp(r, 1, hs), randOp(r, 2, hs)
			for j := 1; j <= 6 && ok; j++ {
				t := vt.NewTrace(fmt.Sprintf("preempt%d-%d", k, j), cfg)
				w := newWorld(cfg, false)
				reached, fin := vt.OnePreemption(t, thread(w, a), thread(w, b), j)
				ok = fin
				o.Put(t)
				if !reached {
					break
				}
			}
			if !ok {
				break
			}
			t := vt.NewTrace(fmt.Sprintf("conc%d", k), cfg)
			w := newWorld(cfg, false)
			threads := make([][]vt.Thread, 4)
			for p := range threads {
				for j := 0; j < 2; j++ {
					op := randOp(r, 10*p+j, hs)
					threads[p] = append(threads[p], vt.Thread{Op: op, Run: func(h *vt.Hook) M { return w.exec(op, h) }})
				}
			}
			ok = vt.Parallel(t, threads)
			o.Put(t)
		}
	}
	o.Close()
}
