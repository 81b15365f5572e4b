package broker

import (
	"fmt"
	"os"
	"strings"

	"verif/vt"
)

// profile says how often random histories of a property take which step.
type profile struct {
	w      map[string]int // weights of steps
	caps   []int
	pto    []int
	tos    []int // timeouts of calls, 0 = default
	advs   []int
	topics int
	subs   int
	burst  int // percentage of steps not waited for
	nested int // percentage of receives whose handler uses the broker
	block  int // percentage of receives whose handler blocks
	ctx    int // percentage of calls with a context of their own
	dl     int // percentage of calls with a deadline
	par    int // percentage of steps that are calls made at the same moment
	seq    int // percentage of steps that are sequences of calls made by one goroutine
	hold   int // percentage of publishes and receives paused on the way
	open   bool
}

var profiles = map[string]profile{
	"C01": {w: map[string]int{"pub": 10, "recv": 10, "sub": 3, "unsub": 2, "cancel": 2, "adv": 3, "close": 1, "open": 1, "release": 1},
		caps: []int{0, 1, 2, 3}, pto: []int{0, 20}, tos: []int{0, 5, 10}, advs: []int{1, 5, 10}, topics: 2, subs: 4, burst: 60, ctx: 20, hold: 10, block: 5, par: 8, seq: 10, open: true},
	"C02": {w: map[string]int{"pub": 12, "recv": 10, "sub": 2, "adv": 2, "release": 1, "cancel": 1},
		caps: []int{0, 1, 2, 3, 5}, pto: []int{0, 50}, tos: []int{0, 0, 0, 10}, advs: []int{1, 10}, topics: 2, subs: 3, burst: 55, ctx: 10, hold: 10, block: 10, par: 8, seq: 15, open: true},
	"C03": {w: map[string]int{"pub": 12, "recv": 7, "sub": 2, "unsub": 1, "cancel": 2, "adv": 6, "close": 1, "open": 1, "release": 1},
		caps: []int{0, 0, 1, 2, 3, -1}, pto: []int{0, 0, 20, 300}, tos: []int{0, 5, 20, 6000}, advs: []int{1, 5, 10, 300, 5000}, topics: 2, subs: 3, burst: 30, ctx: 25, hold: 5, block: 5, par: 8, seq: 5, open: true},
	"C04": {w: map[string]int{"pub": 6, "recv": 6, "sub": 4, "unsub": 2, "cancel": 4, "adv": 2, "close": 4, "open": 6, "release": 1},
		caps: []int{0, 1, 2, 3}, pto: []int{0, 100}, tos: []int{0, 0, 20}, advs: []int{1, 20}, topics: 2, subs: 4, burst: 40, ctx: 30, dl: 10, hold: 15, block: 10, par: 10, seq: 25},
	"C05": {w: map[string]int{"pub": 6, "recv": 10, "sub": 4, "unsub": 8, "adv": 1, "close": 1, "open": 1, "release": 1},
		caps: []int{0, 1, 2, 3}, pto: []int{0}, tos: []int{0, 0, 0, 50}, advs: []int{1, 50}, topics: 2, subs: 5, burst: 50, ctx: 0, hold: 15, block: 10, par: 25, seq: 15, open: true},
	"C06": {w: map[string]int{"pub": 9, "recv": 9, "sub": 3, "unsub": 1, "cancel": 5, "adv": 3, "close": 1, "open": 1, "release": 2},
		caps: []int{0, 1, 2}, pto: []int{0, 100}, tos: []int{0, 0, 20, 50}, advs: []int{1, 10, 20, 50}, topics: 2, subs: 4, burst: 35, ctx: 50, dl: 15, hold: 12, nested: 25, block: 15, par: 8, seq: 10, open: true},
}

func init() {
	profiles["C08"] = profile{w: map[string]int{"digest": 6, "pub": 12, "sub": 3, "unsub": 2, "cancel": 3, "adv": 2, "close": 1, "open": 2, "release": 2, "recv": 1},
		caps: []int{0, 1, 3}, pto: []int{0, 100}, tos: []int{0, 20}, advs: []int{1, 20, 5000}, topics: 2, subs: 4, burst: 35, ctx: 60, dl: 10, nested: 20, block: 15, seq: 5, open: true}
}

type gen struct {
	r      *vt.Rng
	p      profile
	topics []string
	steps  int
	ctxs   int
	nsubs  int
	kinds  []string
	msgs   int
	opened bool
}

// digests tells whether the profile is about digests: sessions and subscribers
// then begin and end one at a time.
func (p profile) digests() bool { return p.w["digest"] > 0 }

func newGen(r *vt.Rng, p profile, topics []string, steps int) *gen {
	g := &gen{r: r, p: p, topics: topics, steps: steps}
	for _, k := range []string{"pub", "recv", "sub", "unsub", "cancel", "adv", "close", "open", "release", "digest"} {
		for i := 0; i < p.w[k]; i++ {
			g.kinds = append(g.kinds, k)
		}
	}
	return g
}

func (g *gen) ctx(pct int) string {
	if !g.r.P(pct) {
		return ""
	}
	if g.ctxs == 0 || g.r.P(55) {
		g.ctxs++
	}
	return fmt.Sprintf("c%d", g.ctxs)
}

// message makes a message; now and then one that looks like an earlier one.
func (g *gen) message() M {
	if g.msgs == 0 || !g.r.P(10) {
		g.msgs++
	} else if g.r.P(50) {
		n := 1 + g.r.N(g.msgs)
		return M{"id": fmt.Sprintf("m%d", n), "ty": g.r.N(5), "da": fmt.Sprintf("again %d", g.r.N(1000)), "at": ""}
	}
	n := g.msgs
	data := vt.Pick(g.r, []string{"", "x", fmt.Sprintf("data %d", n), " \n", "null"})
	switch {
	case g.r.P(2):
		data = strings.Repeat("long ", 1000)
	case g.r.P(1):
		data = fmt.Sprintf("big:%d", vt.Pick(g.r, []int{1 << 15, 1 << 16, 1<<16 + 1, 100000, 1 << 20}))
	}
	id := fmt.Sprintf("m%d", n)
	if g.r.P(4) {
		id = "<none>"
	}
	return M{"id": id, "ty": n % 5, "da": data, "at": vt.Pick(g.r, []string{"", fmt.Sprintf("n=%d", n), fmt.Sprintf("a=;b=%d;n=x", n)})}
}

func (g *gen) sub() string { return fmt.Sprintf("s%d", 1+g.r.N(g.nsubs)) }

func (g *gen) step(nested bool) M {
	for {
		k := vt.Pick(g.r, g.kinds)
		s := M{"o": k, "nw": g.r.P(g.p.burst)}
		switch k {
		case "open":
			s["ctx"] = g.ctx(60)
			if g.r.P(g.p.dl) {
				s["dl"] = vt.Pick(g.r, []int{1, 5, 20, 50})
			}
		case "close", "release":
		case "cancel":
			if g.ctxs == 0 {
				continue
			}
			s["c"] = fmt.Sprintf("c%d", 1+g.r.N(g.ctxs))
		case "adv":
			s["ms"] = vt.Pick(g.r, g.p.advs)
		case "sub":
			if g.nsubs >= g.p.subs && g.r.P(60) {
				continue
			}
			g.nsubs++
			s["s"], s["topic"] = fmt.Sprintf("s%d", g.nsubs), vt.Pick(g.r, g.topics)
		case "unsub", "recv", "digest":
			if g.nsubs == 0 {
				continue
			}
			s["s"] = g.sub()
		case "pub":
			s["topic"], s["m"] = vt.Pick(g.r, g.topics), g.message()
		}
		if nested {
			if k == "adv" || k == "release" || k == "digest" || k == "cancel" && !g.p.digests() {
				continue
			}
			if k == "pub" || k == "recv" {
				s["to"] = 10
				s["ctx"] = ""
			}
			return s
		}
		if k == "digest" {
			s["d"], s["by"], s["at"] = "d1", vt.Pick(g.r, []string{"", "H1", "H2"}), 1+g.r.N(3)
			if s["by"] != "" && g.r.P(50) {
				s["d"] = "d0"
			}
			s["to"] = 0
		}
		if g.p.digests() && (k == "open" || k == "close" || k == "sub") {
			s["nw"] = false
		}
		if k == "pub" || k == "recv" || k == "digest" {
			s["to"], s["ctx"] = vt.Pick(g.r, g.p.tos), g.ctx(g.p.ctx)
			if g.r.P(g.p.dl) {
				s["dl"] = vt.Pick(g.r, []int{1, 5, 20, 50})
			}
			if g.r.P(g.p.hold) {
				s["hold"] = 1 + g.r.N(2)
			}
		}
		if k == "recv" || k == "digest" {
			s["h"] = ""
			switch {
			case g.r.P(g.p.block):
				s["h"] = "block"
			case g.r.P(10):
				s["h"] = vt.Pick(g.r, []string{"err", "err", "eof", "deadline", "canceled", "timeout", "inactive", "offline"})
			}
			if g.r.P(g.p.nested) {
				var in []M
				for n := 1 + g.r.N(2); n > 0; n-- {
					t := g.step(true)
					if g.p.digests() && (t["o"] == "open" || t["o"] == "close" || t["o"] == "sub") {
						continue
					}
					if c, _ := s["ctx"].(string); t["o"] == "cancel" && c != "" && g.r.P(60) {
						t["c"] = c
					}
					in = append(in, t)
				}
				s["nested"] = in
			}
		}
		return s
	}
}

func (g *gen) next(w *world) (M, bool) {
	if g.p.open && !g.opened {
		g.opened = true
		return M{"o": "open", "ctx": g.ctx(50)}, true
	}
	if g.steps == 0 {
		return nil, false
	}
	g.steps--
	if len(w.held) > 0 && g.r.P(50) {
		return M{"o": "resume", "nw": g.r.P(30)}, true
	}
	if g.r.P(g.p.seq) {
		var in []M
		for n := 2 + g.r.N(3); n > 0; n-- {
			t := g.step(true)
			if g.p.digests() && (t["o"] == "open" || t["o"] == "close" || t["o"] == "sub" || t["o"] == "cancel") {
				continue
			}
			in = append(in, t)
		}
		return M{"o": "seq", "steps": in, "nw": g.r.P(g.p.burst)}, true
	}
	if g.r.P(g.p.par) {
		var in []M
		t := g.step(true)
		for n := 2 + g.r.N(2); n > 0; n-- {
			if u := g.step(true); g.r.P(40) {
				t = u
			}
			c := M{}
			for k, v := range t {
				c[k] = v
			}
			if c["o"] == "sub" {
				g.nsubs++
				c["s"] = fmt.Sprintf("s%d", g.nsubs)
			}
			if c["o"] == "pub" {
				c["m"] = g.message()
			}
			in = append(in, c)
		}
		return M{"o": "par", "steps": in}, true
	}
	return g.step(false), true
}

var topicPairs = [][]string{{"T", "U"}, {"T", "U"}, {"T", "T.a"}, {"T", "t"}, {"T ", "T"}, {"a/b", "a"}, {"T", "T/#"}, {"*", "T"}, {"TT", "T"}}

func topicList(ts ...string) []any {
	out := []any{}
	for _, t := range ts {
		out = append(out, t)
	}
	return out
}

func histories(yield func(history)) {
	prop := os.Getenv("PROP")
	seed := uint64(vt.Env("VERIF_SEED", 1))
	scripts := vt.ReadScripts(os.Getenv("SCRIPTS"))
	// all of them, or an evenly spread part
	most, kept := vt.Env("SCRIPTS_MAX", 1<<30), 0
	for k, s := range scripts {
		if most < len(scripts) && k*most/len(scripts) < kept {
			continue
		}
		kept++
		cfg := s[0]
		yield(history{id: fmt.Sprintf("script%d", k), cfg: cfg, steps: s[1:], drain: true})
	}
	if vt.Env("RANDOM", 300) > 0 {
		for _, h := range directed(prop) {
			yield(h)
		}
	}
	p, ok := profiles[prop]
	if !ok {
		p = profiles["C06"]
	}
	for k := 0; k < vt.Env("RANDOM", 300); k++ {
		r := vt.NewRng(seed*1000003 + uint64(k))
		q := p
		nt := 1 + r.N(p.topics)
		if r.P(30) {
			q.burst = 0
		}
		ts := vt.Pick(r, topicPairs)[:nt]
		if prop != "C08" && r.P(4) {
			// many topics
			ts = nil
			for i := 10 + r.N(20); i > 0; i-- {
				ts = append(ts, fmt.Sprintf("T%d", i))
			}
			q.subs += len(ts) / 2
		}
		cfg := M{"cap": vt.Pick(r, p.caps), "pto": vt.Pick(r, p.pto), "topics": topicList(ts...)}
		g := newGen(r, q, ts, vt.Env("LENGTH", 25)/2+r.N(vt.Env("LENGTH", 25)))
		yield(history{id: fmt.Sprintf("random%d", k), cfg: cfg, next: g.next, drain: r.P(80)})
	}
}

// directed histories reach what short random ones do not.
func directed(prop string) []history {
	var out []history
	if prop == "C03" || prop == "C02" {
		caps := []int{-1, -7, 0, 1, 2, 7, 100}
		if n := vt.Env("FILL", 0); n > 0 && prop == "C03" {
			caps = append(caps, n)
		}
		for _, c := range caps {
			n := c
			if c < 0 {
				n = 100
			}
			steps := []M{{"o": "open", "ctx": ""}}
			for i := 0; i < n+2; i++ {
				steps = append(steps, M{"o": "pub", "topic": "T", "to": 5, "ctx": ""})
			}
			steps = append(steps, M{"o": "adv", "ms": 4}, M{"o": "adv", "ms": 10}, M{"o": "sub", "topic": "T", "s": "s1"})
			for i := 0; i < 2; i++ {
				steps = append(steps, M{"o": "recv", "s": "s1", "to": 5, "ctx": "", "h": ""})
			}
			steps = append(steps, M{"o": "adv", "ms": 10})
			for i := 0; i < 3; i++ {
				steps = append(steps, M{"o": "pub", "topic": "T", "to": 0, "ctx": ""})
			}
			steps = append(steps, M{"o": "adv", "ms": 4999}, M{"o": "adv", "ms": 1})
			out = append(out, history{id: fmt.Sprintf("fill%d", c), cfg: M{"cap": c, "pto": 0, "topics": topicList("T")}, steps: steps, drain: c < 200})
		}
	}
	if prop != "C08" {
		// more topics than there could be room for
		for k, n := range []int{20, 130} {
			for _, first := range []string{"sub", "pub"} {
				var ts []string
				for i := 0; i < n; i++ {
					ts = append(ts, fmt.Sprintf("T%d", i))
				}
				steps := []M{{"o": "open", "ctx": "c1"}}
				each := func(f func(i int) M) {
					for i := range ts {
						steps = append(steps, f(i))
					}
				}
				sub := func(i int) M { return M{"o": "sub", "topic": ts[i], "s": fmt.Sprintf("s%d", i)} }
				pub := func(i int) M { return M{"o": "pub", "topic": ts[i], "to": 3, "ctx": ""} }
				recv := func(i int) M { return M{"o": "recv", "s": fmt.Sprintf("s%d", i), "to": 3, "ctx": "", "h": ""} }
				if first == "sub" {
					each(sub)
					each(pub)
				} else {
					each(pub)
					each(sub)
				}
				each(recv)
				each(recv) // they wait for what is published next
				for i := n - 1; i >= 0; i-- {
					steps = append(steps, pub(i))
				}
				each(pub)
				each(func(i int) M {
					if i%3 == 0 {
						return M{"o": "unsub", "s": fmt.Sprintf("s%d", i)}
					}
					return recv(i)
				})
				steps = append(steps, M{"o": "adv", "ms": 5})
				if k == 0 {
					steps = append(steps, M{"o": "close"}, M{"o": "open", "ctx": ""})
					each(pub)
					each(recv)
					steps = append(steps, M{"o": "adv", "ms": 5})
				}
				out = append(out, history{id: fmt.Sprintf("topics%d%s", n, first), cfg: M{"cap": 1, "pto": 0, "topics": topicList(ts...)}, steps: steps, drain: true})
			}
		}
	}
	if prop == "C04" || prop == "C05" || prop == "C06" {
		// more subscribers than a buffer is likely to have room for
		for _, end := range []string{"", "close", "cancel"} {
			n := 130
			steps := []M{{"o": "open", "ctx": "c1"}}
			for i := 1; i <= n; i++ {
				steps = append(steps, M{"o": "sub", "topic": "T", "s": fmt.Sprintf("s%d", i)})
			}
			switch end {
			case "close":
				steps = append(steps, M{"o": "close"})
			case "cancel":
				steps = append(steps, M{"o": "cancel", "c": "c1"})
			}
			for i := 1; i <= n; i++ {
				steps = append(steps, M{"o": "unsub", "s": fmt.Sprintf("s%d", i)})
			}
			steps = append(steps, M{"o": "recv", "s": "s7", "to": 5, "ctx": "", "h": ""}, M{"o": "adv", "ms": 10})
			out = append(out, history{id: "many" + end, cfg: M{"cap": 1, "pto": 0, "topics": topicList("T")}, steps: steps, drain: end == ""})
		}
	}
	if prop == "C04" || prop == "C05" {
		// the same call made by several goroutines at the same moment, over and over
		for k := 0; k < vt.Env("STORMS", 8); k++ {
			steps := []M{{"o": "open", "ctx": ""}}
			for i := 1; i <= 40; i++ {
				s := M{"o": "unsub", "s": fmt.Sprintf("s%d", i)}
				if prop == "C04" {
					s = M{"o": "close"}
				}
				steps = append(steps, M{"o": "open", "ctx": ""}, M{"o": "sub", "topic": "T", "s": fmt.Sprintf("s%d", i)}, M{"o": "par", "steps": []M{s, s, s, s}})
			}
			out = append(out, history{id: fmt.Sprintf("storm%d", k), cfg: M{"cap": 1, "pto": 0, "topics": topicList("T")}, steps: steps, drain: true})
		}
	}
	if prop == "C06" {
		// more calls of one kind than there could be places for
		n := vt.Env("CROWD", 30)
		cat := func(parts ...[]M) []M {
			var ss []M
			for _, p := range parts {
				for _, s := range p {
					t := M{}
					for k, v := range s {
						t[k] = v
					}
					ss = append(ss, t)
				}
			}
			return ss
		}
		rep := func(s M) []M {
			var ss []M
			for i := 0; i < n; i++ {
				t := M{}
				for k, v := range s {
					t[k] = v
				}
				t["to"] = 100 + i // not all at the same moment
				ss = append(ss, t)
			}
			return ss
		}
		crowd := func(id string, cap int, parts ...[]M) {
			start := []M{{"o": "open", "ctx": "c1"}, {"o": "sub", "topic": "T", "s": "s1"}, {"o": "sub", "topic": "U", "s": "s2"}}
			out = append(out, history{id: "crowd" + id, cfg: M{"cap": cap, "pto": 0, "topics": topicList("T", "U")}, steps: append(start, cat(parts...)...), drain: false})
		}
		pub := func(t string, to int, c string, nw bool) M {
			return M{"o": "pub", "topic": t, "to": to, "ctx": c, "nw": nw}
		}
		recv := func(s string, to int, c, h string, nw bool) M {
			return M{"o": "recv", "s": s, "to": to, "ctx": c, "h": h, "nw": nw}
		}
		others := []M{pub("U", 20, "", true), recv("s2", 20, "", "", false), recv("s2", 20, "", "", true), pub("U", 20, "", false),
			{"o": "sub", "topic": "T", "s": "s3"}, {"o": "unsub", "s": "s3"}, {"o": "open", "ctx": ""}}
		pubs, recvs := rep(pub("T", 100, "", false)), rep(recv("s1", 100, "", "", false))
		later := []M{{"o": "adv", "ms": 3000}}
		for cap := 0; cap < 2; cap++ {
			crowd(fmt.Sprintf("pubs%d", cap), cap, pubs, others, []M{recv("s1", 5, "", "", false)}, later)
			crowd(fmt.Sprintf("recvs%d", cap), cap, recvs, others, []M{pub("T", 5, "", false)}, later)
			crowd(fmt.Sprintf("close%d", cap), cap, recvs, others, []M{{"o": "close"}})
		}
		crowd("handlers", n, pubs, rep(recv("s1", 100, "", "block", false)), others, []M{{"o": "unsub", "s": "s1"}, {"o": "release"}})
		crowd("cancel", 0, rep(pub("T", 100, "c2", false)), rep(recv("s2", 100, "c2", "", false)), []M{{"o": "cancel", "c": "c2"}}, others)
	}
	return out
}
