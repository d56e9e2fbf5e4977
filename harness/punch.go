package harness

// C18: punch datagrams.

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// Punch is a punch datagram, or a change of the callback
type Punch struct {
	WaitU int    `json:"wait"`
	From  int    `json:"from"` // 0-2 nodes, 3 connected peer, 4 stranger, 5 the peer which keeps silent otherwise
	To    int    `json:"to"`   // node
	Size  int    `json:"size"`
	Form  int    `json:"form"` // address: 0 string, 1 *net.UDPAddr, 2 *net.UDPAddr of 16 bytes
	ID    int    `json:"id"`   // number in the header, from peers
	N     int    `json:"n"`
	Op    string `json:"op,omitempty"` // "off", "on", "other" callback of node To; "bad" address
}

// PunchCase is the scenario
type PunchCase struct {
	LatU    int     `json:"lat"`
	Seed    uint32  `json:"seed"`
	Loss    int     `json:"loss"`
	Dup     int     `json:"dup"`
	SlowMs  int     `json:"slow"`
	Punches []Punch `json:"punches"`
	Silent  bool    `json:"silent"` // watch a silent peer end, punched all the time
	EveryMs int     `json:"every"`
	Hole    *Hole   `json:"hole,omitempty"`
}

// Hole is two nodes which punch each other while they connect
type Hole struct {
	GapU int `json:"gap"`
	By   int `json:"by"`   // 0, 1: who connects
	Dirs int `json:"dirs"` // who punches: 1, 2, 3 both
	Size int `json:"size"`
}

// runHole connects two nodes over a network full of punch datagrams
func runHole(e *Env, w *World, lat time.Duration, h Hole, x, y *Node) {
	stop := make(chan struct{})
	defer close(stop)
	for i, n := range []*Node{x, y} {
		if h.Dirs>>i&1 == 0 {
			continue
		}
		to := []*Node{y, x}[i]
		go func() {
			for range 300 {
				select {
				case <-stop:
					return
				default:
				}
				n.Tru.WriteToPunch(make([]byte, h.Size), to.Addr())
				time.Sleep(time.Duration(h.GapU) * time.Microsecond)
			}
		}()
	}
	w.Sleep(5 * time.Millisecond)
	if h.By == 1 {
		x, y = y, x
	}
	t0 := time.Now()
	ch, err := x.Tru.Connect(y.Addr())
	if err != nil || time.Since(t0) > 4*lat+100*time.Millisecond {
		e.Failf("connect", "connecting two nodes which punch each other: %v after %v", err, time.Since(t0))
		return
	}
	w.Sleep(lat + 5*time.Millisecond)
	back := y.ChannelTo(x.Addr())
	if back == nil {
		e.Failf("connect", "two nodes which punch each other connected, the server has no channel")
		return
	}
	for i := range 20 {
		_, err1 := ch.WriteTo([]byte(fmt.Sprint("forth ", i)))
		_, err2 := back.WriteTo([]byte(fmt.Sprint("back ", i)))
		if err1 != nil || err2 != nil {
			e.Failf("connect", "two nodes which punch each other connected, sending failed: %v %v", err1, err2)
			return
		}
		w.Sleep(400 * time.Millisecond)
	}
	w.Sleep(lat + 100*time.Millisecond)
	a, b := len(x.Msgs(ch)), len(y.Msgs(back))
	if a != 20 || b != 20 || ch.Destroyed() || back.Destroyed() {
		e.Failf("disturbed", "two nodes which punch each other connected: %d and %d of 20 messages arrived, channels destroyed: %v %v", b, a, ch.Destroyed(), back.Destroyed())
	}
	e.Class("nodes which connect punch each other")
}

func runPunch(e *Env, c PunchCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	nodes := []*Node{w.Node(), w.Node(), w.Node()} // the third is connected with nobody
	l := w.MustConnect(nodes[0], nodes[1], true)
	if l == nil {
		return
	}
	p, stranger := w.Peer(20, 9000), w.Peer(21, 9000)
	if _, err := p.Dial(nodes[0].Addr()); err != nil {
		e.Failf("connect", "reference client: %v", err)
		return
	}
	quiet, loud := w.Peer(22, 9000), w.Peer(23, 9000)
	var chQuiet, chLoud *tru.Channel
	if c.Silent {
		for _, q := range []*Peer{quiet, loud} {
			q.AutoPong = false
			if _, err := q.Dial(nodes[0].Addr()); err != nil {
				e.Failf("connect", "reference client: %v", err)
				return
			}
		}
		chQuiet, chLoud = nodes[0].ChannelTo(quiet.Address()), nodes[0].ChannelTo(loud.Address())
		if chQuiet == nil || chLoud == nil {
			e.Failf("connect", "a channel with a reference client is not listed")
			return
		}
	}
	w.Settle()
	stop := make(chan struct{})
	go p.Session(nodes[0].Addr()).KeepAlive(stop)
	e.Cleanup(func() { close(stop) })
	list := func() string {
		var s []string
		for i, n := range nodes {
			for _, ch := range n.Channels() {
				if ch != chQuiet && ch != chLoud {
					s = append(s, fmt.Sprintf("%d:%s", i, ch.Addr()))
				}
			}
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	before := list()
	ev0 := map[*Node]int{}
	for _, n := range nodes {
		ev0[n] = len(n.Events())
	}
	zero := time.Now()
	f := Faults{Seed: c.Seed, LossPct: c.Loss, DupPct: c.Dup, DupMs: 30, SlowPct: 50, SlowMs: c.SlowMs, UntilMs: 1 << 30}
	pol := f.policy(w, zero, func(d *Datagram) int {
		if d.Hdr.Status != stPunch {
			return -1
		}
		return 0
	})
	w.net.SetPolicy(pol)
	// who is called: periods of the node's own callback
	type period struct {
		from, to int // arrivals
		cb       int // 0 the node's, 1 another, -1 none
	}
	state := [3]int{}
	hist := [3][]period{}
	var other [3][]Event
	arr0 := len(w.net.ArrivedCopy())
	switchCb := func(i, cb int) {
		w.Sleep(lat + time.Duration(c.SlowMs+40)*time.Millisecond) // nothing under way
		hist[i] = append(hist[i], period{arr0, len(w.net.ArrivedCopy()), state[i]})
		arr0now := len(w.net.ArrivedCopy())
		hist[i][len(hist[i])-1].to = arr0now
		state[i] = cb
		switch cb {
		case -1:
			nodes[i].Tru.SetPunchCb(nil)
		case 0:
			nodes[i].Tru.SetPunchCb(nodes[i].punched)
		case 1:
			nodes[i].Tru.SetPunchCb(func(addr net.Addr, data []byte) {
				other[i] = append(other[i], Event{Addr: addr.String(), Data: append([]byte{}, data...)})
			})
		}
	}
	// messages meanwhile
	done := make(chan struct{})
	var sent [2][][]byte
	span := 0
	for _, x := range c.Punches {
		span += x.WaitU/1000 + 1
	}
	if c.Silent {
		span = max(span, 14_000)
	}
	go func() {
		defer close(done)
		chs := []*tru.Channel{l.CA, l.CB}
		for i := 0; int(time.Since(zero)/time.Millisecond) < span+200; i++ {
			x := []byte(fmt.Sprintf("message %d", i))
			if _, err := chs[i%2].WriteTo(x); err != nil {
				e.Failf("disturbed", "sending failed: %v", err)
				return
			}
			sent[i%2] = append(sent[i%2], x)
			time.Sleep(170 * time.Millisecond)
		}
	}()
	if c.Silent {
		go func() {
			for i := 0; int(time.Since(zero)/time.Millisecond) < span; i++ {
				loud.Send(nodes[0].Addr(), stPunch, 0, []byte(fmt.Sprint("I am here ", i)))
				nodes[0].Tru.WriteToPunch([]byte("and I"), loud.Address())
				time.Sleep(time.Duration(c.EveryMs) * time.Millisecond)
			}
		}()
	}
	punches := 0
	for i, x := range c.Punches {
		time.Sleep(time.Duration(x.WaitU) * time.Microsecond)
		to := nodes[x.To]
		switch x.Op {
		case "off":
			switchCb(x.To, -1)
			continue
		case "on":
			switchCb(x.To, 0)
			continue
		case "other":
			switchCb(x.To, 1)
			continue
		case "bad":
			n0 := len(w.net.SentCopy())
			if _, err := nodes[0].Tru.WriteToPunch([]byte("x"), []string{"no port", "10.0.0.1", "10.0.0.1:99999", "[10.0.0.1"}[x.Size%4]); err == nil {
				e.Failf("address", "no error for a wrong address")
			}
			for _, d := range w.net.SentCopy()[n0:] {
				if d.Hdr.Status == stPunch && d.From == nodes[0].Addr() && d.To != loud.Address() {
					e.Failf("address", "a punch datagram went to %s instead of a wrong address", d.To)
				}
			}
			continue
		}
		for k := range max(x.N, 1) {
			data := rnd(int(c.Seed)+i*100+k, x.Size)
			if x.From > 2 {
				[]*Peer{p, stranger, quiet}[x.From-3].Send(to.Addr(), stPunch, uint32(x.ID), data)
				punches++
				continue
			}
			var arg any = to.Addr()
			ua := &net.UDPAddr{IP: net.ParseIP(to.IP), Port: to.Port}
			if ip := ua.IP.To4(); ip != nil { // the shorter form
				ua.IP = ip
			}
			switch x.Form {
			case 1:
				arg = ua
			case 2:
				arg = &net.UDPAddr{IP: net.ParseIP(to.IP), Port: to.Port}
			}
			keep := append([]byte{}, data...)
			n0 := len(w.net.SentCopy())
			addr, err := nodes[x.From].Tru.WriteToPunch(data, arg)
			if err != nil || addr == nil || addr.String() != to.Addr() {
				e.Failf("address", "a punch datagram to %s: returned address %v, error %v", to.Addr(), addr, err)
			}
			if !bytes.Equal(keep, data) {
				e.Failf("buffer", "WriteToPunch changed the caller's buffer")
			}
			n := 0
			for _, d := range w.net.SentCopy()[n0:] {
				if d.Hdr.Status == stPunch && d.From == nodes[x.From].Addr() && d.To == to.Addr() {
					n++
					if !bytes.Equal(d.Data[4:], keep) {
						e.Failf("intact", "a punch datagram of %d bytes left with %s", len(keep), brief(d.Data))
					}
				}
			}
			if n != 1 {
				e.Failf("sent", "WriteToPunch sent %d datagrams", n)
			}
			punches++
			for j := range data {
				data[j] ^= 0x55
			}
		}
	}
	<-done
	for i := range nodes {
		switchCb(i, state[i])
	}
	w.Sleep(time.Second)
	arr := w.net.ArrivedCopy()
	got := 0
	for i, n := range nodes {
		var want, wantOther []Arrival
		for _, per := range hist[i] {
			_ = per
		}
		from := arr0
		for _, per := range hist[i] {
			for _, a := range arr[from:per.to] {
				if a.To == n.Addr() && parseHdr(a.Data).Status == stPunch {
					switch per.cb {
					case 0:
						want = append(want, a)
					case 1:
						wantOther = append(wantOther, a)
					}
				}
			}
			from = per.to
		}
		cmp := func(evs []Event, want []Arrival) {
			for k, ev := range evs {
				if k >= len(want) {
					e.Failf("extra", "%s: the punch callback was called %d times for %d datagrams", n.Name, len(evs), len(want))
					return
				}
				if ev.Addr != want[k].From || !bytes.Equal(ev.Data, want[k].Data[4:]) {
					e.Failf("intact", "%s: call %d of the punch callback: %s %s; received was %s %s", n.Name, k, ev.Addr, brief(ev.Data), want[k].From, brief(want[k].Data[4:]))
					return
				}
				if !ev.T.IsZero() && ev.T.Sub(want[k].T) > 10*time.Millisecond {
					e.Failf("late", "%s: the punch callback was called %v after the datagram", n.Name, ev.T.Sub(want[k].T))
				}
			}
			if len(evs) < len(want) {
				e.Failf("missing", "%s: the punch callback was called %d times for %d datagrams", n.Name, len(evs), len(want))
			}
			got += len(evs)
		}
		evs := n.Select(func(ev Event) bool { return ev.Kind == "punch" })
		cmp(evs, want)
		cmp(other[i], wantOther)
		if k, ok := mutated(evs); ok {
			e.Failf("intact", "%s: the bytes given to call %d of the punch callback changed later", n.Name, k)
		}
		for _, ev := range n.Events()[ev0[n]:] {
			switch {
			case ev.Kind == "punch":
			case ev.Kind == "msg" && bytes.HasPrefix(ev.Data, []byte("message ")) && (ev.Ch == l.CA || ev.Ch == l.CB):
			case ev.Kind == "err" && ev.Ch != nil && (ev.Ch == chQuiet || ev.Ch == chLoud):
			default:
				e.Failf("event", "%s: a punch datagram caused %s %s %s %v", n.Name, ev.Kind, ev.Addr, brief(ev.Data), ev.Err)
			}
		}
	}
	for side, n := range nodes[:2] {
		ch := []*tru.Channel{l.CA, l.CB}[side]
		var msgs []Event
		for _, ev := range n.Msgs(ch) {
			msgs = append(msgs, ev)
		}
		if k, dt := prefixOf(datas(msgs), sent[1-side], true); k != "" {
			e.Failf("disturbed", "%s: %s", n.Name, dt)
		}
	}
	if now := list(); now != before {
		e.Failf("channels", "channels before %q, after %q", before, now)
	}
	if nodes[2].Channels() != nil {
		e.Failf("channels", "a punch datagram created a channel")
	}
	if c.Silent {
		q, o := nodes[0].DestroyNotices(chQuiet, "node"), nodes[0].DestroyNotices(chLoud, "node")
		if len(q) != 1 {
			e.Failf("silent", "the channel with a silent peer has not ended")
		} else if len(o) != 1 {
			e.Failf("alive", "punch datagrams kept a channel alive: a silent peer's ended after %v", q[0].T.Sub(zero))
		} else if d := o[0].T.Sub(q[0].T); d > 600*time.Millisecond+2*lat || d < -600*time.Millisecond-2*lat {
			e.Failf("alive", "the channel with a silent peer ended after %v, with one which only sent punch datagrams after %v", q[0].T.Sub(zero), o[0].T.Sub(zero))
		}
	}
	if c.Hole != nil {
		runHole(e, w, lat, *c.Hole, nodes[0], nodes[2])
	}
	e.ClassIf(c.Silent, "liveness")
	e.ClassIf(c.Loss+c.Dup+c.SlowMs > 0, "faults")
	for _, h := range hist {
		e.ClassIf(len(h) > 1, "callback changed")
	}
	if got > 0 || c.Silent {
		e.NonTrivial()
	}
}

func init() {
	register(&Spec{
		ID:    "C18",
		Rule:  "Punch datagrams of 0-65503 bytes go between three nodes (addresses in every form, over loss, duplication and delay), from connected peers, strangers and with odd header numbers, while two of the nodes exchange messages and callbacks are removed, set and replaced; a peer silent but for punch datagrams is compared with a silent one; two nodes connect while they punch each other. Callbacks are compared with the datagrams which arrived, one by one. Non-trivial: the callback was called or liveness was compared.",
		Cases: map[Tier]int{Quick: 6000, Thorough: 150000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := PunchCase{LatU: rapid.SampledFrom([]int{0, 500, 20_000}).Draw(rt, "lat"), Seed: uint32(rapid.IntRange(0, 1000).Draw(rt, "seed"))}
			if rapid.Bool().Draw(rt, "faults") {
				c.Loss = rapid.SampledFrom([]int{0, 10, 40}).Draw(rt, "loss")
				c.Dup = rapid.SampledFrom([]int{0, 10, 60}).Draw(rt, "dup")
				c.SlowMs = rapid.SampledFrom([]int{0, 5, 100}).Draw(rt, "slow")
			}
			for i := rapid.IntRange(1, 20).Draw(rt, "n"); i > 0; i-- {
				x := Punch{WaitU: rapid.SampledFrom([]int{0, 0, 100, 30_000, 300_000}).Draw(rt, "wait"), From: rapid.IntRange(0, 5).Draw(rt, "from"), To: rapid.IntRange(0, 2).Draw(rt, "to"),
					Size: rapid.OneOf(rapid.IntRange(0, 100), rapid.IntRange(0, 2000), rapid.SampledFrom([]int{0, 1, 65503, 65504, 65500, 70_000})).Draw(rt, "size"),
					Form: rapid.IntRange(0, 2).Draw(rt, "form"), ID: rapid.SampledFrom([]int{0, 0, 1, idLimit - 1}).Draw(rt, "id"), N: rapid.SampledFrom([]int{1, 1, 1, 5, 40}).Draw(rt, "count"),
					Op: rapid.SampledFrom([]string{"", "", "", "", "", "", "", "off", "on", "other", "bad"}).Draw(rt, "op")}
				c.Punches = append(c.Punches, x)
			}
			if rapid.IntRange(0, 3).Draw(rt, "silent") == 0 {
				c.Silent, c.EveryMs = true, rapid.SampledFrom([]int{100, 500, 1700, 3000}).Draw(rt, "every")
			}
			if rapid.IntRange(0, 5).Draw(rt, "hole") == 3 {
				c.Hole = &Hole{GapU: rapid.SampledFrom([]int{200, 1000, 7000, 50_000}).Draw(rt, "gap"), By: rapid.IntRange(0, 1).Draw(rt, "by"),
					Dirs: rapid.IntRange(1, 3).Draw(rt, "dirs"), Size: rapid.SampledFrom([]int{0, 4, 36, 500}).Draw(rt, "size")}
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runPunch(e, decode[PunchCase](raw)) },
	})
}
