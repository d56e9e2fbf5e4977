package harness

// C06: the connect handshake under datagram faults, many clients, repeated and
// mutual connects.

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// ConnOp is one call of Connect
type ConnOp struct {
	From   int  `json:"from"`
	To     int  `json:"to"` // -1: nobody is there
	WaitMs int  `json:"wait"`
	ChanRd bool `json:"chanrd"`
	Before int  `json:"before"` // before it: 1 close the previous channel here, 2 at the other side
	N      int  `json:"n"`      // messages sent at once when connected
	Par    bool `json:"par"`    // the node does not wait for it before its next operation
}

// HsRule hits handshake datagrams
type HsRule struct {
	Node   int    `json:"node"` // the sender
	Peer   int    `json:"peer"` // the receiver
	Status int    `json:"status"`
	Copy   int    `json:"copy"` // which one, -1 all
	Action string `json:"act"`
	Ms     int    `json:"ms"`
	Dups   int    `json:"dups"`
}

// ConnCase is the scenario
type ConnCase struct {
	LatU  int      `json:"lat"`
	Nodes int      `json:"nodes"`
	Ops   []ConnOp `json:"ops"`
	Rules []HsRule `json:"rules"`
	Push  int      `json:"push"` // messages the server sends in its connect callback
	Talk  bool     `json:"talk"` // traffic on established channels all the time
}

type connRes struct {
	op     ConnOp
	i      int
	t0, t1 time.Time
	ch     *tru.Channel
	err    error
	badHit bool // something was lost
	sum    time.Duration
	errW   error
}

func runConnect(e *Env, c ConnCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	type push struct {
		node *Node
		ch   *tru.Channel
		n    int
	}
	var mu sync.Mutex
	var pushes []push
	for i := 0; i < c.Nodes; i++ {
		n := w.Node()
		n.OnConnect = func(ch *tru.Channel) {
			mu.Lock()
			k := len(pushes)
			pushes = append(pushes, push{n, ch, 0})
			mu.Unlock()
			for j := 0; j < c.Push; j++ {
				if _, err := ch.WriteTo([]byte(fmt.Sprintf("push%d-%d-%s", k, j, strings.Repeat("x", 70*(j%2))))); err == nil {
					mu.Lock()
					pushes[k].n++
					mu.Unlock()
				}
			}
		}
	}
	node := map[string]int{}
	for i, n := range w.nodes {
		node[n.Addr()] = i
	}
	dead := key(nodeIP(99), 999)
	hit := map[[2]int][]Datagram{} // datagrams a rule hit, by pair
	hits, last := 0, time.Now()
	w.net.SetPolicy(func(d *Datagram) Fate {
		if classOf(d.Hdr.Status) == "handshake" {
			a, b := node[d.From], node[d.To]
			for _, r := range c.Rules {
				if r.Node != a || r.Peer != b || r.Status != d.Hdr.Status || r.Copy != -1 && r.Copy != d.Copy {
					continue
				}
				pair := [2]int{min(a, b), max(a, b)}
				ms := time.Duration(r.Ms) * time.Millisecond
				mark := *d
				hits++
				switch r.Action {
				case "drop":
					hit[pair] = append(hit[pair], mark)
					return Fate{}
				case "delay":
					mark.Copies = []time.Duration{ms}
					hit[pair] = append(hit[pair], mark)
					if t := d.T.Add(lat + ms); t.After(last) {
						last = t
					}
					return Fate{Delays: []time.Duration{lat + ms}}
				default:
					f := Fate{Delays: []time.Duration{lat}}
					for k := 0; k <= r.Dups; k++ {
						f.Delays = append(f.Delays, lat+ms*time.Duration(k+1))
					}
					if t := d.T.Add(f.Delays[len(f.Delays)-1]); t.After(last) {
						last = t
					}
					return f
				}
			}
		}
		return Fate{Delays: []time.Duration{lat}}
	})
	var wg sync.WaitGroup
	var res []*connRes
	connect := func(n *Node, k int, op ConnOp, prev map[int]*tru.Channel) {
		r := &connRes{op: op, i: k, t0: time.Now()}
		to := dead
		if op.To >= 0 {
			to = w.nodes[op.To].Addr()
		}
		var args []tru.ReaderFunc
		if op.ChanRd {
			args = append(args, n.reader("chan"))
		}
		r.ch, r.err = n.Tru.Connect(to, args...)
		r.t1 = time.Now()
		if r.err == nil && r.ch != nil {
			if prev != nil {
				prev[op.To] = r.ch
			}
			for j := 0; j < op.N && r.errW == nil; j++ {
				_, r.errW = r.ch.WriteTo([]byte(fmt.Sprintf("op%d-%d-%s", k, j, strings.Repeat("y", 70*(j%2)))))
			}
		}
		mu.Lock()
		res = append(res, r)
		mu.Unlock()
	}
	for i, n := range w.nodes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			prev := map[int]*tru.Channel{}
			for k, op := range c.Ops {
				if op.From != i {
					continue
				}
				time.Sleep(time.Duration(op.WaitMs) * time.Millisecond)
				if ch := prev[op.To]; ch != nil {
					switch op.Before {
					case 1:
						ch.Close()
					case 2:
						if x := w.nodes[op.To].ChannelTo(n.Addr()); x != nil {
							x.Close()
						}
						time.Sleep(lat + time.Millisecond)
					}
				}
				if op.Par {
					wg.Add(1)
					go func() {
						defer wg.Done()
						connect(n, k, op, nil)
					}()
					time.Sleep(time.Nanosecond) // connects of one instant start in order
					continue
				}
				connect(n, k, op, prev)
			}
		}()
	}
	stopTalk := make(chan struct{})
	if c.Talk {
		go func() {
			t := time.NewTicker(70 * time.Millisecond)
			defer t.Stop()
			for {
				select {
				case <-t.C:
				case <-stopTalk:
					return
				}
				for _, n := range w.nodes {
					n.Tru.ForEachChannel(func(ch *tru.Channel) {
						// a channel may not be ready yet: only the server's
						if ch.ServerMode() {
							ch.WriteTo([]byte("talk"))
						}
					})
				}
			}
		}()
	}
	wg.Wait()
	w.Settle()
	ended := time.Now()
	w.net.mu.Lock()
	if last.After(ended) {
		ended = last
	}
	w.net.mu.Unlock()
	// shortly after: everything sent at once has arrived
	close(stopTalk)
	w.Sleep(time.Until(ended) + 8*time.Second + 4*lat)

	// judge each call
	sameOf := func(r *connRes) (l []*connRes) {
		for _, q := range res {
			if q != r && (q.op.From == r.op.From && q.op.To == r.op.To || q.op.From == r.op.To && q.op.To == r.op.From) {
				l = append(l, q)
			}
		}
		return
	}
	oks, fails, replaced := 0, 0, 0
	for _, r := range res {
		name := fmt.Sprintf("connect %d (%d to %d) at %v", r.i, r.op.From, r.op.To, w.Since(r.t0))
		if d := r.t1.Sub(r.t0); d > 5*time.Second+200*time.Millisecond {
			e.Failf("slow", "%s returned after %v", name, d)
		}
		if (r.ch != nil) == (r.err != nil) {
			e.Failf("result", "%s returned channel %v and error %v", name, r.ch != nil, r.err)
			continue
		}
		// reasons to fail
		reason := r.op.To < 0
		sum := 4 * lat
		if r.op.To >= 0 {
			pair := [2]int{min(r.op.From, r.op.To), max(r.op.From, r.op.To)}
			// peers which connect to each other use one of the two handshakes
			// (which one is a matter of chance, and it may be the disturbed one)
			from, mutual := r.t0, false
			for again := true; again; {
				again = false
				for _, q := range sameOf(r) {
					mutual = mutual || q.op.From == r.op.To
					if q.t0.Before(from) && !q.t1.Before(from) {
						from, again = q.t0, true
					}
				}
			}
			w.net.mu.Lock()
			for _, h := range hit[pair] {
				if h.T.Before(from) || h.T.After(r.t1) {
					continue
				}
				if len(h.Copies) == 0 || mutual {
					reason = true
				} else {
					sum += h.Copies[0]
				}
			}
			w.net.mu.Unlock()
			if sum > 4800*time.Millisecond {
				reason = true
			}
		}
		if r.err != nil {
			fails++
			if !reason {
				e.Failf("failed", "%s failed although nothing was lost: %v", name, r.err)
			}
			continue
		}
		oks++
		if r.op.To < 0 {
			e.Failf("result", "%s succeeded, nobody is there", name)
			continue
		}
		if r.ch.Addr().String() != w.nodes[r.op.To].Addr() {
			e.Failf("result", "%s returned a channel to %s", name, r.ch.Addr())
		}
		// the reader given to Connect is the channel's own
		if r.op.ChanRd && !r.ch.Destroyed() {
			count := func(level string) int {
				return len(w.nodes[r.op.From].Select(func(ev Event) bool { return ev.Kind == "msg" && ev.Ch == r.ch && ev.Level == level }))
			}
			if k, l := count("chan"), count("node"); k != l {
				e.Failf("reader", "%s: the reader given to Connect got %d messages, the node's reader %d", name, k, l)
			}
		}
		others := sameOf(r)
		was := false
		for _, q := range others {
			// another connect of the same peers, or a close, came later
			if !q.t1.Before(r.t0) {
				was = true
			}
		}
		if was {
			replaced++
			// peers which connect to each other undisturbed both get a channel
			if len(others) != 1 || others[0].op.From != r.op.To || hits > 0 || r.ch.Destroyed() {
				continue
			}
			e.Class("connected to each other")
		}
		// the channel may be that of a connect of the peer, which gave it up
		given := false
		for _, q := range others {
			given = given || q.op.From == r.op.To && q.err != nil && r.ch.ServerMode()
		}
		if given {
			e.Class("given up by the peer")
			continue
		}
		if r.ch.Destroyed() {
			e.Failf("destroyed", "%s succeeded, its channel is destroyed", name)
			continue
		}
		if r.errW != nil {
			e.Failf("write", "%s succeeded, writing at once: %v", name, r.errW)
		}
		// messages sent at once
		dst := w.nodes[r.op.To]
		evs := dst.Select(func(ev Event) bool {
			return ev.Kind == "msg" && ev.Level == "node" && strings.HasPrefix(string(ev.Data), fmt.Sprintf("op%d-", r.i))
		})
		if len(evs) != r.op.N {
			e.Failf("exchange", "%s: the client sent %d messages at once, the server got %d", name, r.op.N, len(evs))
			continue
		}
		for j, ev := range evs {
			if !strings.HasPrefix(string(ev.Data), fmt.Sprintf("op%d-%d-", r.i, j)) || ev.Addr != w.nodes[r.op.From].Addr() {
				e.Failf("exchange", "%s: message %d is %q from %s", name, j, short(string(ev.Data), 20), ev.Addr)
			}
			if d := ev.T.Sub(r.t1); d > lat+100*time.Millisecond {
				e.Failf("exchange", "%s: a message sent at once arrived after %v", name, d)
			}
		}
	}
	// pushes of servers
	for k, p := range pushes {
		if p.ch.Destroyed() {
			continue
		}
		i, ok := node[p.ch.Addr().String()]
		if !ok {
			e.Failf("exchange", "a channel to %s was announced", p.ch.Addr())
			continue
		}
		evs := w.nodes[i].Select(func(ev Event) bool {
			return ev.Kind == "msg" && ev.Level == "node" && strings.HasPrefix(string(ev.Data), fmt.Sprintf("push%d-", k))
		})
		if len(evs) != p.n || p.n != c.Push {
			e.Failf("exchange", "the server %s sent %d of %d messages when told of the connection, the client got %d", p.node.Name, p.n, c.Push, len(evs))
		}
		if p.ch.ServerMode() != true {
			e.Failf("role", "the connect callback got a client mode channel")
		}
	}
	// connect callbacks only for channels which exist(ed), once each
	for _, n := range w.nodes {
		seen := map[*tru.Channel]bool{}
		for _, ev := range n.Select(func(ev Event) bool { return ev.Kind == "connect" }) {
			if ev.Err != nil || ev.Ch == nil || seen[ev.Ch] {
				e.Failf("connect-callback", "%s: repeated or bad connect callback for %s: %v", n.Name, ev.Addr, ev.Err)
			}
			seen[ev.Ch] = true
		}
	}
	// every pair: both list the channel and it works, or neither
	links := 0
	for i, a := range w.nodes {
		for j, b := range w.nodes {
			if i >= j {
				continue
			}
			ca, cb := a.ChannelTo(b.Addr()), b.ChannelTo(a.Addr())
			if (ca == nil) != (cb == nil) {
				e.Failf("half-open", "at the end %s lists the channel with %s: %v, the other side: %v", a.Name, b.Name, ca != nil, cb != nil)
				continue
			}
			if ca == nil {
				for _, r := range res {
					if r.err == nil && r.ch != nil && !r.ch.Destroyed() && (r.op.From == i && r.op.To == j || r.op.From == j && r.op.To == i) {
						e.Failf("unlisted", "connect %d succeeded, at the end its channel is not listed", r.i)
					}
				}
				continue
			}
			links++
			ca.WriteTo([]byte("final-" + a.Name + b.Name))
			cb.WriteTo([]byte("final-" + b.Name + a.Name))
			// a longer one which cannot be decrypted with another key
			ca.WriteTo([]byte("final-" + a.Name + b.Name + strings.Repeat("z", 100)))
			cb.WriteTo([]byte("final-" + b.Name + a.Name + strings.Repeat("z", 100)))
		}
		if l := a.Channels(); len(l) > len(c.Ops) {
			e.Failf("channels", "%s lists %d channels after %d connects", a.Name, len(l), len(c.Ops))
		}
	}
	w.Sleep(2*lat + 100*time.Millisecond)
	for i, a := range w.nodes {
		for j, b := range w.nodes {
			if i == j || a.ChannelTo(b.Addr()) == nil {
				continue
			}
			evs := b.Select(func(ev Event) bool {
				return ev.Kind == "msg" && ev.Level == "node" && strings.HasPrefix(string(ev.Data), "final-"+a.Name+b.Name)
			})
			if len(evs) != 2 {
				e.Failf("exchange", "at the end %s sent 2 messages to %s, %d arrived", a.Name, b.Name, len(evs))
			}
		}
	}
	// nothing but what was sent
	for _, n := range w.nodes {
		for _, ev := range n.Events() {
			if ev.Kind == "msg" && !containsAny(string(ev.Data), "op", "push", "final-", "talk") {
				e.Failf("garbage", "%s got a message %s nobody sent", n.Name, brief(ev.Data))
			}
			if ev.Kind == "connect" && node[ev.Addr] == 0 && ev.Addr != w.nodes[0].Addr() {
				e.Failf("connect-callback", "%s was told of a connection from %s", n.Name, ev.Addr)
			}
		}
	}
	e.ClassIf(oks > 0, "connected")
	e.ClassIf(fails > 0, "connect failed")
	e.ClassIf(replaced > 0, "connected again")
	e.ClassIf(c.Nodes > 2, "several clients")
	for _, op := range c.Ops {
		e.ClassIf(op.Par, "parallel")
	}
	e.ClassIf(links > 3, "more than 3 channels at the end")
	e.ClassIf(c.Push > 0, "server sends first")
	for _, h := range c.Rules {
		if hits > 0 {
			e.Class("handshake %d %s", h.Status, h.Action)
		}
	}
	if hits > 0 && oks+fails > 0 {
		e.NonTrivial()
	}
}

func drawHsRule(rt *rapid.T, a, b int) HsRule {
	r := HsRule{Node: a, Peer: b, Status: rapid.IntRange(0, 3).Draw(rt, "status"),
		Copy:   rapid.SampledFrom([]int{0, 0, 0, 1, 2, -1}).Draw(rt, "copy"),
		Action: rapid.SampledFrom([]string{"drop", "delay", "dup", "dup"}).Draw(rt, "act"),
		Ms:     rapid.SampledFrom([]int{0, 1, 30, 400, 1500, 4200, 4900, 5100, 8000}).Draw(rt, "ms")}
	if r.Status == stServerAnswer || r.Status == stConnectDone {
		r.Node, r.Peer = b, a
	}
	if r.Action == "dup" {
		r.Dups = rapid.IntRange(0, 3).Draw(rt, "dups")
		r.Ms = min(r.Ms, 4900)
	}
	return r
}

func drawConnect(rt *rapid.T) (c ConnCase) {
	c.LatU = rapid.SampledFrom([]int{0, 200, 20_000, 90_000, 350_000}).Draw(rt, "lat")
	c.Push = rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "push")
	op := func(from, to int) ConnOp {
		return ConnOp{From: from, To: to, ChanRd: rapid.Bool().Draw(rt, "chanrd"), N: rapid.IntRange(0, 3).Draw(rt, "n")}
	}
	switch rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8}).Draw(rt, "kind") {
	case 8: // several connects of one node at the same time
		c.Nodes = rapid.IntRange(2, 4).Draw(rt, "nodes")
		for i := rapid.IntRange(2, 5).Draw(rt, "times"); i > 0; i-- {
			o := op(1, 0)
			if c.Nodes > 2 {
				o.From, o.To = rapid.SampledFrom([]int{1, 1, c.Nodes - 1}).Draw(rt, "from"), 0
				if o.From == 1 && rapid.IntRange(0, 2).Draw(rt, "other") == 0 {
					o.To = 2
				}
				if o.From == o.To {
					o.To = 0
				}
			}
			o.Par = true
			o.WaitMs = rapid.SampledFrom([]int{0, 0, 0, 1, 20, 90, 270, 500, 2000, 4900}).Draw(rt, "wait")
			c.Ops = append(c.Ops, o)
		}
	case 7: // the same, the next by the other side
		c.Nodes = 2
		c.Ops = append(c.Ops, op(1, 0), op(0, 1))
		c.Ops[1].WaitMs = rapid.SampledFrom([]int{2600, 4000, 4600, 4900, 5010, 5100, 5200, 5500, 6000}).Draw(rt, "wait")
		if rapid.Bool().Draw(rt, "again") {
			o := op(1, 0)
			o.WaitMs = rapid.SampledFrom([]int{0, 0, 10, 300, 900}).Draw(rt, "wait")
			c.Ops = append(c.Ops, o)
		}
		for st := 0; st < 4; st++ {
			r := HsRule{Node: 1, Status: st, Action: "delay", Ms: rapid.SampledFrom([]int{0, 0, 400, 1200, 2600, 4200, 4700, 4990, 5300, 6000}).Draw(rt, "late")}
			if st == stServerAnswer || st == stConnectDone {
				r.Node, r.Peer = 0, 1
			}
			if r.Ms > 0 {
				c.Rules = append(c.Rules, r)
			}
		}
		return
	case 6: // datagrams of an attempt which failed arrive during or after the next
		c.Nodes = 2
		for i := rapid.IntRange(2, 3).Draw(rt, "times"); i > 0; i-- {
			o := op(1, 0)
			o.WaitMs = rapid.SampledFrom([]int{0, 0, 10, 300, 900}).Draw(rt, "wait")
			c.Ops = append(c.Ops, o)
		}
		for st := 0; st < 4; st++ {
			r := HsRule{Node: 1, Status: st, Action: "delay", Ms: rapid.SampledFrom([]int{0, 0, 400, 1200, 2600, 4200, 4700, 4990, 5300, 6000}).Draw(rt, "late")}
			if st == stServerAnswer || st == stConnectDone {
				r.Node, r.Peer = 0, 1
			}
			if r.Ms > 0 {
				c.Rules = append(c.Rules, r)
			}
		}
		return
	case 0, 1: // one pair
		c.Nodes = 2
		o := op(1, 0)
		if rapid.IntRange(0, 9).Draw(rt, "dead") == 0 {
			o.To = -1
		}
		c.Ops = append(c.Ops, o)
		c.Talk = rapid.IntRange(0, 4).Draw(rt, "talk") == 0
	case 2: // many clients
		c.Nodes = rapid.IntRange(3, 8).Draw(rt, "nodes")
		for i := 1; i < c.Nodes; i++ {
			o := op(i, 0)
			o.WaitMs = rapid.SampledFrom([]int{0, 0, 0, 5, 40, 700}).Draw(rt, "wait")
			c.Ops = append(c.Ops, o)
		}
	case 3, 4: // again and again
		c.Nodes = 2
		for i := rapid.IntRange(2, 4).Draw(rt, "times"); i > 0; i-- {
			o := op(1, 0)
			o.WaitMs = rapid.SampledFrom([]int{0, 0, 10, 900, 7000}).Draw(rt, "wait")
			o.Before = rapid.IntRange(0, 2).Draw(rt, "before")
			c.Ops = append(c.Ops, o)
		}
	case 5: // each other
		c.Nodes = 2
		a, b := op(1, 0), op(0, 1)
		b.WaitMs = rapid.SampledFrom([]int{0, 0, 0, 1, 20, 90, 180, 270, 500}).Draw(rt, "wait")
		c.Ops = append(c.Ops, a, b)
	}
	if rapid.IntRange(0, 5).Draw(rt, "faulty") > 0 {
		for i := rapid.IntRange(1, 4).Draw(rt, "rules"); i > 0; i-- {
			a, b := rapid.IntRange(1, c.Nodes-1).Draw(rt, "rnode"), 0
			if len(c.Ops) == 2 && c.Ops[0].From == c.Ops[1].To && rapid.Bool().Draw(rt, "rswap") {
				a, b = b, a
			}
			r := drawHsRule(rt, a, b)
			if len(c.Ops) > 0 && c.Ops[0].Par && r.Action != "dup" {
				// which of the two is the later one depends on the order of arrival
				r.Action, r.Ms = "dup", min(r.Ms, 4900)
			}
			c.Rules = append(c.Rules, r)
		}
	}
	return
}

func init() {
	register(&Spec{
		ID: "C06",
		Rule: "One or several nodes connect to a node, again after a close or without one, to each other at the same time, or to nobody, while handshake datagrams are lost, delayed (up to 8 s) and duplicated by generated rules. " +
			"Each Connect must return in time, with a channel on which messages of both sides sent at once arrive, or with an error which must have a reason; in the end each pair of nodes has a working channel at both sides or none at either. Non-trivial: a rule hit a handshake datagram.",
		Cases: map[Tier]int{Quick: 17000, Thorough: 270000},
		Draw:  func(rt *rapid.T, tier Tier) any { return drawConnect(rt) },
		Run:   func(e *Env, raw jsonRaw) { runConnect(e, decode[ConnCase](raw)) },
	})
}
