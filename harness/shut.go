package harness

// C22: closing a node.

import (
	"errors"
	"fmt"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// ShutPeer is something the node is in contact with
type ShutPeer struct {
	Kind   string `json:"kind"`
	StartU int    `json:"start"` // when contact is made
	N      [2]int `json:"n"`     // messages to and from the node
	GapU   int    `json:"gap"`
	Size   int    `json:"size"`
	Deliv  bool   `json:"deliv"`
	TmoMs  int    `json:"tmo"`  // delivery timeout, 0 the default
	CutU   int    `json:"cut"`  // nothing arrives from then on, negative never
	Acks   bool   `json:"acks"` // only acknowledgements are lost
	DelayU int    `json:"delay"`
	EndU   int    `json:"end,omitempty"` // when the other side closes the channel, 0 never
}

// ShutCase is the scenario
type ShutCase struct {
	LatU   int        `json:"lat"`
	Peers  []ShutPeer `json:"peers"`
	AtU    int        `json:"at"`
	How    string     `json:"how"`
	K      int        `json:"k"`
	Block  int        `json:"block"` // the reader blocks that long in its first message, ms
	Stat   int        `json:"stat"`  // statistics: 1 printed from the start, 2 started and stopped, 3 started by two goroutines
	Again  bool       `json:"again"`
	Rebind string     `json:"rebind"`
	Stray  bool       `json:"stray"`
	ChanRd bool       `json:"chanrd"`
}

func goroutinesCreated() (uint64, bool) {
	s := []metrics.Sample{{Name: "/sched/goroutines-created:goroutines"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0, false
	}
	return s[0].Value.Uint64(), true
}

type shutDeliv struct {
	who   string
	t     time.Time
	tmo   time.Duration
	ok    bool // the write succeeded
	calls []time.Time
	errs  []error
}

func runShut(e *Env, c ShutCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	var params []any
	if c.Stat == 1 {
		params = append(params, tru.Stat(true))
	}
	x := w.Node(params...)
	xep := w.net.hosts[x.Addr()]
	if c.Stat >= 2 {
		for range c.Stat - 1 {
			x.Tru.StatisticPrint()
		}
		if c.Stat == 2 {
			x.Tru.StatisticPrintStop()
			x.Tru.StatisticPrintStop()
		}
	}
	zero := time.Now()
	var mu sync.Mutex
	var delivs []*shutDeliv
	chans := map[*tru.Channel]bool{} // channels of x the application knows
	chanRd := map[*tru.Channel]bool{}
	var snapshot []*tru.Channel
	var closeFrom, closeT time.Time
	var closeSeq int
	returned := false
	var started atomic.Bool
	closeIt := func() {
		if !started.Swap(true) {
			mu.Lock()
			closeFrom = time.Now()
			mu.Unlock()
			l := x.Channels()
			mu.Lock()
			for _, ch := range l {
				if !ch.Destroyed() {
					snapshot = append(snapshot, ch)
				}
			}
			mu.Unlock()
		}
		x.mu.Lock()
		x.closed = true
		x.mu.Unlock()
		x.Tru.Close()
		w.net.mu.Lock()
		seq := w.net.nSent
		w.net.mu.Unlock()
		mu.Lock()
		closeT, closeSeq, returned = time.Now(), max(seq, closeSeq), true
		mu.Unlock()
	}
	var unblocked time.Time
	blocks := 0
	msgs := 0
	x.OnMsg = func(ev Event) bool {
		if ev.Level != "node" {
			return false
		}
		mu.Lock()
		msgs++
		k := msgs
		mu.Unlock()
		if c.How == "msg" && k == c.K {
			closeIt()
		} else if c.Block > 0 && k == 1 {
			blocks++
			time.Sleep(time.Duration(c.Block) * time.Millisecond)
			mu.Lock()
			unblocked = time.Now()
			mu.Unlock()
		}
		return false
	}
	conns := 0
	x.OnConnect = func(ch *tru.Channel) {
		mu.Lock()
		chans[ch] = true
		conns++
		k := conns
		mu.Unlock()
		if c.How == "connect" && k == c.K {
			closeIt()
		}
	}
	var closing atomic.Bool
	x.OnErr = func(ev Event) {
		if ev.Ch == nil {
			closing.Store(true)
		}
		if c.How == "notice" && ev.Ch != nil && !started.Load() {
			closeIt()
		} else if c.Again && closing.Load() && (ev.Ch == nil || c.K == 1) {
			x.Tru.Close()
		}
	}
	delivered := 0
	write := func(who string, ch *tru.Channel, p ShutPeer, data []byte) error {
		if !p.Deliv {
			_, err := ch.WriteTo(data)
			return err
		}
		d := &shutDeliv{who: who, t: time.Now(), tmo: tru.DeliveryTimeout}
		args := []any{func(_ *tru.Packet, err error) {
			mu.Lock()
			d.calls = append(d.calls, time.Now())
			d.errs = append(d.errs, err)
			delivered++
			k := delivered
			mu.Unlock()
			if c.How == "delivery" && k == c.K {
				closeIt()
			}
		}}
		if p.TmoMs > 0 {
			d.tmo = time.Duration(p.TmoMs) * time.Millisecond
			args = append(args, d.tmo)
		}
		mu.Lock()
		delivs = append(delivs, d)
		mu.Unlock()
		_, err := ch.WriteTo(data, args...)
		d.ok = err == nil
		return err
	}
	// the network: cuts per peer
	cutOf := map[string]ShutPeer{}
	w.net.SetPolicy(func(d *Datagram) Fate {
		other := d.To
		if d.To == x.Addr() {
			other = d.From
		}
		ok := Fate{Delays: []time.Duration{lat}}
		p, has := cutOf[other]
		if has && p.CutU >= 0 && d.T.Sub(zero) >= time.Duration(p.CutU)*time.Microsecond && (!p.Acks || d.Hdr.Status == stAck) {
			return Fate{}
		}
		return ok
	})
	var wg sync.WaitGroup
	type partner struct {
		p    ShutPeer
		n    *Node
		peer *Peer
		ch   *tru.Channel // x's
		pch  *tru.Channel // the partner's
	}
	var parts []*partner
	connectErr := func(name string, start time.Time, err error) {
		mu.Lock()
		defer mu.Unlock()
		if !started.Load() && err != nil {
			e.Failf("connect", "%s: connecting over an undisturbed network: %v", name, err)
		}
		if d := time.Since(start); d > 5*time.Second+50*time.Millisecond {
			e.Failf("hang", "%s: Connect returned after %v", name, d)
		}
	}
	kinds := map[string]bool{}
	for i, p := range c.Peers {
		pt := &partner{p: p}
		parts = append(parts, pt)
		addr := ""
		switch p.Kind {
		case "client", "server":
			pt.n = w.Node()
			addr = pt.n.Addr()
		default:
			pt.peer = w.Peer(40+i, 9000)
			addr = pt.peer.Address()
		}
		w.net.mu.Lock()
		cutOf[addr] = p
		w.net.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(p.StartU) * time.Microsecond)
			mu.Lock()
			kinds[p.Kind] = true
			mu.Unlock()
			start := time.Now()
			dead := p.CutU >= 0 && p.CutU < p.StartU+4*c.LatU+10
			var rd []tru.ReaderFunc
			if c.ChanRd {
				rd = append(rd, x.reader("chan"))
			}
			var far func(b []byte) error // the partner's send
			switch p.Kind {
			case "server":
				ch, err := x.Tru.Connect(addr, rd...)
				if !dead {
					connectErr(x.Name, start, err)
				}
				if err != nil {
					return
				}
				mu.Lock()
				chans[ch], chanRd[ch] = true, c.ChanRd
				mu.Unlock()
				pt.ch = ch
				time.Sleep(time.Microsecond)
				if pt.pch = pt.n.ChannelTo(x.Addr()); pt.pch == nil {
					return
				}
				far = func(b []byte) error { return write(pt.n.Name, pt.pch, p, b) }
			case "client":
				ch, err := pt.n.Tru.Connect(x.Addr())
				if !dead {
					connectErr(pt.n.Name, start, err)
				}
				if err != nil {
					return
				}
				pt.pch = ch
				pt.ch = x.ChannelTo(addr)
				far = func(b []byte) error { return write(pt.n.Name, ch, p, b) }
			case "peer":
				pt.peer.AutoAck, pt.peer.AutoPong = !p.Acks, !p.Acks
				s := pt.peer.StartDial(x.Addr())
				done := false
				for i := 0; i < 300 && !done; i++ {
					time.Sleep(lat + time.Millisecond)
					pt.peer.mu.Lock()
					done = s.Done
					pt.peer.mu.Unlock()
				}
				if !done {
					return
				}
				pt.ch = x.ChannelTo(addr)
				far = func(b []byte) error { s.Message(b, 1000); return nil }
			case "peerserver":
				pt.peer.AutoAck, pt.peer.AutoPong = !p.Acks, !p.Acks
				ch, err := x.Tru.Connect(addr, rd...)
				if !dead {
					connectErr(x.Name, start, err)
				}
				if err != nil {
					return
				}
				mu.Lock()
				chans[ch], chanRd[ch] = true, c.ChanRd
				mu.Unlock()
				pt.ch = ch
				if s := pt.peer.Session(x.Addr()); s != nil {
					far = func(b []byte) error { s.Message(b, 1000); return nil }
				}
			case "half-in": // a handshake which a client leaves open, or goes on with late
				pt.peer.OnPacket = func(pk PeerPacket) bool {
					if pk.Hdr.Status != stServerAnswer {
						return false
					}
					if p.DelayU > 0 {
						time.AfterFunc(time.Duration(p.DelayU)*time.Microsecond, func() { pt.peer.answerServer(pk) })
					}
					return true
				}
				pt.peer.StartDial(x.Addr())
				return
			case "half-out": // a handshake which a server leaves open, or goes on with late
				n := 0
				pt.peer.OnPacket = func(pk PeerPacket) bool {
					if pk.Hdr.Status != stConnect && pk.Hdr.Status != stClientAnswer {
						return false
					}
					n++
					if n == 2-p.N[0]%2 {
						if p.DelayU > 0 {
							time.AfterFunc(time.Duration(p.DelayU)*time.Microsecond, func() {
								if pk.Hdr.Status == stConnect {
									pt.peer.answerConnect(pk)
								} else {
									pt.peer.acceptClient(pk)
								}
							})
						}
						return true
					}
					return false
				}
				ch, err := x.Tru.Connect(addr, rd...)
				if d := time.Since(start); d > 5*time.Second+50*time.Millisecond {
					e.Failf("hang", "Connect returned after %v", d)
				}
				if err == nil {
					mu.Lock()
					chans[ch], chanRd[ch] = true, c.ChanRd
					mu.Unlock()
				}
				return
			}
			if p.EndU > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(zero.Add(time.Duration(p.EndU) * time.Microsecond).Sub(time.Now()))
					switch {
					case pt.pch != nil:
						pt.pch.Close()
					case pt.peer != nil:
						pt.peer.Send(x.Addr(), stDisconnect, 0, nil)
					}
				}()
			}
			// traffic
			var tw sync.WaitGroup
			run := func(side int, send func(b []byte) error) {
				tw.Add(1)
				go func() {
					defer tw.Done()
					for k := range p.N[side] {
						if err := send([]byte(fmt.Sprintf("%d-%d-%d-%s", i, side, k, make([]byte, p.Size)))); err != nil {
							return
						}
						time.Sleep(time.Duration(p.GapU) * time.Microsecond)
					}
				}()
			}
			if far != nil {
				run(0, far)
			}
			if pt.ch != nil {
				run(1, func(b []byte) error { return write(x.Name, pt.ch, p, b) })
			}
			tw.Wait()
		}()
	}
	time.Sleep(time.Duration(c.AtU) * time.Microsecond)
	switch c.How {
	case "main":
		closeIt()
	case "many":
		var cw sync.WaitGroup
		for range c.K + 1 {
			cw.Add(1)
			go func() { defer cw.Done(); closeIt() }()
		}
		cw.Wait()
	case "foreach":
		x.Tru.ForEachChannel(func(ch *tru.Channel) { closeIt() })
	case "closing": // while channels are being closed
		for _, ch := range x.Channels() {
			wg.Add(1)
			go func() { defer wg.Done(); ch.Close() }()
		}
		closeIt()
	case "notice":
		if l := x.Channels(); len(l) > 0 {
			mu.Lock()
			snapshot = append(snapshot, l[0])
			mu.Unlock()
			l[0].Close()
		}
	case "msg", "connect", "delivery":
		for i := 0; i < 20 && !started.Load(); i++ {
			time.Sleep(50 * time.Millisecond)
		}
	}
	if !started.Load() {
		closeIt()
	}
	for range 2400 {
		mu.Lock()
		r := returned
		mu.Unlock()
		if r {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	mu.Lock()
	hung := !returned
	mu.Unlock()
	if hung {
		e.Failf("hang", "Close did not return within 2 minutes")
		return
	}
	// the port is free at once
	var again *Node
	var holder *Endpoint
	switch c.Rebind {
	case "node":
		var err error
		again, err = w.TryNode(0, x.Port)
		if err != nil {
			e.Failf("port", "a new node on the port of a closed one: %v", err)
			return
		}
	default:
		ep, err := w.net.Bind(x.IP, x.Port)
		if err != nil {
			e.Failf("port", "the port is still in use: %v", err)
			return
		}
		holder = ep
	}
	if c.Again {
		x.Tru.Close()
	}
	if c.Stray && holder != nil {
		// the peers go on sending
		for _, pt := range parts {
			if pt.peer != nil {
				for id := range uint32(3) {
					pt.peer.Send(x.Addr(), stData, id, rnd(int(id), 40))
					pt.peer.Send(x.Addr(), stPing, 0, nil)
				}
			}
		}
	}
	// its operations fail or do nothing
	for ch := range chans {
		if _, err := ch.WriteTo([]byte("late")); err == nil {
			e.Failf("closed", "a write on a channel of a closed node succeeded")
		}
		ch.Close()
	}
	if l := x.Channels(); len(l) > 0 {
		e.Failf("closed", "a closed node lists %d channels", len(l))
	}
	if st := x.Tru.Statistic(); len(st) > 0 {
		e.Failf("closed", "a closed node has statistics of %d channels", len(st))
	}
	x.Tru.SetPunchCb(x.punched)
	x.Tru.WriteToPunch([]byte("late"), "10.0.0.99:9000")
	if c.Stat > 0 {
		x.Tru.StatisticPrint()
	}
	if c.K == 1 {
		start := time.Now()
		if _, err := x.Tru.Connect("10.0.0.99:9000"); err == nil || time.Since(start) > 5100*time.Millisecond {
			e.Failf("closed", "Connect of a closed node: %v after %v", err, time.Since(start))
		}
	}
	if again != nil {
		// a new life of the address, undisturbed by the old one
		w.Sleep(2*lat + 10*time.Millisecond)
		pr := w.Node()
		l, err := w.Connect(pr, again, false)
		if err != nil || l.CB == nil {
			e.Failf("port", "connecting to the new node on the port of the closed one: %v", err)
		} else {
			w.Sleep(2 * lat)
			l.CB.WriteTo([]byte("from new"))
			l.CA.WriteTo([]byte("to new"))
			w.Sleep(8*time.Second + 2*lat)
			if m := pr.Msgs(l.CA); len(m) != 1 || string(m[0].Data) != "from new" {
				e.Failf("port", "a message from the new node: %d arrived", len(m))
			}
			if m := again.Msgs(l.CB); len(m) != 1 || string(m[0].Data) != "to new" {
				e.Failf("port", "a message to the new node: %d arrived", len(m))
			}
		}
	}
	w.Sleep(9*time.Second + 2*lat + time.Duration(c.Block)*time.Millisecond)
	wg.Wait()

	// what the readers were told
	arr := w.net.ArrivedCopy()
	endedNow := func(ch *tru.Channel) bool { // by the peer, while the node was being closed
		for _, a := range arr {
			if a.To == x.Addr() && a.From == ch.Addr().String() && a.D != nil && a.D.Hdr.Status == stDisconnect &&
				a.T.After(closeFrom.Add(-time.Millisecond)) && !a.T.After(closeT) {
				return true
			}
		}
		return false
	}
	mu.Lock()
	closedN, order := 0, 0
	told := map[*tru.Channel][2]int{}
	first := map[*tru.Channel]Event{}
	for _, ev := range x.Events() {
		after := ev.T.After(closeT)
		if ev.Kind != "err" {
			if after {
				e.Failf("callback", "%s callback (%s %s) at %v, Close returned at %v", ev.Kind, ev.Level, brief(ev.Data), w.Since(ev.T), w.Since(closeT))
			}
			continue
		}
		switch {
		case ev.Ch == nil && errors.Is(ev.Err, tru.ErrTruClosed):
			closedN++
			order = ev.N
		case ev.Ch == nil || !errors.Is(ev.Err, tru.ErrChannelDestroyed):
			e.Failf("notice", "the reader was told %v (channel %v)", ev.Err, ev.Ch != nil)
			continue
		default:
			t := told[ev.Ch]
			if ev.Level == "chan" {
				t[1]++
			} else {
				t[0]++
			}
			told[ev.Ch] = t
			if _, ok := first[ev.Ch]; !ok {
				first[ev.Ch] = ev
			}
			inSnap := false
			for _, s := range snapshot {
				inSnap = inSnap || s == ev.Ch && !endedNow(s)
			}
			if after && (unblocked.IsZero() || ev.T.After(unblocked) || inSnap) {
				e.Failf("callback", "end of a channel told at %v, Close returned at %v", w.Since(ev.T), w.Since(closeT))
			}
			if ev.Ch.Destroyed() == false {
				e.Failf("notice", "told of the end of a channel which is not destroyed")
			}
		}
		if after && ev.Ch == nil {
			e.Failf("callback", "closed notice at %v, Close returned at %v", w.Since(ev.T), w.Since(closeT))
		}
	}
	if closedN != 1 {
		e.Failf("notice", "the reader was told %d times that the node is closed", closedN)
	}
	for _, s := range snapshot {
		chans[s] = true
	}
	for ch := range chans {
		if !ch.Destroyed() {
			e.Failf("channel", "the channel with %s is not destroyed", ch.Addr())
		}
		t := told[ch]
		if t[0] != 1 || chanRd[ch] && t[1] != 1 {
			e.Failf("notice", "the end of the channel with %s was told %d times to the node's reader, %d times to its own", ch.Addr(), t[0], t[1])
		}
	}
	for ch, t := range told {
		if t[0] > 1 || t[1] > 1 {
			e.Failf("notice", "the end of the channel with %s was told %v times", ch.Addr(), t)
		}
	}
	// what the peers were told
	sent := w.net.SentCopy()
	for _, s := range snapshot {
		if first[s].N < order && c.How != "notice" && c.How != "closing" {
			continue // ended before
		}
		n := 0
		for _, d := range sent {
			if d.EP == xep && d.To == s.Addr().String() && d.Hdr.Status == stDisconnect && !d.T.After(closeT) {
				n++
			}
		}
		if n == 0 && !endedNow(s) {
			e.Failf("disconnect", "the peer %s was not told to disconnect", s.Addr())
		}
	}
	for _, d := range sent {
		if d.EP == xep && d.Seq >= closeSeq {
			e.Failf("datagram", "a datagram with status %d was sent to %s at %v after Close returned", d.Hdr.Status, d.To, w.Since(d.T))
		}
	}
	during := 0
	for i, pt := range parts {
		known := false
		for _, s := range snapshot {
			known = known || s == pt.ch
		}
		if pt.n == nil || pt.pch == nil {
			continue
		}
		if !known {
			// connected while the node was being closed
			if pt.p.Kind != "client" || pt.p.CutU >= 0 || c.Rebind == "node" {
				continue
			}
			during++
		}
		nots := pt.n.DestroyNotices(pt.pch, "node")
		if len(nots) != 1 {
			e.Failf("peer", "peer %d was told %d times of the end of its channel", i, len(nots))
			continue
		}
		if pt.p.CutU < 0 && nots[0].T.After(closeT.Add(lat+5*time.Millisecond)) {
			e.Failf("peer", "peer %d was told at %v of the end of its channel, closed at %v", i, w.Since(nots[0].T), w.Since(closeT))
		}
	}
	// pending deliveries time out
	pending := 0
	for _, d := range delivs {
		if len(d.calls) > 1 || d.ok && len(d.calls) == 0 && time.Since(d.t) > d.tmo+50*time.Millisecond {
			e.Failf("delivery", "%s: a delivery callback was called %d times", d.who, len(d.calls))
		}
		if len(d.calls) == 1 && d.who == x.Name && d.calls[0].After(closeT) {
			pending++
			if d.errs[0] == nil {
				e.Failf("callback", "a delivery was reported at %v, Close returned at %v", w.Since(d.calls[0]), w.Since(closeT))
			}
		}
	}
	mu.Unlock()
	// nothing of it runs any more: close the rest and count
	for _, n := range w.nodes {
		n.Close()
	}
	for _, pt := range parts {
		if pt.peer != nil {
			pt.peer.ep.Close()
		}
	}
	if holder != nil {
		holder.Close()
	}
	w.Sleep(time.Second)
	g0, ok := goroutinesCreated()
	w.Sleep(100 * time.Second)
	if g1, _ := goroutinesCreated(); ok && g1-g0 > 60 {
		e.Failf("timer", "%d goroutines (timers) were started in 100 s after everything was closed", g1-g0)
	}
	for k := range kinds {
		e.Class("%s", k)
	}
	e.Class("closed: %s", c.How)
	e.ClassIf(len(snapshot) > 0, "with channels")
	e.ClassIf(pending > 0, "delivery pending")
	e.ClassIf(!unblocked.IsZero() && unblocked.After(closeT), "reader blocked")
	e.ClassIf(c.Stat > 0, "statistic")
	ended := false
	for _, p := range c.Peers {
		ended = ended || p.EndU > 0
	}
	e.ClassIf(ended, "ended by a peer")
	e.ClassIf(during > 0, "connected while being closed")
	e.ClassIf(ended && !unblocked.IsZero() && unblocked.After(closeT), "ended by a peer, reader blocked")
	if len(snapshot) > 0 || pending > 0 || kinds["half-in"] || kinds["half-out"] {
		e.NonTrivial()
	}
}

func init() {
	wantLeak["C22"] = true
	register(&Spec{
		ID: "C22",
		Rule: "A node with up to five contacts: channels with nodes and reference peers in either role, with traffic at the time of the close, acknowledgements or everything lost from a generated instant, and handshakes left open or continued after the close, in either role; readers which block, statistics printed. It is closed by the main program, by several goroutines, inside message, connect, delivery and end callbacks, while enumerating or closing its channels, again inside the notice. " +
			"Checked: notices, disconnects, no datagram and no callback afterwards but delivery timeouts, the port bound again at once (by an endpoint or a new node which then works), later calls harmless, no goroutine left (end of the synctest bubble) and no timer (goroutines started in 100 s). Non-trivial: there was a channel, an open handshake or a pending delivery.",
		Cases: map[Tier]int{Quick: 20000, Thorough: 400000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := ShutCase{LatU: rapid.SampledFrom([]int{0, 0, 100, 3000, 60_000}).Draw(rt, "lat"),
				AtU:   rapid.OneOf(rapid.SampledFrom([]int{0, 1000, 100_000, 500_000, 1_000_000, 4_000_000, 4_500_000, 7_000_000}), rapid.IntRange(0, 1_500_000)).Draw(rt, "at"),
				How:   rapid.SampledFrom([]string{"main", "main", "main", "many", "msg", "connect", "delivery", "foreach", "closing", "notice"}).Draw(rt, "how"),
				K:     rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "k"),
				Block: rapid.SampledFrom([]int{0, 0, 0, 100, 3000, 20_000}).Draw(rt, "block"),
				Stat:  rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(rt, "stat"), Again: rapid.Bool().Draw(rt, "again"),
				Rebind: rapid.SampledFrom([]string{"peer", "node"}).Draw(rt, "rebind"), Stray: rapid.Bool().Draw(rt, "stray"), ChanRd: rapid.Bool().Draw(rt, "chanrd")}
			for i := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 3, 4, 5}).Draw(rt, "peers"); i > 0; i-- {
				p := ShutPeer{Kind: rapid.SampledFrom([]string{"client", "client", "server", "server", "peer", "peerserver", "half-in", "half-out"}).Draw(rt, "kind"),
					N:    [2]int{rapid.SampledFrom([]int{0, 1, 5, 60}).Draw(rt, "n0"), rapid.SampledFrom([]int{0, 1, 5, 60}).Draw(rt, "n1")},
					GapU: rapid.SampledFrom([]int{0, 0, 50, 2000, 40_000}).Draw(rt, "gap"), Size: rapid.SampledFrom([]int{4, 50, 900}).Draw(rt, "size"),
					Deliv: rapid.Bool().Draw(rt, "deliv"), TmoMs: rapid.SampledFrom([]int{0, 0, 20, 500, 7000}).Draw(rt, "tmo"), CutU: -1, Acks: rapid.Bool().Draw(rt, "acks")}
				// around the close
				before := rapid.OneOf(rapid.SampledFrom([]int{0, 0, 1, 100, 1000, 100_000, 200_000, 1_000_000}), rapid.IntRange(0, 1_000_000)).Draw(rt, "before")
				p.StartU = max(0, c.AtU-before)
				if rapid.IntRange(0, 3).Draw(rt, "hascut") == 0 {
					p.CutU = max(0, c.AtU-rapid.IntRange(0, 2_000_000).Draw(rt, "cut"))
				}
				if rapid.Bool().Draw(rt, "late") {
					p.DelayU = rapid.OneOf(rapid.SampledFrom([]int{1, 100, 3_000_000}), rapid.IntRange(1, 1_000_000)).Draw(rt, "delay")
				}
				if rapid.IntRange(0, 3).Draw(rt, "ends") == 0 {
					p.EndU = max(1, c.AtU-rapid.SampledFrom([]int{0, 1, 1000, 50_000, 500_000, -1000}).Draw(rt, "end"))
				}
				c.Peers = append(c.Peers, p)
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runShut(e, decode[ShutCase](raw)) },
	})
}
