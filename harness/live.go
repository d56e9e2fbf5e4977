package harness

// C07: keepalive and detection of dead peers.

import (
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// LiveCase is the scenario
type LiveCase struct {
	LatU    int    `json:"lat"`
	Peer    int    `json:"peer"` // 0 two nodes, 1 a reference client, 2 a reference server
	ChanRd  bool   `json:"chanrd"`
	IdleS   int    `json:"idle"`   // quiet time before anything else, s
	LenMs   int    `json:"len"`    // then observed so long
	Cuts    []Cut  `json:"cuts"`   // from the end of the idle time on
	Masks   []Mask `json:"masks"`  // likewise
	PingPct int    `json:"ping"`   // pings and pongs lost at random
	DataPct int    `json:"data"`   // data packets lost at random
	Seed    uint32 `json:"seed"`   //
	Block   bool   `json:"block"`  // the reader blocks and has got too much to read
	Talk    []Say  `json:"talk"`   // messages
	SlowMs  int    `json:"slow"`   // the readers take so long for each message
	Gaps    []Gap  `json:"gaps"`   // what the reference peer sends
	DropPkt bool   `json:"nopong"` // the reference peer answers nothing
}

// Mask is a period in which only some kinds of datagrams pass in a direction
type Mask struct {
	Cut
	Pass int `json:"pass"` // 1 data, 2 acks, 4 pings, 8 pongs, 16 of the data only odd numbers
}

func (k Mask) passes(d *Datagram) bool {
	switch d.Hdr.Status {
	case stData, stDataNext:
		return k.Pass&1 != 0 || k.Pass&16 != 0 && d.Hdr.ID%2 == 1
	case stAck:
		return k.Pass&2 != 0
	case stPing:
		return k.Pass&4 != 0
	case stPong:
		return k.Pass&8 != 0
	}
	return true
}

// Say is a message at a time
type Say struct {
	AtMs int `json:"at"`
	Side int `json:"side"`
	Size int `json:"size"`
}

// Gap is a pause and then a datagram of the reference peer
type Gap struct {
	Ms   int `json:"ms"`
	What int `json:"what"` // 0 ping, 1 pong, 2 data, 3 ack of nothing, 4 old data, 5 the same early data, 6 new early data
}

func runLive(e *Env, c LiveCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	var w *World
	type side struct {
		n    *Node
		ch   *tru.Channel
		addr string // of the peer
		from time.Time
	}
	var sides []side
	var p *Peer
	var s *Sess
	unblock := make(chan struct{})
	free := sync.OnceFunc(func() { close(unblock) })
	e.Cleanup(free)
	slow := func(ev Event) bool {
		if c.Block {
			<-unblock
		}
		if c.SlowMs > 0 && ev.Level == "node" {
			time.Sleep(time.Duration(c.SlowMs) * time.Millisecond)
		}
		return false
	}
	switch c.Peer {
	case 0:
		w = NewWorld(e, lat)
		a, b := w.Node(), w.Node()
		a.OnMsg, b.OnMsg = slow, slow
		l := w.MustConnect(a, b, c.ChanRd)
		if l == nil {
			return
		}
		sides = []side{{a, l.CA, b.Addr(), time.Now()}, {b, l.CB, a.Addr(), time.Now()}}
	default:
		var n *Node
		var ch *tru.Channel
		w, n, p, s, ch = peerAndNode(e, lat, c.Peer == 1)
		if ch == nil {
			return
		}
		n.OnMsg = slow
		sides = []side{{n, ch, p.Address(), time.Now()}}
	}
	w.Sleep(time.Duration(c.IdleS) * time.Second)
	zero := time.Now()
	f := Faults{Seed: c.Seed}
	w.net.SetPolicy(func(d *Datagram) Fate {
		ms := int(d.T.Sub(zero) / time.Millisecond)
		dr := 1
		if d.From == sides[0].n.Addr() {
			dr = 0
		}
		for _, k := range c.Cuts {
			if (k.Dir == 2 || k.Dir == dr) && ms >= k.From && ms < k.From+k.Len {
				return Fate{}
			}
		}
		for _, k := range c.Masks {
			if (k.Dir == 2 || k.Dir == dr) && ms >= k.From && ms < k.From+k.Len && !k.passes(d) {
				return Fate{}
			}
		}
		if classOf(d.Hdr.Status) == "ping" && c.PingPct > 0 && int(f.hash(dr, d, 1)%100) < c.PingPct {
			return Fate{}
		}
		if classOf(d.Hdr.Status) == "data" && c.DataPct > 0 && int(f.hash(dr, d, 2)%100) < c.DataPct {
			return Fate{}
		}
		return Fate{Delays: []time.Duration{lat}}
	})
	if p != nil && c.Block {
		for i := 0; i < 1100; i++ {
			s.Data(s.Next, true, []byte("hello"))
			s.Next++
			if i%50 == 49 {
				time.Sleep(time.Millisecond)
			}
		}
	}
	for i, y := range c.Talk {
		if y.Side >= len(sides) {
			continue
		}
		time.AfterFunc(time.Duration(y.AtMs)*time.Millisecond, func() {
			sides[y.Side].ch.WriteTo(payload(3, i, y.Size))
		})
	}
	if p != nil {
		if c.DropPkt {
			p.mu.Lock()
			p.AutoPong = false
			p.mu.Unlock()
		}
		go func() {
			early := uint32(0)
			for _, g := range c.Gaps {
				time.Sleep(time.Duration(g.Ms) * time.Millisecond)
				switch g.What {
				case 0:
					p.Send(s.Addr, stPing, 0, nil)
				case 1:
					p.Send(s.Addr, stPong, 0, nil)
				case 2:
					s.Data(s.Next, true, []byte("hello"))
					s.Next++
				case 3:
					p.Send(s.Addr, stAck, 777777, nil)
				case 4:
					if s.Next > 0 {
						s.Data(s.Next-1, true, []byte("hello"))
					} else {
						p.Send(s.Addr, stPing, 0, nil)
					}
				case 5:
					s.Data(s.Next+7, true, []byte("early"))
				case 6:
					early++
					s.Data(s.Next+9+early, true, []byte("early"))
				}
			}
		}()
	}
	w.Sleep(time.Duration(c.LenMs)*time.Millisecond + 333*time.Microsecond)
	end := time.Now()
	free()
	w.Settle()

	deaths, nearest := 0, time.Duration(0)
	cut := len(c.Cuts) > 0 || c.PingPct > 0 || len(c.Masks) > 0
	for _, sd := range sides {
		nots := sd.n.DestroyNotices(sd.ch, "node")
		dead := sd.ch.Destroyed()
		if dead {
			deaths++
		}
		if len(nots) > 1 {
			e.Failf("notice-twice", "%s was told %d times that the channel is destroyed", sd.n.Name, len(nots))
		}
		if sd.n == w.nodes[0] && c.Peer == 0 && c.ChanRd {
			if k := len(sd.n.DestroyNotices(sd.ch, "chan")); k != len(nots) {
				e.Failf("notice-twice", "the channel reader of %s was told %d times, the node's reader %d times", sd.n.Name, k, len(nots))
			}
		}
		for _, ev := range sd.n.Select(func(ev Event) bool { return ev.Kind == "err" }) {
			if ev.Ch != sd.ch || ev.Err != tru.ErrChannelDestroyed {
				e.Failf("notice-other", "%s got the error %v on %s", sd.n.Name, ev.Err, ev.Addr)
			}
		}
		if (len(nots) == 1) != dead {
			e.Failf("notice-missing", "the channel of %s is destroyed: %v, the reader was told %d times", sd.n.Name, dead, len(nots))
		}
		listed := sd.n.ChannelTo(sd.addr) != nil
		if listed == dead {
			e.Failf("listed", "the channel of %s is destroyed: %v, and listed: %v", sd.n.Name, dead, listed)
		}
		// the oracle: arrivals
		last, disc := sd.from, false
		died := end
		if dead && len(nots) > 0 {
			died = nots[0].T
		}
		var longest time.Duration
		for _, a := range w.net.ArrivedCopy() {
			if a.To != sd.n.Addr() || a.From != sd.addr || a.T.Before(sd.from) || a.D == nil {
				continue
			}
			if a.D.Hdr.Status == stDisconnect {
				disc = true
				continue
			}
			switch classOf(a.D.Hdr.Status) {
			case "data", "ack", "ping":
			default:
				continue
			}
			if !a.T.Before(died) && dead {
				break
			}
			longest = max(longest, a.T.Sub(last))
			if g := a.T.Sub(last); g > 6600*time.Millisecond {
				e.Failf("not-detected", "%s heard nothing from its peer for %v (from %v on) and kept the channel", sd.n.Name, g, w.Since(last))
			}
			last = a.T
		}
		quiet := died.Sub(last)
		nearest = max(nearest, longest)
		switch {
		case disc:
			e.Failf("disconnect", "%s got a disconnect nobody asked for", sd.n.Name)
		case dead && quiet < 6*time.Second:
			e.Failf("dropped", "%s dropped the channel at %v, %v after a datagram from the peer arrived", sd.n.Name, w.Since(died), quiet)
		case quiet > 6600*time.Millisecond && c.SlowMs == 0:
			e.Failf("not-detected", "%s heard nothing from its peer for %v (from %v on), channel destroyed: %v", sd.n.Name, quiet, w.Since(last), dead)
		case dead && c.Peer == 0 && !cut:
			e.Failf("idle-drop", "%s dropped an idle channel at %v on an undisturbed network", sd.n.Name, w.Since(died))
		}
	}
	e.Class("peer kind %d", c.Peer)
	e.ClassIf(deaths > 0, "channel died")
	e.ClassIf(deaths == 0, "channel survived")
	e.ClassIf(deaths == 1 && len(sides) == 2, "only one side died")
	e.ClassIf(nearest > 5*time.Second, "survived over 5 s of silence")
	e.ClassIf(nearest > 5700*time.Millisecond, "survived over 5.7 s of silence")
	e.ClassIf(c.IdleS >= 3600, "hours of idling")
	e.ClassIf(len(c.Masks) > 0, "only some kinds of datagrams pass")
	e.ClassIf(c.Block, "blocked reader")
	e.ClassIf(c.DataPct > 0, "lost data")
	e.ClassIf(c.SlowMs > 0, "slow reader")
	if cut || p != nil || c.IdleS > 60 || c.SlowMs > 0 {
		e.NonTrivial()
	}
}

func drawLive(rt *rapid.T, tier Tier) (c LiveCase) {
	c.LatU = rapid.SampledFrom([]int{0, 300, 30_000, 200_000, 550_000}).Draw(rt, "lat")
	c.Peer = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "peer")
	c.ChanRd = rapid.Bool().Draw(rt, "chanrd")
	len1 := rapid.OneOf(rapid.IntRange(1, 9000), rapid.IntRange(5300, 6700), rapid.IntRange(5900, 6100), rapid.IntRange(1500, 2500))
	say := func() {
		for i := rapid.IntRange(0, 5).Draw(rt, "talk"); i > 0; i-- {
			c.Talk = append(c.Talk, Say{AtMs: rapid.IntRange(0, max(c.LenMs, 1)).Draw(rt, "at"), Side: rapid.IntRange(0, 1).Draw(rt, "side"),
				Size: rapid.SampledFrom([]int{0, 5, 100, 3000}).Draw(rt, "size")})
		}
	}
	if c.Peer == 0 {
		switch rapid.IntRange(0, 8).Draw(rt, "kind") {
		case 7, 8: // only some kinds pass, with many messages on the way
			at := 0
			for i := rapid.IntRange(1, 3).Draw(rt, "masks"); i > 0; i-- {
				k := Mask{Cut: Cut{Dir: rapid.IntRange(0, 2).Draw(rt, "dir"), From: at + rapid.IntRange(0, 3000).Draw(rt, "from"), Len: rapid.IntRange(3000, 20_000).Draw(rt, "masklen")},
					Pass: rapid.OneOf(rapid.IntRange(0, 31), rapid.SampledFrom([]int{1, 2, 4, 8, 16, 18, 15 - 1, 15 - 2})).Draw(rt, "pass")}
				at = k.From + rapid.IntRange(0, 1).Draw(rt, "after")*k.Len
				c.Masks = append(c.Masks, k)
			}
			c.LenMs = at + 20_000
			for i, t := rapid.IntRange(1, 8).Draw(rt, "talk"), 0; i > 0; i-- {
				t += rapid.IntRange(0, 4000).Draw(rt, "at")
				c.Talk = append(c.Talk, Say{AtMs: t, Side: rapid.IntRange(0, 1).Draw(rt, "side"), Size: rapid.SampledFrom([]int{0, 5, 100}).Draw(rt, "size")})
			}
		case 6: // lost data, everything else arrives
			c.Seed = uint32(rapid.IntRange(0, 1<<16).Draw(rt, "seed"))
			c.DataPct = rapid.SampledFrom([]int{30, 90, 100, 100}).Draw(rt, "data")
			c.LenMs = rapid.IntRange(10_000, 60_000).Draw(rt, "len")
			say()
		case 0: // idle for long
			c.IdleS = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 60), rapid.IntRange(0, 60), rapid.IntRange(60, 600), rapid.IntRange(600, 1800)).Draw(rt, "idle")
			c.LenMs = rapid.IntRange(0, 20_000).Draw(rt, "len")
			say()
		case 1: // slow readers
			c.SlowMs = rapid.SampledFrom([]int{700, 4000, 7000, 15_000}).Draw(rt, "slow")
			c.LenMs = rapid.IntRange(10_000, 60_000).Draw(rt, "len")
			say()
		case 2: // lost pings
			c.Seed = uint32(rapid.IntRange(0, 1<<16).Draw(rt, "seed"))
			c.PingPct = rapid.SampledFrom([]int{10, 30, 60, 90}).Draw(rt, "ping")
			c.LenMs = rapid.IntRange(10_000, 120_000).Draw(rt, "len")
			say()
		default: // blackouts
			c.IdleS = rapid.IntRange(0, 9).Draw(rt, "idle")
			at := 0
			for i := rapid.IntRange(1, 3).Draw(rt, "cuts"); i > 0; i-- {
				k := Cut{Dir: rapid.IntRange(0, 2).Draw(rt, "dir"), From: at + rapid.IntRange(0, 9000).Draw(rt, "from"), Len: len1.Draw(rt, "cutlen")}
				at = k.From + k.Len
				c.Cuts = append(c.Cuts, k)
			}
			if rapid.IntRange(0, 2).Draw(rt, "forever") == 0 {
				c.Cuts[len(c.Cuts)-1].Len = 1_000_000
				at = c.Cuts[len(c.Cuts)-1].From
			}
			c.LenMs = at + rapid.IntRange(0, 20_000).Draw(rt, "tail")
			say()
		}
		return
	}
	c.DropPkt = rapid.Bool().Draw(rt, "nopong")
	at := 0
	gap := rapid.OneOf(rapid.IntRange(1, 6300), rapid.IntRange(5500, 5999), rapid.SampledFrom([]int{5999, 5990, 6000, 6001, 6100, 5800}))
	what := func() int { return rapid.IntRange(0, 6).Draw(rt, "what") }
	if rapid.IntRange(0, 2).Draw(rt, "same") == 0 {
		k := what()
		what = func() int { return k }
	}
	c.Block = rapid.IntRange(0, 19).Draw(rt, "block") == 0
	for i := rapid.IntRange(0, 12).Draw(rt, "gaps"); i > 0; i-- {
		g := Gap{Ms: gap.Draw(rt, "gap"), What: what()}
		at += g.Ms
		c.Gaps = append(c.Gaps, g)
	}
	c.LenMs = at + rapid.SampledFrom([]int{0, 500, 5800, 6200, 7000, 20_000}).Draw(rt, "tail")
	return
}

func init() {
	register(&Spec{
		ID: "C07",
		Rule: "A channel of two nodes, or of a node with a reference client or server, idles (seconds to hours), suffers blackouts in one or both directions of generated start and length (dense around 6 s), loses pings or data at random, lets only some kinds of datagrams pass in a direction for a while, has readers which take seconds per message, or hears from a reference peer at generated intervals up to just below and above 6 s. " +
			"Each side's fate is compared with the arrivals in the capture. Non-trivial: a blackout, lost pings, a reference peer, a slow reader or more than a minute of idling.",
		Cases: map[Tier]int{Quick: 10000, Thorough: 200000},
		Draw:  func(rt *rapid.T, tier Tier) any { return drawLive(rt, tier) },
		Run:   func(e *Env, raw jsonRaw) { runLive(e, decode[LiveCase](raw)) },
		Fixed: func(t Tier) (l []any) {
			l = append(l, LiveCase{LatU: 300, IdleS: 3 * 3600}, LiveCase{LatU: 500_000, IdleS: 2 * 3600, ChanRd: true})
			if t == Thorough {
				l = append(l, LiveCase{LatU: 300, IdleS: 72 * 3600})
			}
			return
		},
	})
}
