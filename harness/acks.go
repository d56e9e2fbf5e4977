package harness

// A node which sends to a reference peer that acknowledges by plan: the
// scenario of C03 (retransmission), C04 (delivery callbacks) and C05 (wrap).

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// AckRule says how the peer acknowledges the nth data packet of the node
type AckRule struct {
	Nth    int `json:"nth"`
	Copy   int `json:"copy"`   // the first transmission which is acknowledged, -1 none ever
	DelayU int `json:"delay"`  // µs between arrival and acknowledgement
	Dup    int `json:"dup"`    // further acknowledgements, 40 ms apart
	LoseTo int `json:"loseto"` // transmissions before this one do not even arrive
}

// AckSend is one message of the node
type AckSend struct {
	WaitU   int  `json:"wait"`
	Size    int  `json:"size"`
	Deliver bool `json:"deliver"`
	TimeU   int  `json:"timeout"` // delivery timeout in µs, 0 the default
	Plain   bool `json:"plain"`   // callback given as a plain func
	First   bool `json:"first"`   // timeout given before the callback
}

// Forged is an acknowledgement nobody asked for
type Forged struct {
	AtU int `json:"at"`
	Nth int `json:"nth"` // relative to the first packet
}

// AckCase is the scenario
type AckCase struct {
	Server  bool      `json:"server"` // the node is the server
	LatU    int       `json:"lat"`
	Max     int       `json:"max"`
	Start   int       `json:"start"` // first packet number
	Sends   []AckSend `json:"sends"`
	Rules   []AckRule `json:"rules"`
	Every   AckRule   `json:"every"` // packets without a rule
	Forged  []Forged  `json:"forged"`
	CloseU  int       `json:"close"`  // the node closes the channel then, 0 never
	PDiscU  int       `json:"pdisc"`  // the peer disconnects then
	MuteU   int       `json:"mute"`   // the peer falls silent then
	Wreck   bool      `json:"wreck"`  // CloseU closes the node
	LenS    int       `json:"len"`    // length of the run after the sends, s
	Par     int       `json:"par"`    // sending goroutines
	InCbDo  int       `json:"incb"`   // inside the delivery callback: 1 send again, 2 close the channel
	BeatMs  int       `json:"beat"`   // the peer pings this often
	MidSize int       `json:"midsiz"` // unused
}

// ackCall is one call of a delivery callback
type ackCall struct {
	T   time.Time
	Err error
	Pac *tru.Packet
}

type ackMsg struct {
	send   AckSend
	T      time.Time // after WriteTo returned
	T0     time.Time // before
	id     int
	err    error
	data   []byte
	calls  []ackCall
	lastID int // number of the final packet
}

// tx is the transmissions of one data packet
type tx struct {
	nth   int
	id    uint32
	st    int
	times []time.Time
	data  []byte
	acked time.Time // arrival of the first acknowledgement at the node
	acks  int
	seq   int  // position of the first transmission among all datagrams
	ambig bool // a forged acknowledgement came at the very instant of sending
}

// AckRun is the played scenario
type AckRun struct {
	e    *Env
	w    *World
	n    *Node
	p    *Peer
	s    *Sess
	ch   *tru.Channel
	zero time.Time
	end  time.Time
	ms   []*ackMsg
	txs  []*tx
	byID map[uint32]*tx

	early map[uint32][]time.Time // acknowledgements of packets which were never sent
}

// peerAndNode connects a node and a reference peer
func peerAndNode(e *Env, lat time.Duration, server bool, params ...any) (w *World, n *Node, p *Peer, s *Sess, ch *tru.Channel) {
	w = NewWorld(e, min(lat, 20*time.Millisecond))
	defer func() { w.net.Latency = lat }()
	n = w.Node(params...)
	p = w.Peer(20, 9000)
	if server {
		var err error
		s, err = p.Dial(n.Addr())
		if err != nil {
			e.Failf("connect", "a reference client could not connect: %v", err)
			return w, n, p, nil, nil
		}
		w.Settle()
		ch = n.ChannelTo(p.Address())
	} else {
		c, err := n.Tru.Connect(p.Address())
		if err != nil {
			e.Failf("connect", "connecting to a reference server: %v", err)
			return w, n, p, nil, nil
		}
		w.Settle()
		ch = c
		s = p.Session(n.Addr())
	}
	if ch == nil || s == nil {
		e.Failf("connect", "connected to a reference peer, but no channel is listed")
		return w, n, p, nil, nil
	}
	return
}

func runAcks(e *Env, c AckCase) *AckRun {
	lat := time.Duration(c.LatU) * time.Microsecond
	w, n, p, s, ch := peerAndNode(e, lat, c.Server, maxLenParam(c.Max)...)
	if ch == nil {
		return nil
	}
	r := &AckRun{e: e, w: w, n: n, p: p, s: s, ch: ch, byID: map[uint32]*tx{}, early: map[uint32][]time.Time{}}
	if c.Start != 0 {
		if !setIDs(ch, uint32(c.Start), -1) {
			e.Class("packet numbers cannot be set")
			return nil
		}
		p.mu.Lock()
		s.exp = uint32(c.Start)
		p.mu.Unlock()
	}
	rule := func(nth int) AckRule {
		for _, r := range c.Rules {
			if r.Nth == nth {
				return r
			}
		}
		return c.Every
	}
	nthOf := func(id uint32) int { return int((id - uint32(c.Start)) & (idLimit - 1)) }
	muted := false
	p.mu.Lock()
	p.AutoAck = false
	seen := map[uint32]int{}
	p.OnPacket = func(pk PeerPacket) bool {
		p.mu.Lock()
		m := muted
		p.mu.Unlock()
		if m {
			return true
		}
		if isData(pk.Hdr.Status) {
			ru := rule(nthOf(pk.Hdr.ID))
			k := seen[pk.Hdr.ID] + ru.LoseTo
			seen[pk.Hdr.ID]++
			if ru.Copy >= 0 && k >= ru.Copy {
				send := func() { p.Send(pk.From, stAck, pk.Hdr.ID, nil) }
				d := time.Duration(ru.DelayU) * time.Microsecond
				if d == 0 {
					send()
				} else {
					time.AfterFunc(d, send)
				}
				for i := 1; i <= ru.Dup; i++ {
					time.AfterFunc(d+time.Duration(i)*40*time.Millisecond, send)
				}
			}
		}
		return false
	}
	p.mu.Unlock()
	r.zero = time.Now()
	w.net.SetPolicy(func(d *Datagram) Fate {
		if d.From == n.Addr() && isData(d.Hdr.Status) && d.Copy < rule(nthOf(d.Hdr.ID)).LoseTo {
			return Fate{}
		}
		return Fate{Delays: []time.Duration{lat}}
	})
	stop := make(chan struct{})
	defer close(stop)
	beat := time.Duration(c.BeatMs) * time.Millisecond
	if beat == 0 {
		beat = 2 * time.Second
	}
	go func() {
		t := time.NewTicker(beat)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				p.mu.Lock()
				m := muted
				p.mu.Unlock()
				if !m {
					p.Send(n.Addr(), stPing, 0, nil)
				}
			case <-stop:
				return
			}
		}
	}()
	for _, f := range c.Forged {
		time.AfterFunc(time.Duration(f.AtU)*time.Microsecond, func() {
			p.Send(n.Addr(), stAck, uint32(c.Start+f.Nth+2*idLimit), nil)
		})
	}
	if c.CloseU > 0 {
		time.AfterFunc(time.Duration(c.CloseU)*time.Microsecond, func() {
			if c.Wreck {
				n.Close()
			} else {
				ch.Close()
			}
		})
	}
	if c.PDiscU > 0 {
		time.AfterFunc(time.Duration(c.PDiscU)*time.Microsecond, func() { p.Send(n.Addr(), stDisconnect, 0, nil) })
	}
	if c.MuteU > 0 {
		time.AfterFunc(time.Duration(c.MuteU)*time.Microsecond, func() {
			p.mu.Lock()
			muted = true
			p.AutoPong = false
			p.mu.Unlock()
		})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	par := max(c.Par, 1)
	extra := 0
	for g := 0; g < par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, sd := range c.Sends {
				if i%par != g {
					continue
				}
				time.Sleep(time.Duration(sd.WaitU) * time.Microsecond)
				m := &ackMsg{send: sd, data: payload(7, i, sd.Size)}
				var args []any
				if sd.Deliver {
					cb := func(pac *tru.Packet, err error) {
						mu.Lock()
						m.calls = append(m.calls, ackCall{time.Now(), err, pac})
						again := c.InCbDo == 1 && extra < 5
						extra++
						mu.Unlock()
						if again {
							ch.WriteTo([]byte("again"))
						}
						if c.InCbDo == 2 {
							ch.Close()
						}
					}
					var f any = tru.PacketDeliveryFunc(cb)
					if sd.Plain {
						f = cb
					}
					args = []any{f}
					if sd.TimeU != 0 {
						d := time.Duration(sd.TimeU) * time.Microsecond
						if sd.First {
							args = []any{d, f}
						} else {
							args = append(args, d)
						}
					}
				}
				m.T0 = time.Now()
				m.id, m.err = ch.WriteTo(append([]byte{}, m.data...), args...)
				m.T = time.Now()
				mu.Lock()
				r.ms = append(r.ms, m)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	w.Sleep(time.Duration(c.LenS)*time.Second + 1357*time.Microsecond)
	r.end = time.Now()
	// what happened
	for _, d := range w.net.SentCopy() {
		if d.From != n.Addr() || !isData(d.Hdr.Status) {
			continue
		}
		t := r.byID[d.Hdr.ID]
		if t == nil {
			t = &tx{nth: nthOf(d.Hdr.ID), id: d.Hdr.ID, st: d.Hdr.Status, data: d.Data, seq: d.Seq}
			r.byID[d.Hdr.ID] = t
			r.txs = append(r.txs, t)
		}
		t.times = append(t.times, d.T)
		if !bytes.Equal(t.data, d.Data) {
			e.Failf("changed", "packet %d was retransmitted with other content", d.Hdr.ID)
		}
	}
	for _, a := range w.net.ArrivedCopy() {
		if a.To == n.Addr() && a.D != nil && a.D.Hdr.Status == stAck && !a.T.Before(r.zero) {
			if r.byID[a.D.Hdr.ID] == nil {
				r.early[a.D.Hdr.ID] = append(r.early[a.D.Hdr.ID], a.T)
			}
			if t := r.byID[a.D.Hdr.ID]; t != nil && !a.T.Before(t.times[0]) {
				if a.Seq <= t.seq {
					t.ambig = t.ambig || a.T.Equal(t.times[0])
					continue
				}
				t.acks++
				if t.acked.IsZero() {
					t.acked = a.T
				}
			}
		}
	}
	return r
}

// endTime is when the channel ended at the node, or the end of the run
func (r *AckRun) endTime() (time.Time, bool) {
	if l := r.n.DestroyNotices(r.ch, "node"); len(l) > 0 {
		return l[0].T, true
	}
	return r.end, false
}

// judgeRetransmission is the oracle of C03
func (r *AckRun) judgeRetransmission(c AckCase) {
	e := r.e
	const slack = 300 * time.Millisecond
	end, ended := r.endTime()
	retr, afterAck := 0, 0
	for _, t := range r.txs {
		if t.ambig {
			continue
		}
		stopT := end
		if !t.acked.IsZero() && t.acked.Before(stopT) {
			stopT = t.acked
		}
		for i, at := range t.times {
			if i == 0 {
				continue
			}
			retr++
			gap := at.Sub(t.times[i-1])
			if gap < 30*time.Millisecond {
				e.Failf("too-soon", "packet %d was sent again after %v (transmission %d)", t.id, gap, i)
			}
			if gap > 3*time.Second+slack {
				e.Failf("too-late", "packet %d was sent again only after %v (transmission %d)", t.id, gap, i)
			}
			if !t.acked.IsZero() && at.After(t.acked) {
				e.Failf("after-ack", "packet %d was sent at %v, it had been acknowledged at %v", t.id, r.w.Since(at), r.w.Since(t.acked))
			}
			if ended && at.After(end) {
				e.Failf("after-end", "packet %d was sent at %v, the channel ended at %v", t.id, r.w.Since(at), r.w.Since(end))
			}
		}
		if stopT.After(t.times[0]) {
			last := t.times[0]
			for _, at := range t.times {
				if !at.After(stopT) {
					last = at
				}
			}
			if d := stopT.Sub(last); d > 3*time.Second+slack {
				e.Failf("not-retransmitted", "packet %d, last sent at %v, was not sent again until %v (acknowledged: %v, channel ended: %v)", t.id,
					r.w.Since(last), r.w.Since(stopT), !t.acked.IsZero(), ended)
			}
		}
		if len(t.times) > 102 {
			e.Failf("never-given-up", "packet %d was sent %d times", t.id, len(t.times))
		}
		if !t.acked.IsZero() && len(t.times) > 1 {
			afterAck++
		}
	}
	if ended && c.CloseU == 0 && c.PDiscU == 0 && c.InCbDo != 2 {
		if why, ok := r.w.endExcused(r.n.Addr(), r.p.Address(), r.zero, end); !ok {
			e.Failf("given-up", "the channel ended at %v without a reason", r.w.Since(end))
		} else {
			e.Class("channel ended: %s", why)
		}
	}
	// new packets are numbered in sequence
	for i, t := range r.txs {
		if want := uint32(c.Start+i) & (idLimit - 1); t.id != want && !ended {
			// concurrent handing over to the sender may swap neighbours only if
			// there are several senders
			e.Failf("number", "the packet sent %d-th has number %d, not %d", i, t.id, want)
			break
		}
	}
	e.ClassIf(retr > 0, "retransmissions")
	e.ClassIf(retr > 20, "many retransmissions")
	e.ClassIf(len(c.Forged) > 0, "forged acknowledgements")
	e.ClassIf(c.Server, "node is server")
	if retr > 0 && afterAck > 0 {
		e.NonTrivial()
	}
}

// judgeCallbacks is the oracle of C04
func (r *AckRun) judgeCallbacks(c AckCase) {
	e := r.e
	end, ended := r.endTime()
	const tol = 2 * time.Millisecond
	ok, timeouts, late := 0, 0, 0
	for i, m := range r.ms {
		if m.err != nil {
			if len(m.calls) > 0 {
				e.Failf("callback-of-failed-write", "message %d was refused (%v), its delivery callback was called", i, m.err)
			}
			if !ended && !r.ch.Destroyed() {
				e.Failf("write", "message %d of %d bytes was refused: %v", i, len(m.data), m.err)
			}
			continue
		}
		if !m.send.Deliver {
			continue
		}
		if len(m.calls) > 1 {
			e.Failf("repeated-callback", "message %d: the delivery callback was called %d times", i, len(m.calls))
			continue
		}
		// number of the final packet
		limit := c.Max
		if limit == 0 {
			limit = defaultMax
		}
		k := 0
		if len(m.data) > limit {
			k = (len(m.data)+limit-1)/limit - 1
		}
		last := uint32(m.id+k) & (idLimit - 1)
		t := r.byID[last]
		if t != nil && t.ambig {
			continue
		}
		if t == nil { // the end of the channel came before its sending
			forged := false
			for _, at := range r.early[last] {
				forged = forged || !at.Before(m.T0)
			}
			if forged {
				e.Class("acknowledged before it was sent")
				continue
			}
		}
		timeout := 5 * time.Second
		if m.send.TimeU != 0 {
			timeout = time.Duration(m.send.TimeU) * time.Microsecond
		}
		if len(m.calls) == 0 {
			if r.end.Sub(m.T) > timeout+50*time.Millisecond {
				e.Failf("no-callback", "message %d (packet %d): no callback within %v after sending", i, last, r.end.Sub(m.T))
			}
			continue
		}
		call := m.calls[0]
		var ackT time.Time
		if t != nil {
			ackT = t.acked
		}
		if call.Err == nil {
			ok++
			if ackT.IsZero() || ackT.After(call.T) {
				e.Failf("false-success", "message %d: success was reported at %v, but the final packet %d was not acknowledged by then", i, r.w.Since(call.T), last)
			} else if call.T.Sub(ackT) > tol {
				e.Failf("late-success", "message %d: success was reported %v after the acknowledgement", i, call.T.Sub(ackT))
			}
			if call.T.Sub(m.T) > timeout+tol {
				e.Failf("success-after-timeout", "message %d: success was reported %v after sending, the timeout is %v", i, call.T.Sub(m.T), timeout)
			}
		} else {
			timeouts++
			// the timeout runs from the sending of the final packet
			if call.T.Before(m.T0.Add(timeout-tol)) || call.T.After(m.T.Add(timeout+tol)) {
				e.Failf("wrong-timeout", "message %d, sent between %v and %v: failure was reported at %v, the timeout is %v", i, r.w.Since(m.T0), r.w.Since(m.T), r.w.Since(call.T), timeout)
			}
			if !ackT.IsZero() && ackT.Before(call.T.Add(-tol)) && !(ended && !ackT.Before(end)) {
				e.Failf("false-failure", "message %d: failure was reported at %v, the final packet %d had been acknowledged at %v", i, r.w.Since(call.T), last, r.w.Since(ackT))
			}
			if !ackT.IsZero() {
				late++
			}
		}
		if call.Pac == nil {
			e.Failf("callback-packet", "message %d: the callback got no packet", i)
		} else if uint32(call.Pac.ID()) != last {
			e.Failf("callback-packet", "message %d: the callback got packet %d, the final packet is %d", i, call.Pac.ID(), last)
		}
	}
	e.ClassIf(ok > 0, "success reported")
	e.ClassIf(timeouts > 0, "timeout reported")
	e.ClassIf(late > 0, "acknowledged after the timeout")
	e.ClassIf(ended, "channel ended")
	e.ClassIf(c.InCbDo > 0, "API used inside the callback")
	if ok > 0 && timeouts > 0 {
		e.NonTrivial()
	}
}

func drawAckRule(rt *rapid.T, nth int, never bool) AckRule {
	r := AckRule{Nth: nth}
	r.Copy = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, -1}).Draw(rt, "copy")
	if r.Copy < 0 && !never {
		r.Copy = 12
	}
	r.DelayU = rapid.SampledFrom([]int{0, 0, 100, 10_000, 99_000, 250_000, 700_000, 3_100_000}).Draw(rt, "delay")
	r.Dup = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(rt, "dup")
	r.LoseTo = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 4}).Draw(rt, "loseto")
	return r
}

func drawAcks(rt *rapid.T, deliver bool) (c AckCase) {
	c.Server = rapid.Bool().Draw(rt, "server")
	c.LatU = rapid.SampledFrom([]int{0, 300, 20_000, 120_000, 700_000, 1_600_000}).Draw(rt, "lat")
	c.Max = rapid.SampledFrom([]int{0, 0, 500, 50}).Draw(rt, "max")
	n := rapid.IntRange(1, 14).Draw(rt, "n")
	packets := 0
	for i := 0; i < n; i++ {
		s := AckSend{WaitU: rapid.SampledFrom([]int{0, 0, 500, 31_000, 140_000, 900_000}).Draw(rt, "wait"),
			Size: rapid.SampledFrom([]int{0, 4, 40, 64, 65, 180, 600}).Draw(rt, "size")}
		packets++
		if c.Max > 0 {
			packets += s.Size / c.Max
		}
		if deliver && rapid.IntRange(0, 5).Draw(rt, "has") > 0 {
			s.Deliver = true
			s.TimeU = rapid.SampledFrom([]int{0, 0, 1_000, 30_000, 100_500, 450_000, 2_000_000, 9_000_000, 20_000_000}).Draw(rt, "timeout")
			if rapid.IntRange(0, 3).Draw(rt, "odd") == 2 {
				s.TimeU = rapid.IntRange(1_000, 12_000_000).Draw(rt, "timeus")
			}
			s.Plain = rapid.Bool().Draw(rt, "plain")
			s.First = rapid.Bool().Draw(rt, "first")
		}
		c.Sends = append(c.Sends, s)
	}
	c.Every = drawAckRule(rt, -1, rapid.IntRange(0, 9).Draw(rt, "alln") == 0)
	for i := rapid.IntRange(0, 6).Draw(rt, "rules"); i > 0; i-- {
		c.Rules = append(c.Rules, drawAckRule(rt, rapid.IntRange(0, packets-1).Draw(rt, "nth"), true))
	}
	for i := rapid.IntRange(0, 4).Draw(rt, "forged"); i > 0; i-- {
		c.Forged = append(c.Forged, Forged{AtU: rapid.IntRange(0, 3_000_000).Draw(rt, "fat"), Nth: drawForged(rt, packets)})
	}
	c.LenS = rapid.SampledFrom([]int{12, 12, 30}).Draw(rt, "len")
	return
}

// drawForged picks a number relative to the first packet's, any of them now and then
func drawForged(rt *rapid.T, packets int) int {
	if rapid.IntRange(0, 3).Draw(rt, "far") == 2 {
		return rapid.OneOf(rapid.IntRange(-idLimit, idLimit), rapid.SampledFrom([]int{-1, -2, idLimit / 2, idLimit/2 - 1, idLimit/2 + 1, 65535, 65536, 32768})).Draw(rt, "fnth")
	}
	return rapid.IntRange(-3, packets+3).Draw(rt, "fnth")
}

func init() {
	register(&Spec{
		ID: "C03",
		Rule: "A node sends to a reference peer which acknowledges by a generated plan: at once, late, only the nth transmission, never, repeatedly, with forged acknowledgements of other numbers; transmissions may be lost. " +
			"All transmissions are captured with their times on the simulated clock: same bytes, gaps of 30 ms to 3 s (plus 0.3 s for the timers) until the acknowledgement arrives or the channel ends, none afterwards, no end before more than 100 retransmissions. " +
			"Non-trivial: a packet was retransmitted and then acknowledged.",
		Cases: map[Tier]int{Quick: 8000, Thorough: 150000},
		Fixed: func(tier Tier) (l []any) {
			// never acknowledged: up to the end
			for _, sv := range []bool{false, true} {
				for _, lat := range []int{0, 200_000} {
					l = append(l, AckCase{Server: sv, LatU: lat, Sends: []AckSend{{Size: 30}, {Size: 100, WaitU: 5000}, {Size: 10}},
						Rules: []AckRule{{Nth: 0}, {Nth: 1, Copy: -1}, {Nth: 2, Copy: 3}}, LenS: 400, BeatMs: 1000})
					l = append(l, AckCase{Server: sv, LatU: lat, Sends: []AckSend{{Size: 30}, {Size: 100, WaitU: 5000}, {Size: 10}},
						Rules: []AckRule{{Nth: 0, Copy: 98}, {Nth: 1, Copy: 100}, {Nth: 2, Copy: 3}}, LenS: 330, BeatMs: 1000})
				}
			}
			// thousands wait for their acknowledgements
			for _, sv := range []bool{false, true} {
				c := AckCase{Server: sv, LatU: 1000, Every: AckRule{Copy: 2}, LenS: 20, BeatMs: 1000}
				for i := range 3000 {
					c.Sends = append(c.Sends, AckSend{Size: 5 + i%3})
				}
				l = append(l, c)
			}
			return
		},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := drawAcks(rt, false)
			if rapid.IntRange(0, 5).Draw(rt, "ends") == 0 {
				c.CloseU = rapid.IntRange(1, 4_000_000).Draw(rt, "close")
			}
			if rapid.IntRange(0, 40).Draw(rt, "verylong") == 0 {
				c.LenS = 330
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) {
			c := decode[AckCase](raw)
			if r := runAcks(e, c); r != nil {
				r.judgeRetransmission(c)
			}
		},
	})
	register(&Spec{
		ID: "C04",
		Rule: "As for C03, with delivery callbacks of all forms and generated timeouts (1 ms to 20 s and the default), several sending goroutines, channels closed, disconnected by the peer, timed out or torn down with the node meanwhile, and callbacks which send or close themselves. " +
			"Each accepted message must produce exactly one call: success at the moment the acknowledgement of its final packet arrives, or failure at its timeout. Non-trivial: both outcomes occur.",
		Cases: map[Tier]int{Quick: 10000, Thorough: 200000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := drawAcks(rt, true)
			c.Par = rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(rt, "par")
			switch rapid.IntRange(0, 8).Draw(rt, "ends") {
			case 0:
				c.CloseU = rapid.IntRange(1, 6_000_000).Draw(rt, "close")
			case 1:
				c.PDiscU = rapid.IntRange(1, 6_000_000).Draw(rt, "pdisc")
			case 2:
				c.MuteU = rapid.IntRange(1, 4_000_000).Draw(rt, "mute")
			case 3:
				c.CloseU = rapid.IntRange(1, 6_000_000).Draw(rt, "close")
				c.Wreck = true
			}
			c.InCbDo = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2}).Draw(rt, "incb")
			c.LenS = 30
			return c
		},
		Run: func(e *Env, raw jsonRaw) {
			c := decode[AckCase](raw)
			if r := runAcks(e, c); r != nil {
				r.judgeCallbacks(c)
			}
		},
	})
}

var _ = fmt.Sprint
