package harness

// A session: two nodes, a channel, messages in both directions under a fault
// plan. Several properties use it with their own generators and oracles.

import (
	"fmt"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// Send is a burst of messages from one side
type Send struct {
	Side  int `json:"side"` // 0 the client, 1 the server
	WaitU int `json:"wait"` // pause before, µs
	N     int `json:"n"`
	Size  int `json:"size"`
	GapU  int `json:"gap"` // pause between messages, µs
}

// Session is the scenario
type Session struct {
	LatU    int    `json:"lat"`  // latency of the network, µs
	TickU   int    `json:"tick"` // datagrams arrive together every so often, µs
	MaxA    int    `json:"maxa"`
	MaxB    int    `json:"maxb"`
	Fill    uint64 `json:"fill"`
	ChanRd  bool   `json:"chanrd"`         // the client has a channel reader
	Only    bool   `json:"only,omitempty"` // and no other
	Proc    int    `json:"proc,omitempty"` // what readers return for the nth message: never true, always, now and then
	Sends   []Send `json:"sends"`
	Faults  Faults `json:"faults"`
	SlowU   int    `json:"slow"`    // the readers take so long for a message, µs
	CloseBy int    `json:"closeby"` // 0 nobody, 1 client, 2 server, right after the sends
	Long    int    `json:"long"`    // s idle at the end
}

// SideState is one end of the session
type SideState struct {
	Node *Node
	Ch   *tru.Channel
	Sent [][]byte
	IDs  []int
	Err  error
}

// SessionRun is a session that ran
type SessionRun struct {
	W     *World
	L     *Link
	S     [2]*SideState
	Zero  time.Time
	Ended bool // the channel ended on some side
}

func maxLenParam(n int) []any {
	if n == 0 {
		return nil
	}
	return []any{tru.MaxDataLenType(n)}
}

// runSession sets up and plays a session, without judging anything but the
// connection
func runSession(e *Env, s Session, tune func(r *SessionRun)) *SessionRun {
	w := NewWorld(e, time.Duration(s.LatU)*time.Microsecond)
	w.net.Tick = time.Duration(s.TickU) * time.Microsecond
	var args []any
	if s.Only {
		args = append(args, noReaderMark{})
	}
	a := w.Node(append(args, maxLenParam(s.MaxA)...)...)
	b := w.Node(maxLenParam(s.MaxB)...)
	l := w.MustConnect(a, b, s.ChanRd)
	if l == nil {
		return nil
	}
	if s.SlowU > 0 || s.Proc > 0 {
		for i, n := range w.nodes {
			n.OnMsg = func(ev Event) bool {
				last := ev.Level == "node" || s.Only && i == 0
				if last {
					time.Sleep(time.Duration(s.SlowU) * time.Microsecond)
				}
				return last && (s.Proc == 1 || s.Proc == 2 && ev.N%3 == 0)
			}
		}
	}
	w.Settle()
	r := &SessionRun{W: w, L: l}
	r.S[0] = &SideState{Node: a, Ch: l.CA}
	r.S[1] = &SideState{Node: b, Ch: l.CB}
	r.Zero = time.Now()
	if tune != nil {
		tune(r)
	}
	w.net.SetPolicy(s.Faults.policy(w, r.Zero, func(d *Datagram) int {
		if d.From == a.Addr() {
			return 0
		}
		return 1
	}))
	var wg sync.WaitGroup
	for side := 0; side < 2; side++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := r.S[side]
			for _, sd := range s.Sends {
				if sd.Side != side {
					continue
				}
				time.Sleep(time.Duration(sd.WaitU) * time.Microsecond)
				for i := 0; i < sd.N; i++ {
					if i > 0 && sd.GapU > 0 {
						time.Sleep(time.Duration(sd.GapU) * time.Microsecond)
					}
					data := payload(s.Fill, len(st.Sent), sd.Size)
					keep := append([]byte{}, data...)
					id, err := st.Ch.WriteTo(data)
					for j := range data { // the caller may reuse its buffer
						data[j] ^= 0x5a
					}
					if err != nil {
						st.Err = err
						return
					}
					st.Sent = append(st.Sent, keep)
					st.IDs = append(st.IDs, id)
				}
			}
		}()
	}
	wg.Wait()
	switch s.CloseBy {
	case 1:
		r.S[0].Ch.Close()
	case 2:
		r.S[1].Ch.Close()
	}
	// let the faults end and the network work for a while
	end := r.Zero.Add(time.Duration(s.Faults.UntilMs) * time.Millisecond)
	for _, c := range s.Faults.Outages {
		if t := r.Zero.Add(time.Duration(c.From+c.Len) * time.Millisecond); t.After(end) {
			end = t
		}
	}
	if now := time.Now(); now.After(end) {
		end = now
	}
	for _, ru := range s.Faults.Rules {
		if ru.Copy < 0 {
			end = end.Add(time.Second)
		}
	}
	settle := 8*time.Second + 6*w.net.Latency
	// until it is all there: a node keeps so many packets, the rest comes again
	n := 0
	for _, sd := range s.Sends {
		n += sd.N
	}
	settle += time.Duration(n/1000) * 4 * time.Second
	if s.SlowU > 0 { // and the readers have read it
		settle += time.Duration(n) * time.Duration(s.SlowU) * time.Microsecond
	}
	if w.e.InReal {
		settle = 8 * time.Second
	}
	w.Sleep(time.Until(end) + settle)
	if s.Long > 0 {
		w.Sleep(time.Duration(s.Long) * time.Second)
	}
	return r
}

// endExcused tells why a channel at node n with peer may have ended by time t:
// nothing arrived for more than 6 s, a packet was retransmitted more than 100
// times, the peer disconnected, or the application closed it
func (w *World) endExcused(n, peer string, since, t time.Time) (string, bool) {
	last := since
	for _, a := range w.net.ArrivedCopy() {
		if a.To != n || a.From != peer || a.T.Before(since) || a.T.After(t) {
			continue
		}
		if a.T.Sub(last) > 6*time.Second {
			return "silence", true
		}
		last = a.T
		if a.D == nil || a.D.Hdr.Status == stDisconnect {
			return "disconnect", true
		}
	}
	if t.Sub(last) > 6*time.Second {
		return "silence", true
	}
	for _, d := range w.net.SentCopy() {
		if d.From == n && d.To == peer && isData(d.Hdr.Status) && d.Copy >= 100 && !d.T.Before(since) && !d.T.After(t) {
			return "fruitless", true
		}
	}
	return "", false
}

// judgeEnds checks that no side ended without reason, and notes whether one did
func (r *SessionRun) judgeEnds(s Session) {
	for side := 0; side < 2; side++ {
		st := r.S[side]
		peer := r.S[1-side]
		nots := st.Node.DestroyNotices(st.Ch, "node")
		if len(nots) == 0 && st.Err == nil && !st.Ch.Destroyed() {
			continue
		}
		r.Ended = true
		if s.CloseBy == side+1 {
			continue
		}
		t := time.Now()
		if len(nots) > 0 {
			t = nots[0].T
		}
		if _, ok := r.W.endExcused(st.Node.Addr(), peer.Node.Addr(), r.Zero, t); !ok {
			r.W.e.Failf("unexpected-end", "the channel of %s ended at %v without a reason (send error: %v)", st.Node.Name, r.W.Since(t), st.Err)
		}
	}
}

// judgeDelivery checks exactly-once in-order delivery
func (r *SessionRun) judgeDelivery(s Session) {
	for side := 0; side < 2; side++ {
		from, to := r.S[side], r.S[1-side]
		evs := to.Node.Msgs(to.Ch)
		complete := !r.Ended && s.CloseBy == 0
		if k, d := prefixOf(datas(evs), from.Sent, complete); k != "" {
			r.W.e.Failf(k, "%s to %s: %s", from.Node.Name, to.Node.Name, d)
		}
		if i, bad := mutated(evs); bad {
			r.W.e.Failf("mutated", "the bytes of message %d to %s changed after it was handed to the reader", i, to.Node.Name)
		}
		// nothing on a channel which is not the session's
		for _, ev := range to.Node.Events() {
			if ev.Kind == "msg" && ev.Ch != to.Ch {
				r.W.e.Failf("misattributed", "%s got a message on another channel (%s)", to.Node.Name, ev.Addr)
			}
			if ev.Kind == "msg" && ev.Level == "node" && ev.Addr != from.Node.Addr() {
				r.W.e.Failf("misattributed", "%s got a message from %s", to.Node.Name, ev.Addr)
			}
		}
		if to == r.S[0] && s.ChanRd && !s.Only {
			c := to.Node.Select(func(e Event) bool { return e.Kind == "msg" && e.Level == "chan" && e.Ch == to.Ch })
			if len(c) != len(evs) {
				r.W.e.Failf("channel-reader", "the channel reader of %s got %d messages, the node's reader %d", to.Node.Name, len(c), len(evs))
			}
		}
	}
}

// labels classifies the session
func (r *SessionRun) labels(s Session) {
	lost, dup, retr, slow := 0, 0, 0, 0
	for _, d := range r.W.net.SentCopy() {
		if d.T.Before(r.Zero) {
			continue
		}
		if len(d.Copies) == 0 {
			lost++
		}
		if len(d.Copies) > 1 {
			dup++
		}
		if isData(d.Hdr.Status) && d.Copy > 0 {
			retr++
		}
		if len(d.Copies) > 0 && d.Copies[0] > r.W.net.Latency {
			slow++
		}
	}
	e := r.W.e
	e.ClassIf(lost > 0, "datagrams lost")
	e.ClassIf(dup > 0, "datagrams duplicated")
	e.ClassIf(slow > 0, "datagrams delayed")
	e.ClassIf(retr > 0, "data retransmitted")
	e.ClassIf(r.Ended, "channel ended early")
	e.ClassIf(s.ChanRd, "channel reader")
	e.ClassIf(s.SlowU > 0, "slow reader")
	n := len(r.S[0].Sent) + len(r.S[1].Sent)
	e.ClassIf(len(r.S[0].Sent) > 0 && len(r.S[1].Sent) > 0, "both directions")
	e.Class("messages <= %d", pow10(n))
	if n > 1 && (lost+dup+slow > 0) {
		e.NonTrivial()
	}
}

func pow10(n int) int {
	p := 1
	for p < n {
		p *= 10
	}
	return p
}

func drawSends(rt *rapid.T, maxN int, sizes *rapid.Generator[int]) (l []Send, total, spanMs int) {
	t := [2]int{}
	for i := rapid.IntRange(1, 6).Draw(rt, "bursts"); i > 0; i-- {
		s := Send{Side: rapid.IntRange(0, 1).Draw(rt, "side"),
			WaitU: rapid.SampledFrom([]int{0, 10, 1000, 40_000, 300_000, 1_500_000}).Draw(rt, "wait"),
			N:     rapid.IntRange(1, maxN).Draw(rt, "n"),
			Size:  sizes.Draw(rt, "size"),
			GapU:  rapid.SampledFrom([]int{0, 0, 5, 500, 7000}).Draw(rt, "gap")}
		l = append(l, s)
		total += s.N
		t[s.Side] += s.WaitU + s.N*(s.GapU+20)
	}
	return l, total, max(t[0], t[1])/1000 + 1
}

func init() {
	sizes := rapid.OneOf(rapid.IntRange(0, 70), rapid.IntRange(0, 2000), rapid.SampledFrom([]int{0, 1, 16, 17, 20, 21, 32, 33, 64, 65, 1024, 4000}))
	register(&Spec{
		ID: "C01",
		Rule: "Two nodes, a channel, bursts of messages in both directions, and a generated fault plan (loss, duplication, delay and reordering of individual datagrams or at random, outages). " +
			"The received sequence of each direction is compared with the sent one. Non-trivial: at least two messages and at least one datagram lost, duplicated or delayed.",
		Cases: map[Tier]int{Quick: 8000, Thorough: 120000},
		Draw: func(rt *rapid.T, tier Tier) any {
			var s Session
			s.TickU = rapid.SampledFrom([]int{0, 0, 0, 50, 900, 5000}).Draw(rt, "tick")
			s.LatU = rapid.SampledFrom([]int{0, 100, 2000, 40_000, 150_000, 600_000}).Draw(rt, "lat")
			s.MaxA = rapid.SampledFrom([]int{0, 0, 0, 1400, 100, 7}).Draw(rt, "maxa")
			s.MaxB = rapid.SampledFrom([]int{0, 0, 0, 1400, 100, 7}).Draw(rt, "maxb")
			s.Fill = uint64(rapid.IntRange(0, 1000).Draw(rt, "fill"))
			s.ChanRd = rapid.Bool().Draw(rt, "chanrd")
			s.Only = s.ChanRd && rapid.Bool().Draw(rt, "only")
			s.Proc = rapid.IntRange(0, 2).Draw(rt, "proc")
			var n, span int
			s.Sends, n, span = drawSends(rt, 40, sizes)
			if rapid.IntRange(0, 19).Draw(rt, "long") == 11 { // many messages
				s.Sends = nil
				for i := rapid.IntRange(1, 2).Draw(rt, "bursts"); i > 0; i-- {
					s.Sends = append(s.Sends, Send{Side: rapid.IntRange(0, 1).Draw(rt, "side"), N: rapid.IntRange(300, 2500).Draw(rt, "many"),
						Size: rapid.IntRange(0, 90).Draw(rt, "size"), GapU: rapid.SampledFrom([]int{0, 0, 20, 500}).Draw(rt, "gap")})
					n, span = n+s.Sends[0].N, 3000
				}
				s.MaxA, s.MaxB = 0, 0
			}
			if rapid.IntRange(0, 5).Draw(rt, "slow") == 4 {
				s.SlowU = rapid.SampledFrom([]int{100, 700, 3000}).Draw(rt, "slowu")
			}
			if s.MaxA == 7 || s.MaxB == 7 { // keep the number of packets bounded
				for i := range s.Sends {
					s.Sends[i].Size %= 200
				}
			}
			s.Faults = drawFaults(rt, n, span+rapid.SampledFrom([]int{0, 500, 4000}).Draw(rt, "tail"))
			s.CloseBy = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2}).Draw(rt, "closeby")
			return s
		},
		Run: func(e *Env, raw jsonRaw) {
			s := decode[Session](raw)
			r := runSession(e, s, nil)
			if r == nil {
				return
			}
			r.judgeEnds(s)
			r.judgeDelivery(s)
			r.labels(s)
		},
	})
}

var _ = fmt.Sprint

// dump renders the traffic of a scenario for debugging
func (w *World) dump(max int) (s string) {
	for i, d := range w.net.SentCopy() {
		if i > max {
			break
		}
		s += fmt.Sprintf("%v %s>%s st=%d id=%d copy=%d len=%d delays=%v\n", w.Since(d.T), d.From, d.To, d.Hdr.Status, d.Hdr.ID, d.Copy, len(d.Data), d.Copies)
	}
	for _, n := range w.nodes {
		for _, ev := range n.Events() {
			s += fmt.Sprintf("%v %s %s/%s %s %v\n", w.Since(ev.T), n.Name, ev.Kind, ev.Level, brief(ev.Data), ev.Err)
		}
	}
	return
}
