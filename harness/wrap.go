package harness

// C05: packet numbers wrap around at 2^20.

import (
	"bytes"
	"encoding/binary"
	"time"

	"pgregory.net/rapid"
)

// WrapCase is one of several scenarios with numbers near the wrap
type WrapCase struct {
	Kind    string    `json:"kind"`
	Session *Session  `json:"session,omitempty"`
	StartA  int       `json:"starta,omitempty"`
	StartB  int       `json:"startb,omitempty"`
	Acks    *AckCase  `json:"acks,omitempty"`
	Recv    *RecvCase `json:"recv,omitempty"`
	Server  bool      `json:"server,omitempty"`
	Always  bool      `json:"always,omitempty"`
	Extra   int       `json:"extra,omitempty"`
}

func drawStart(rt *rapid.T, n int) int {
	back := rapid.IntRange(0, max(n, 1)+2).Draw(rt, "back")
	return (idLimit - back) & (idLimit - 1)
}

// checkNumbers checks that the numbers of new data packets from a to b are in
// sequence starting at start; it returns how many there were
func (w *World) checkNumbers(e *Env, from, to string, since time.Time, start int) int {
	n := 0
	for _, d := range w.net.SentCopy() {
		if d.From != from || d.To != to || !isData(d.Hdr.Status) || d.T.Before(since) {
			continue
		}
		v := binary.LittleEndian.Uint32(d.Data) & 0xffffff
		if v >= idLimit {
			e.Failf("number", "a data packet has number %d", v)
		}
		k := int((d.Hdr.ID - uint32(start)) & (idLimit - 1))
		if k > n {
			e.Failf("number", "a new data packet has number %d, the next is %d", d.Hdr.ID, (start+n)&(idLimit-1))
		}
		if k == n {
			n++
		}
	}
	return n
}

func runWrapSession(e *Env, c WrapCase) {
	ok := true
	s := *c.Session
	r := runSession(e, s, func(r *SessionRun) {
		ok = setIDs(r.S[0].Ch, uint32(c.StartA), c.StartB) && setIDs(r.S[1].Ch, uint32(c.StartB), c.StartA)
	})
	if r == nil {
		return
	}
	if !ok {
		e.Class("packet numbers cannot be set")
		return
	}
	r.judgeEnds(s)
	r.judgeDelivery(s)
	na := r.W.checkNumbers(e, r.S[0].Node.Addr(), r.S[1].Node.Addr(), r.Zero, c.StartA)
	nb := r.W.checkNumbers(e, r.S[1].Node.Addr(), r.S[0].Node.Addr(), r.Zero, c.StartB)
	e.ClassIf(c.StartA+na > idLimit, "client wraps")
	e.ClassIf(c.StartB+nb > idLimit, "server wraps")
	r.W.e.res.NonTrivial = false
	r.labels(s)
	if !(c.StartA+na > idLimit || c.StartB+nb > idLimit) {
		e.mu.Lock()
		e.res.NonTrivial = false
		e.mu.Unlock()
	}
}

// runWrapWhole sends through all numbers
func runWrapWhole(e *Env, c WrapCase) {
	w, n, p, s, ch := peerAndNode(e, 0, c.Server)
	if ch == nil {
		return
	}
	if !c.Always && setIDs(ch, 0, 0) {
		e.Class("not needed: packet numbers can be set")
		return
	}
	w.net.mu.Lock()
	w.net.noCap = true
	w.net.mu.Unlock()
	total := idLimit + c.Extra
	var sent, gotAcks, dups int
	p.mu.Lock()
	p.AutoAck = false
	p.OnPacket = func(pk PeerPacket) bool {
		p.mu.Lock()
		p.Log = p.Log[:0]
		p.mu.Unlock()
		switch {
		case isData(pk.Hdr.Status):
			want := uint32(sent) & (idLimit - 1)
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], uint32(sent))
			if pk.Hdr.ID == want && bytes.Equal(pk.Plain, b[:]) {
				sent++
			} else if pk.Hdr.ID == want {
				e.Failf("content", "packet %d has content %x", pk.Hdr.ID, pk.Plain)
			} else if (want-pk.Hdr.ID)&(idLimit-1) > 1000 {
				e.Failf("number", "packet %d arrived, the next is %d", pk.Hdr.ID, want)
			}
			p.Send(pk.From, stAck, pk.Hdr.ID, nil)
			return true
		case pk.Hdr.Status == stAck:
			gotAcks++
			return true
		}
		return false
	}
	p.mu.Unlock()
	count := 0
	n.OnMsg = func(ev Event) bool {
		n.mu.Lock()
		n.events = n.events[:0]
		n.mu.Unlock()
		if binary.BigEndian.Uint32(ev.Data) != uint32(count) {
			e.Failf("content", "message %d received is %x", count, ev.Data)
		}
		count++
		return false
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < total && !e.Failed(); i++ {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], uint32(i))
			if _, err := ch.WriteTo(b[:]); err != nil {
				e.Failf("write", "message %d: %v", i, err)
				return
			}
			if i%256 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	for i := 0; i < total && !e.Failed(); i++ {
		// now and then packets swap places, or come twice
		k, again := i, 1
		switch i % 113 {
		case 20, 22, 31:
			k = min(i+1, total-1)
		case 21, 23, 32:
			k = i - 1
		case 50:
			again = 2
		}
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(k))
		dups += again - 1
		for ; again > 0; again-- {
			s.Data(uint32(k)&(idLimit-1), true, b[:])
		}
		if i%128 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	<-done
	w.Sleep(10 * time.Second)
	if e.Failed() {
		return
	}
	if sent != total || count != total || gotAcks != total+dups {
		e.Failf("missing", "of %d messages each way %d arrived at the peer and %d at the node, %d acknowledgements", total, sent, count, gotAcks)
	}
	e.Class("all numbers used")
	e.NonTrivial()
}

func init() {
	register(&Spec{
		ID:       "C05",
		CPULimit: 500, WallLimit: 600,
		Rule: "Sessions between two nodes (as in C01), acknowledgement plans (as in C03, C04) and arrival orders (as in C23) with packet numbers set to just below 2^20 so that they wrap during the case; the oracles are those of these properties, and new packets must be numbered in sequence modulo 2^20. " +
			"The thorough tier also sends 2^20 messages each way. Non-trivial: the numbers wrapped and the network interfered.",
		Cases: map[Tier]int{Quick: 2600, Thorough: 40000},
		Fixed: func(tier Tier) (l []any) {
			l = append(l, WrapCase{Kind: "whole", Server: true, Extra: 300, Always: true})
			if tier == Thorough {
				l = append(l, WrapCase{Kind: "whole", Extra: 300, Always: true})
			}
			return
		},
		Draw: func(rt *rapid.T, tier Tier) any {
			var c WrapCase
			switch rapid.IntRange(0, 4).Draw(rt, "kind") {
			case 0, 1:
				c.Kind = "session"
				var s Session
				s.LatU = rapid.SampledFrom([]int{0, 100, 20_000, 150_000}).Draw(rt, "lat")
				s.MaxA = rapid.SampledFrom([]int{0, 0, 20}).Draw(rt, "maxa")
				s.MaxB = rapid.SampledFrom([]int{0, 0, 20}).Draw(rt, "maxb")
				s.Fill = uint64(rapid.IntRange(0, 1000).Draw(rt, "fill"))
				var n, span int
				s.Sends, n, span = drawSends(rt, 20, rapid.SampledFrom([]int{0, 4, 30, 64, 65, 150}))
				s.Faults = drawFaults(rt, n, span+rapid.SampledFrom([]int{0, 500, 3000}).Draw(rt, "tail"))
				c.StartA, c.StartB = drawStart(rt, n), drawStart(rt, n)
				for i := range s.Faults.Rules {
					st := c.StartA
					if s.Faults.Rules[i].Dir == 1 != (s.Faults.Rules[i].Class == "ack") {
						st = c.StartB
					}
					s.Faults.Rules[i].Nth = (s.Faults.Rules[i].Nth + st) & (idLimit - 1)
				}
				c.Session = &s
			case 2, 3:
				c.Kind = "acks"
				a := drawAcks(rt, true)
				a.LenS = 14
				a.Start = drawStart(rt, len(a.Sends))
				if a.Start == 0 {
					a.Start = idLimit - 1
				}
				c.Acks = &a
			case 4:
				c.Kind = "recv"
				r := drawRecv(rt)
				p, _ := r.packets()
				r.Start = drawStart(rt, len(p))
				c.Recv = &r
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) {
			c := decode[WrapCase](raw)
			e.Class("%s", c.Kind)
			switch c.Kind {
			case "session":
				runWrapSession(e, c)
			case "acks":
				if r := runAcks(e, *c.Acks); r != nil {
					r.judgeCallbacks(*c.Acks)
					r.judgeRetransmission(*c.Acks)
				}
			case "recv":
				runRecv(e, *c.Recv)
			case "whole":
				runWrapWhole(e, c)
			}
		},
	})
}
