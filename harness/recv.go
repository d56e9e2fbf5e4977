package harness

// A reference peer which sends data packets in any order and any number of
// times to a node: the scenario of C23 (receiver) and part of C05 (wrap).

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// RecvStep is the arrival of one packet
type RecvStep struct {
	Idx   int  `json:"i"`              // which packet
	WaitU int  `json:"w,omitempty"`    // pause before it
	Bad   bool `json:"bad,omitempty"`  // its content is damaged (only if it is longer than 64 bytes)
	Next  bool `json:"next,omitempty"` // the following step arrives at the same instant
}

// RecvCase is the scenario
type RecvCase struct {
	Server bool       `json:"server"`
	ChanRd bool       `json:"chanrd"`
	Start  int        `json:"start"`
	Limit  int        `json:"limit"` // bytes per packet
	Sizes  []int      `json:"sizes"` // of the messages
	Fill   uint64     `json:"fill"`
	Steps  []RecvStep `json:"steps"`
	Mode   string     `json:"mode,omitempty"` // generated steps for big cases
	N      int        `json:"n,omitempty"`
	Echo   int        `json:"echo"`            // the node sends this many messages meanwhile
	Block  int        `json:"block,omitempty"` // the reader stays in this message until the end
}

type recvPacket struct {
	id    uint32
	last  bool
	plain []byte
}

func (c *RecvCase) packets() (l []recvPacket, msgs [][]byte) {
	id := uint32(c.Start)
	sizes := c.Sizes
	if c.Mode != "" {
		r := rand.New(rand.NewPCG(c.Fill, 5))
		for len(sizes) < c.N {
			sizes = append(sizes, r.IntN(40))
		}
	}
	for i, sz := range sizes {
		m := payload(c.Fill, i, sz)
		msgs = append(msgs, m)
		for {
			n := len(m)
			if c.Limit > 0 {
				n = min(n, c.Limit)
			}
			l = append(l, recvPacket{id, n == len(m), m[:n]})
			id = (id + 1) & (idLimit - 1)
			m = m[n:]
			if len(m) == 0 {
				break
			}
		}
	}
	return
}

func (c *RecvCase) steps(n int) []RecvStep {
	if c.Mode == "" {
		return c.Steps
	}
	r := rand.New(rand.NewPCG(c.Fill, 6))
	var l []RecvStep
	switch c.Mode {
	case "order":
		for i := range n {
			l = append(l, RecvStep{Idx: i})
		}
	case "reverse":
		for i := n - 1; i >= 0; i-- {
			l = append(l, RecvStep{Idx: i})
		}
	case "shuffle":
		for _, i := range r.Perm(n) {
			l = append(l, RecvStep{Idx: i})
		}
	case "gap": // one missing for long
		for i := 1; i < n; i++ {
			l = append(l, RecvStep{Idx: i})
		}
		l = append(l, RecvStep{Idx: 0})
	case "far": // packets far ahead of those expected, the last before the first
		for i := n - 1; i > 0; i -= 1000 {
			l = append(l, RecvStep{Idx: i})
		}
		for i := 0; i < n; i++ {
			l = append(l, RecvStep{Idx: i})
		}
	case "twice":
		for k := 0; k < 2; k++ {
			for i := 0; i < n; i++ {
				l = append(l, RecvStep{Idx: i})
			}
		}
	case "windows":
		for i := 0; i < n; i += 64 {
			for _, j := range r.Perm(min(64, n-i)) {
				l = append(l, RecvStep{Idx: i + j})
				if r.IntN(3) == 0 {
					l = append(l, RecvStep{Idx: r.IntN(i + j + 1)})
				}
			}
		}
	}
	return l
}

func runRecv(e *Env, c RecvCase) {
	w, n, p, s, ch := peerAndNode(e, 0, c.Server)
	if ch == nil {
		return
	}
	if c.Start != 0 && !setIDs(ch, 0, c.Start) {
		e.Class("packet numbers cannot be set")
		return
	}
	pks, msgs := c.packets()
	steps := c.steps(len(pks))
	// the reference receiver
	got := make([]bool, len(pks))
	next, whole := 0, 0
	model := func(i int) {
		got[i] = true
		for next < len(pks) && got[next] {
			if pks[next].last {
				whole++
			}
			next++
		}
	}
	stop := make(chan struct{})
	defer close(stop)
	go s.KeepAlive(stop)
	genuine := map[uint32]int{}
	early, repeated, bad := 0, 0, 0
	delivered := 0
	// a reader which blocks
	hold, calls, blocked := make(chan struct{}), 0, c.Block > 0
	release := sync.OnceFunc(func() { blocked = false; close(hold) })
	defer release()
	n.OnMsg = func(Event) bool {
		if calls++; calls == c.Block {
			<-hold
		}
		return false
	}
	check := func(k int) bool {
		w.Settle()
		evs := n.Msgs(ch)
		should := whole
		if blocked {
			should = min(whole, c.Block)
		}
		if len(evs) != should {
			e.Failf("reader", "after %d arrivals the reader got %d messages, packets which arrived make %d", k, len(evs), should)
			return false
		}
		for ; delivered < should; delivered++ {
			if !bytes.Equal(evs[delivered].Data, msgs[delivered]) {
				e.Failf("content", "message %d is %s, sent %s", delivered, brief(evs[delivered].Data), brief(msgs[delivered]))
				return false
			}
		}
		for id, want := range genuine {
			p.mu.Lock()
			have := s.Acked[id]
			p.mu.Unlock()
			if have != want {
				e.Failf("acknowledgements", "packet %d arrived %d times and was acknowledged %d times", id, want, have)
				return false
			}
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		if len(s.Acked) != len(genuine) {
			for id := range s.Acked {
				if genuine[id] == 0 {
					e.Failf("acknowledgements", "packet %d was acknowledged, it never arrived intact", id)
				}
			}
			return false
		}
		return true
	}
	every := 1
	if len(steps) > 200 {
		every = len(steps)/20 + 1
	}
	for k, st := range steps {
		if st.WaitU > 0 {
			time.Sleep(time.Duration(st.WaitU) * time.Microsecond)
		}
		pk := pks[st.Idx%len(pks)]
		i := st.Idx % len(pks)
		status := stDataNext
		if pk.last {
			status = stData
		}
		body := sealData(s.Key, pk.id, pk.plain)
		if st.Bad && len(body) > 64 {
			body[int(c.Fill+uint64(k))%len(body)] ^= byte(1 << (k % 8))
			bad++
		} else {
			genuine[pk.id]++
			if got[i] {
				repeated++
			} else if i != next {
				early++
			}
			model(i)
		}
		if k < c.Echo {
			ch.WriteTo([]byte(fmt.Sprint("echo", k)))
		}
		p.Send(n.Addr(), status, pk.id, body)
		if k%500 == 499 { // what is unread is limited
			w.Settle()
		}
		if !st.Next && (k%every == 0 || k == len(steps)-1) {
			if !check(k + 1) {
				return
			}
		}
	}
	if !check(len(steps)) {
		return
	}
	release()
	w.Sleep(1500 * time.Millisecond)
	if !check(len(steps)) {
		return
	}
	if len(n.DestroyNotices(ch, "node")) > 0 || ch.Destroyed() {
		e.Failf("ended", "the channel was destroyed")
	}
	if i, b := mutated(n.Msgs(ch)); b {
		e.Failf("mutated", "the bytes of message %d changed after it was handed to the reader", i)
	}
	e.ClassIf(early > 0, "early packets")
	e.ClassIf(early > 50, "more than 50 early packets")
	e.ClassIf(repeated > 0, "repeated packets")
	e.ClassIf(bad > 0, "damaged packets")
	e.ClassIf(next < len(pks), "gap never filled")
	e.ClassIf(len(pks) > len(msgs), "messages of several packets")
	e.ClassIf(c.Start > 0, "numbers wrap around")
	e.ClassIf(c.Block > 0 && whole > c.Block, "blocked reader")
	if early > 0 && repeated > 0 {
		e.NonTrivial()
	}
}

// BlockedCase is a reader which blocks while more packets arrive than a node
// has to keep: those it acknowledges must be delivered afterwards
type BlockedCase struct {
	Blocked int    `json:"blocked"` // number of packets
	Limit   int    `json:"limit"`
	Mode    string `json:"mode"`
	Server  bool   `json:"server"`
	Fill    uint64 `json:"fill"`
	Chunk   int    `json:"chunk"` // so many arrive at an instant
}

func runBlocked(e *Env, c BlockedCase) {
	w, n, p, s, ch := peerAndNode(e, 0, c.Server)
	if ch == nil {
		return
	}
	rc := RecvCase{Limit: c.Limit, Fill: c.Fill, Mode: c.Mode, N: c.Blocked}
	pks, msgs := rc.packets()
	hold, calls := make(chan struct{}), 0
	release := sync.OnceFunc(func() { close(hold) })
	defer release()
	n.OnMsg = func(Event) bool {
		if calls++; calls == 1 {
			<-hold
		}
		return false
	}
	stop := make(chan struct{})
	defer close(stop)
	go s.KeepAlive(stop)
	arrived, acked := make([]int, len(pks)), make([]bool, len(pks))
	next, whole := 0, 0
	refused := 0
	look := func() (ok bool) {
		w.Settle()
		p.mu.Lock()
		defer p.mu.Unlock()
		for i, pk := range pks {
			k := s.Acked[pk.id]
			if k > arrived[i] {
				e.Failf("acknowledgements", "packet %d arrived %d times and was acknowledged %d times", pk.id, arrived[i], k)
				return false
			}
			acked[i] = k > 0
			if k < arrived[i] {
				if whole <= 1000 {
					e.Failf("acknowledgements", "packet %d arrived %d times and was acknowledged %d times, %d messages wait", pk.id, arrived[i], k, whole)
					return false
				}
				refused++
			}
		}
		return true
	}
	send := func(i int) {
		pk := pks[i]
		status := stDataNext
		if pk.last {
			status = stData
		}
		arrived[i]++
		p.Send(n.Addr(), status, pk.id, sealData(s.Key, pk.id, pk.plain))
	}
	for k, st := range rc.steps(len(pks)) {
		send(st.Idx)
		for next < len(pks) && arrived[next] > 0 {
			if pks[next].last {
				whole++
			}
			next++
		}
		if k%c.Chunk == c.Chunk-1 && !look() {
			return
		}
	}
	if !look() {
		return
	}
	release()
	w.Sleep(10 * time.Millisecond)
	must := 0
	for i, pk := range pks {
		if !acked[i] {
			break
		}
		if pk.last {
			must++
		}
	}
	compare := func(least int) bool {
		evs := n.Msgs(ch)
		if len(evs) < least {
			e.Failf("lost", "the reader got %d messages when it went on, acknowledged packets make %d", len(evs), least)
			return false
		}
		for i, ev := range evs {
			if i >= len(msgs) || !bytes.Equal(ev.Data, msgs[i]) {
				e.Failf("content", "message %d is %s", i, brief(ev.Data))
				return false
			}
		}
		return true
	}
	if !compare(must) {
		return
	}
	// the rest is sent again
	for i := range pks {
		if !acked[i] {
			send(i)
			if i%200 == 0 {
				w.Settle()
			}
		}
	}
	w.Sleep(10 * time.Millisecond)
	if !compare(len(msgs)) {
		return
	}
	if ch.Destroyed() {
		e.Failf("ended", "the channel was destroyed")
	}
	e.ClassIf(refused > 0, "more packets than a node keeps")
	e.NonTrivial()
}

func drawRecv(rt *rapid.T) (c RecvCase) {
	c.Server = rapid.Bool().Draw(rt, "server")
	c.Limit = rapid.SampledFrom([]int{0, 0, 10, 70, 300}).Draw(rt, "limit")
	c.Fill = uint64(rapid.IntRange(0, 1000).Draw(rt, "fill"))
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 4, 9, 10, 11, 20, 30, 64, 65, 70, 140, 300, 301, 700}), 1, 24).Draw(rt, "sizes")
	pks, _ := c.packets()
	n := len(pks)
	// arrivals: in rounds; each round delivers some of what is missing, jittered
	missing := make([]int, n)
	for i := range missing {
		missing[i] = i
	}
	rounds := rapid.IntRange(1, 3).Draw(rt, "rounds")
	for r := 0; r < rounds && len(missing) > 0; r++ {
		jitter := rapid.SampledFrom([]int{0, 1, 3, 8, 1000}).Draw(rt, "jitter")
		lose := rapid.SampledFrom([]int{0, 1, 3, 6}).Draw(rt, "lose")
		if r == rounds-1 {
			lose = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "loselast")
		}
		type at struct{ idx, pos int }
		var l []at
		var left []int
		for k, i := range missing {
			if lose > 0 && rapid.IntRange(0, 9).Draw(rt, "lost") < lose {
				left = append(left, i)
				continue
			}
			pos := k * 4
			if jitter > 0 {
				pos += 4 * rapid.IntRange(0, jitter).Draw(rt, "pos")
			}
			l = append(l, at{i, pos})
		}
		// stable order by position
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && l[j].pos < l[j-1].pos; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		for _, a := range l {
			st := RecvStep{Idx: a.idx}
			switch rapid.IntRange(0, 11).Draw(rt, "step") {
			case 0:
				st.WaitU = rapid.SampledFrom([]int{10, 1000, 150_000}).Draw(rt, "w")
			case 1, 2, 3:
				st.Next = true
			case 4:
				c.Steps = append(c.Steps, RecvStep{Idx: a.idx, Bad: true})
			case 5, 6:
				// a repetition of something
				c.Steps = append(c.Steps, RecvStep{Idx: rapid.IntRange(0, n-1).Draw(rt, "rep"), Next: rapid.Bool().Draw(rt, "repn")})
			}
			c.Steps = append(c.Steps, st)
		}
		missing = left
	}
	for i := rapid.IntRange(0, 4).Draw(rt, "tail"); i > 0; i-- {
		c.Steps = append(c.Steps, RecvStep{Idx: rapid.IntRange(0, n-1).Draw(rt, "tailrep")})
	}
	if rapid.IntRange(0, 3).Draw(rt, "echoes") == 0 {
		c.Echo = rapid.IntRange(1, 10).Draw(rt, "echo")
	}
	if rapid.IntRange(0, 5).Draw(rt, "blocking") == 3 {
		c.Block = rapid.IntRange(1, len(c.Sizes)).Draw(rt, "block")
	}
	return
}

func init() {
	register(&Spec{
		ID:       "C23",
		CPULimit: 200, WallLimit: 400,
		Rule: "A reference peer, client or server, sends the packets of a generated list of messages to a node in a generated order with gaps, repetitions and damaged copies. After every arrival the messages the reader got are compared with those of a reference receiver and the acknowledgements counted per number. The reader may block meanwhile, also until there are more messages than a node keeps. " +
			"Non-trivial: at least one packet came early and one came again.",
		Cases: map[Tier]int{Quick: 12000, Thorough: 200000},
		Fixed: func(tier Tier) (l []any) {
			n := 1500
			if tier == Thorough {
				n = 6000
			}
			for i, m := range []string{"reverse", "shuffle", "gap", "twice", "windows"} {
				l = append(l, RecvCase{Server: i%2 == 0, Fill: uint64(4*i + 1), Mode: m, N: n})
			}
			l = append(l, RecvCase{Mode: "shuffle", N: 700, Limit: 7, Fill: 8, Server: true})
			// half of the numbers ahead, and more on thorough
			far := 70_000
			if tier == Thorough {
				far = idLimit/2 - 1
			}
			l = append(l, RecvCase{Mode: "far", N: far, Fill: 3})
			for i, m := range []string{"order", "windows", "reverse", "shuffle", "gap", "twice"} {
				l = append(l, BlockedCase{Blocked: 2500, Mode: m, Server: i%2 == 0, Fill: uint64(i), Chunk: []int{1, 50, 2000, 7, 300, 10}[i], Limit: []int{0, 20, 0, 0, 9, 0}[i]})
			}
			return
		},
		Draw: func(rt *rapid.T, tier Tier) any { return drawRecv(rt) },
		Run: func(e *Env, raw jsonRaw) {
			if c := decode[BlockedCase](raw); c.Blocked > 0 {
				runBlocked(e, c)
				return
			}
			runRecv(e, decode[RecvCase](raw))
		},
	})
}
