package harness

// C15: many goroutines send at the same time.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// Flow is one sending goroutine
type Flow struct {
	Link  int   `json:"link"`
	Down  bool  `json:"down"` // from the hub
	N     int   `json:"n"`
	Sizes []int `json:"sizes"`
	GapU  int   `json:"gap"`
	Yield bool  `json:"yield"`
	Deliv bool  `json:"deliv"`
	AtU   int   `json:"at"`
}

// SendersCase is the scenario
type SendersCase struct {
	Max    [2]int `json:"max"` // of the hub and of the others
	LatU   int    `json:"lat"`
	TickU  int    `json:"tick"`  // datagrams arrive together every so often, µs
	Links  []bool `json:"links"` // does the hub connect
	Flows  []Flow `json:"flows"`
	Echo   bool   `json:"echo"` // the readers answer, too
	Faults Faults `json:"faults"`
	Cross  bool   `json:"cross"` // the others are connected in a ring, too
}

// flowMsg makes the content: which flow, which message, filler
func flowMsg(flow, n, size int) []byte {
	b := make([]byte, max(size, 9))
	b[0] = 'm'
	binary.BigEndian.PutUint32(b[1:], uint32(flow))
	binary.BigEndian.PutUint32(b[5:], uint32(n))
	x := uint32(flow*7919 + n*104729 + 1)
	for i := 9; i < len(b); i++ {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func runSenders(e *Env, c SendersCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	w.net.Tick = time.Duration(c.TickU) * time.Microsecond
	lat += w.net.Tick
	hub := w.Node(maxLenParam(c.Max[0])...)
	var links []*Link
	var others []*Node
	for _, by := range c.Links {
		n := w.Node(maxLenParam(c.Max[1])...)
		others = append(others, n)
		var l *Link
		if by {
			l = w.MustConnect(hub, n, false)
		} else if l = w.MustConnect(n, hub, false); l != nil {
			l = &Link{A: hub, B: n, CA: l.CB, CB: l.CA}
		}
		if l == nil {
			return
		}
		links = append(links, l)
	}
	if c.Cross && len(others) > 1 {
		for i := range others {
			a, b := others[i], others[(i+1)%len(others)]
			if a.ChannelTo(b.Addr()) != nil {
				continue
			}
			l := w.MustConnect(a, b, false)
			if l == nil {
				return
			}
			links = append(links, l)
		}
	}
	zero := time.Now()
	w.net.SetPolicy(c.Faults.policy(w, zero, func(d *Datagram) int {
		if classOf(d.Hdr.Status) == "ping" {
			return -1
		}
		if d.From == hub.Addr() {
			return 0
		}
		return 1
	}))
	// where the messages of a flow go
	type flow struct {
		Flow
		ch   *tru.Channel
		to   *Node
		in   *tru.Channel
		next int
		cbs  []int
		size func(i int) int
	}
	var mu sync.Mutex
	var flows []*flow
	for _, f := range c.Flows {
		l := links[f.Link%len(links)]
		x := &flow{Flow: f}
		if f.Down {
			x.ch, x.to, x.in = l.CA, l.B, l.CB
		} else {
			x.ch, x.to, x.in = l.CB, l.A, l.CA
		}
		x.cbs = make([]int, f.N)
		x.size = func(i int) int { return f.Sizes[i%len(f.Sizes)] }
		flows = append(flows, x)
	}
	nodes := append([]*Node{hub}, others...)
	echoes := map[*tru.Channel]int{} // answers sent on a channel
	if c.Echo {
		for _, n := range nodes {
			n.OnMsg = func(ev Event) bool {
				if ev.Err == nil && len(ev.Data) > 9 && ev.Data[0] == 'm' {
					b := append([]byte("e"), ev.Data[1:9]...)
					if _, err := ev.Ch.WriteTo(b); err != nil {
						e.Failf("write", "answering inside the reader: %v", err)
					}
					mu.Lock()
					echoes[ev.Ch]++
					mu.Unlock()
				}
				return false
			}
		}
	}
	var wg sync.WaitGroup
	barrier := make(chan struct{})
	for k, f := range flows {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-barrier
			time.Sleep(time.Duration(f.AtU) * time.Microsecond)
			for i := 0; i < f.N; i++ {
				var args []any
				if f.Deliv {
					args = append(args, func(_ *tru.Packet, err error) {
						mu.Lock()
						f.cbs[i]++
						mu.Unlock()
						if err != nil {
							e.Failf("delivery", "message %d of flow %d: %v", i, k, err)
						}
					}, 10*time.Minute)
				}
				b := flowMsg(k, i, f.size(i))
				_, err := f.ch.WriteTo(b, args...)
				if err != nil {
					e.Failf("write", "message %d of flow %d: %v", i, k, err)
					return
				}
				clear(b)
				if f.Yield {
					runtime.Gosched()
				}
				if f.GapU > 0 {
					time.Sleep(time.Duration(f.GapU) * time.Microsecond)
				}
			}
		}()
	}
	close(barrier)
	wg.Wait()
	sent := time.Now()
	end := zero.Add(time.Duration(c.Faults.UntilMs) * time.Millisecond)
	for _, o := range c.Faults.Outages {
		if t := zero.Add(time.Duration(o.From+o.Len) * time.Millisecond); t.After(end) {
			end = t
		}
	}
	w.Sleep(max(end.Sub(sent), 0))
	// as long as something arrives, at least; a retransmission may take 3 s
	total, last, idle := 0, -1, 0
	for idle < 4 && !e.Failed() {
		w.Sleep(4 * time.Second)
		total = 0
		for _, n := range nodes {
			n.mu.Lock()
			total += len(n.events)
			n.mu.Unlock()
		}
		if total == last {
			idle++
		} else {
			idle = 0
		}
		last = total
		if idle == 1 && allIn(w, nodes, c) {
			break
		}
	}
	// judge
	got := 0
	echoed := map[*tru.Channel]map[string]int{}
	for _, n := range nodes {
		for _, ev := range n.Events() {
			if ev.Kind == "err" {
				e.Failf("ended", "%s: channel %s: %v", n.Name, ev.Addr, ev.Err)
				return
			}
			if ev.Kind != "msg" || ev.Level != "node" {
				continue
			}
			if len(ev.Data) == 9 && ev.Data[0] == 'e' {
				if echoed[ev.Ch] == nil {
					echoed[ev.Ch] = map[string]int{}
				}
				echoed[ev.Ch][string(ev.Data)]++
				if k := echoed[ev.Ch][string(ev.Data)]; k > 1 {
					e.Failf("duplicate", "%s got an answer %x %d times", n.Name, ev.Data, k)
					return
				}
				continue
			}
			if len(ev.Data) < 9 || ev.Data[0] != 'm' {
				e.Failf("corrupt", "%s got a message nobody sent: %s", n.Name, brief(ev.Data))
				return
			}
			k, i := int(binary.BigEndian.Uint32(ev.Data[1:])), int(binary.BigEndian.Uint32(ev.Data[5:]))
			if k >= len(flows) || i >= flows[k].N || !bytes.Equal(ev.Data, flowMsg(k, i, flows[k].size(i))) {
				e.Failf("corrupt", "%s got a message nobody sent: %s", n.Name, brief(ev.Data))
				return
			}
			f := flows[k]
			if f.to != n || f.in != ev.Ch {
				e.Failf("misplaced", "message %d of flow %d came to %s on channel %s", i, k, n.Name, ev.Addr)
				return
			}
			if i != f.next {
				kind := "order"
				if i < f.next {
					kind = "duplicate"
				}
				e.Failf(kind, "flow %d (%d goroutines in all): message %d came when %d was expected", k, len(flows), i, f.next)
				return
			}
			f.next++
			got++
		}
	}
	for k, f := range flows {
		if f.next != f.N {
			e.Failf("missing", "flow %d: %d of %d messages arrived", k, f.next, f.N)
			return
		}
		if f.Deliv {
			for i, n := range f.cbs {
				if n != 1 {
					e.Failf("delivery", "flow %d: the delivery callback of message %d was called %d times", k, i, n)
					return
				}
			}
		}
	}
	if c.Echo {
		for _, l := range links {
			for _, d := range [][2]*tru.Channel{{l.CA, l.CB}, {l.CB, l.CA}} {
				if n := len(echoed[d[1]]); n != echoes[d[0]] {
					e.Failf("missing", "%d answers were sent from within a reader, %d arrived", echoes[d[0]], n)
					return
				}
			}
		}
	}
	// how many goroutines shared a channel
	share := map[*tru.Channel]int{}
	most, split := 0, false
	for _, f := range flows {
		share[f.ch]++
		most = max(most, share[f.ch])
		for _, s := range f.Sizes {
			m := c.Max[0]
			if !f.Down {
				m = c.Max[1]
			}
			split = split || m > 0 && s > m || s > defaultMax
		}
	}
	e.ClassIf(most >= 2, "2 or more goroutines on one channel")
	e.ClassIf(most >= 4, "4 or more goroutines on one channel")
	e.ClassIf(split, "messages of several packets")
	e.ClassIf(c.Echo, "readers answer")
	e.ClassIf(len(links) > 1, "several channels")
	if most >= 2 && got > 3 {
		e.NonTrivial()
	}
}

// allIn tells whether as many messages arrived as were sent, when nobody answers
func allIn(w *World, nodes []*Node, c SendersCase) bool {
	want, got := 0, 0
	for _, f := range c.Flows {
		want += f.N
		if c.Echo {
			return false
		}
	}
	for _, n := range nodes {
		got += len(n.Select(func(ev Event) bool { return ev.Kind == "msg" && ev.Level == "node" }))
	}
	return got >= want
}

func drawSenders(rt *rapid.T, tier Tier) (c SendersCase) {
	c.Max = [2]int{rapid.SampledFrom([]int{0, 20, 70, 200, 1000}).Draw(rt, "maxhub"), rapid.SampledFrom([]int{0, 20, 70, 200, 1000}).Draw(rt, "max")}
	c.TickU = rapid.SampledFrom([]int{0, 0, 0, 50, 900, 5000}).Draw(rt, "tick")
	c.LatU = rapid.SampledFrom([]int{0, 100, 2000, 30_000}).Draw(rt, "lat")
	c.Links = rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(rt, "links")
	c.Cross = rapid.Bool().Draw(rt, "cross")
	c.Echo = rapid.IntRange(0, 3).Draw(rt, "echo") == 0
	c.Faults = drawFaults(rt, 30, 3000)
	c.Faults.Handsh = false
	c.Faults.SlowMs, c.Faults.DupMs = min(c.Faults.SlowMs, 700), min(c.Faults.DupMs, 700)
	for i := range c.Faults.Rules {
		c.Faults.Rules[i].Ms = min(c.Faults.Rules[i].Ms, 1000)
	}
	for i := rapid.IntRange(2, 10).Draw(rt, "nflows"); i > 0; i-- {
		f := Flow{Link: rapid.IntRange(0, 5).Draw(rt, "link"), Down: rapid.Bool().Draw(rt, "down"), N: rapid.SampledFrom([]int{1, 2, 5, 12, 30, 60}).Draw(rt, "n")}
		f.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{9, 15, 64, 65, 71, 150, 500, 2500, 70_000}), 1, 4).Draw(rt, "sizes")
		m := c.Max[1]
		if f.Down {
			m = c.Max[0]
		}
		for j := range f.Sizes { // not too many packets
			if f.N > 5 {
				f.Sizes[j] = min(f.Sizes[j], 2500)
			}
			if m > 0 {
				f.Sizes[j] = min(f.Sizes[j], max(9, m*200/max(f.N, 10)))
			}
		}
		f.GapU = rapid.SampledFrom([]int{0, 0, 0, 1, 15, 20, 1000}).Draw(rt, "gap")
		f.Yield = rapid.Bool().Draw(rt, "yield")
		f.Deliv = rapid.IntRange(0, 3).Draw(rt, "deliv") == 0
		f.AtU = rapid.SampledFrom([]int{0, 0, 0, 15, 500, 100_000}).Draw(rt, "at")
		c.Flows = append(c.Flows, f)
	}
	return
}

func init() {
	register(&Spec{
		ID: "C15",
		Rule: "A hub and up to three nodes, connected with the hub and perhaps among each other; up to ten goroutines send generated numbers of messages of generated sizes at the same time, some with delivery callbacks, and readers may answer, over a network with generated faults. Every message must arrive intact, once, on the right channel and in the order of its goroutine. " +
			"Non-trivial: at least two goroutines shared a channel.",
		Cases: map[Tier]int{Quick: 4000, Thorough: 80000},
		Draw:  func(rt *rapid.T, tier Tier) any { return drawSenders(rt, tier) },
		Run:   func(e *Env, raw jsonRaw) { runSenders(e, decode[SendersCase](raw)) },
		Fixed: func(tier Tier) (l []any) {
			n := 100
			if tier == Thorough {
				n = 400
			}
			for k := 0; k < 2; k++ {
				c := SendersCase{Max: [2]int{20, 20}, LatU: 200, Links: []bool{k == 0}}
				for i := 0; i < 16; i++ {
					c.Flows = append(c.Flows, Flow{Down: i%2 == 0, N: n, Sizes: []int{9, 100, 45}, Yield: i%3 == 0})
				}
				l = append(l, c)
			}
			return
		},
	})
}

var _ = fmt.Sprint
