package harness

// C09: many channels of one node, independent and correctly attributed.

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// HubPeer is one peer of the hub
type HubPeer struct {
	Host   int  `json:"host"`
	Port   int  `json:"port"`
	ByHub  bool `json:"byhub"`  // the hub connects
	ChanRd bool `json:"chanrd"` // the connecting side has a channel reader
	// what happens to this peer
	Fault  string `json:"fault"` // "", loss, outage, flood, close, hubclose, die, nodeclose, deaf
	AtMs   int    `json:"at"`
	LenMs  int    `json:"len"`
	NoRead bool   `json:"noread"` // has no callbacks at all
	Plain  bool   `json:"plain"`  // has no callbacks but a reader
}

// HubSend is a burst of messages
type HubSend struct {
	Peer  int  `json:"peer"`
	Down  bool `json:"down"` // from the hub to the peer
	AtMs  int  `json:"at"`
	N     int  `json:"n"`
	Size  int  `json:"size"`
	Taken bool `json:"taken"` // the channel reader marks them processed
	Deliv bool `json:"deliv"`
}

// HubCase is the scenario
type HubCase struct {
	LatU  int       `json:"lat"`
	TickU int       `json:"tick"` // datagrams arrive together every so often, µs
	Max   int       `json:"max"`
	Block int       `json:"block"` // the hub's reader takes so long for its first message, ms
	Peers []HubPeer `json:"peers"`
	Sends []HubSend `json:"sends"`
	Late  []HubLate `json:"late,omitempty"`
}

// HubLate is a node which connects while the others are at work
type HubLate struct {
	AtMs  int  `json:"at"`
	Host  int  `json:"host"`
	Port  int  `json:"port"`
	ByHub bool `json:"byhub"`
	N     int  `json:"n"`
	Bye   bool `json:"bye"` // closes the channel afterwards
}

func runHub(e *Env, c HubCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	w.net.Tick = time.Duration(c.TickU) * time.Microsecond
	lat += w.net.Tick
	taken := func(ev Event) bool { return ev.Level == "chan" && bytes.Contains(ev.Data, []byte("taken")) }
	hub := w.Node(maxLenParam(c.Max)...)
	var first sync.Once
	hub.OnMsg = func(ev Event) bool {
		first.Do(func() { time.Sleep(time.Duration(c.Block) * time.Millisecond) })
		return taken(ev)
	}
	type link struct {
		p     HubPeer
		n     *Node
		ch    [2]*tru.Channel // 0 at the hub, 1 at the peer
		sent  [2][][]byte     // 0 by the hub
		at    map[string]time.Time
		ids   map[string]int
		cbs   map[string][]string
		fault bool
		clean bool // undisturbed: all is delivered promptly
		err   [2]error
	}
	var mu sync.Mutex
	var links []*link
	for i, p := range c.Peers {
		var params []any
		if p.NoRead {
			params = append(params, bareMark{})
		} else if p.Plain {
			params = append(params, plainMark{})
		}
		n, err := w.TryNode(p.Host, p.Port, append(params, maxLenParam(c.Max)...)...)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		n.OnMsg = taken
		l := &link{p: p, n: n, at: map[string]time.Time{}, ids: map[string]int{}, cbs: map[string][]string{}}
		links = append(links, l)
		var x *Link
		if p.ByHub {
			if x = w.MustConnect(hub, n, p.ChanRd); x != nil {
				l.ch = [2]*tru.Channel{x.CA, x.CB}
			}
		} else if x = w.MustConnect(n, hub, p.ChanRd); x != nil {
			l.ch = [2]*tru.Channel{x.CB, x.CA}
		}
		if x == nil {
			return
		}
		_ = i
	}
	zero := time.Now()
	byAddr := map[string]*link{}
	for _, l := range links {
		byAddr[l.n.Addr()] = l
		l.clean = l.p.Fault == "" || l.p.Fault == "flood"
	}
	// attribution of the channels themselves
	for i, l := range links {
		for k, ch := range l.ch {
			want, node := l.n, hub
			if k == 1 {
				want, node = hub, l.n
			}
			if ch.Addr().String() != want.Addr() || ch.String() != want.Addr() || ch.IP().String() != want.IP || ch.Port() != want.Port {
				e.Failf("address", "peer %d: the channel of %s with %s says %s, %s, %s, %d", i, node.Name, want.Addr(), ch.Addr(), ch, ch.IP(), ch.Port())
			}
			if ch.ServerMode() != (l.p.ByHub == (k == 1)) {
				e.Failf("role", "peer %d: the channel of %s: server mode %v", i, node.Name, ch.ServerMode())
			}
		}
		if k := len(l.n.Channels()); k != 1 {
			e.Failf("listed", "%s lists %d channels", l.n.Name, k)
		}
	}
	if k := len(hub.Channels()); k != len(links) {
		e.Failf("listed", "the hub lists %d channels with %d peers", k, len(links))
	}
	w.net.SetPolicy(func(d *Datagram) Fate {
		ok := Fate{Delays: []time.Duration{lat}}
		l := byAddr[d.From]
		if l == nil {
			l = byAddr[d.To]
		}
		if l == nil {
			return ok
		}
		t := d.T.Sub(zero) / time.Millisecond
		in := int(t) >= l.p.AtMs && int(t) < l.p.AtMs+l.p.LenMs
		switch l.p.Fault {
		case "loss":
			f := Faults{Seed: uint32(l.p.Port)}
			if in && f.hash(0, d, 1)%3 == 0 {
				return Fate{}
			}
			if in && f.hash(0, d, 2)%3 == 0 {
				return Fate{Delays: []time.Duration{lat, lat + time.Duration(f.hash(0, d, 3)%200)*time.Millisecond}}
			}
		case "outage":
			if in {
				return Fate{}
			}
		case "die":
			if int(t) >= l.p.AtMs {
				return Fate{}
			}
		case "deaf":
			if int(t) >= l.p.AtMs && d.To == l.n.Addr() && classOf(d.Hdr.Status) == "data" {
				return Fate{}
			}
		}
		return ok
	})
	var wg sync.WaitGroup
	for pi, l := range links {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch l.p.Fault {
			case "close", "hubclose", "nodeclose":
				time.Sleep(time.Until(zero.Add(time.Duration(l.p.AtMs) * time.Millisecond)))
				switch l.p.Fault {
				case "close":
					l.ch[1].Close()
				case "hubclose":
					l.ch[0].Close()
				case "nodeclose":
					l.n.Close()
				}
			}
		}()
		for down := 0; down < 2; down++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				side := 1 - down // 0: the hub sends
				k := 0
				for _, s := range c.Sends {
					if s.Peer != pi || s.Down != (side == 0) {
						continue
					}
					time.Sleep(time.Until(zero.Add(time.Duration(s.AtMs) * time.Millisecond)))
					for i := 0; i < s.N; i++ {
						tag := fmt.Sprintf("%d/%d/%d", pi, side, k)
						k++
						txt := tag + "/"
						if s.Taken {
							txt += "taken/"
						}
						msg := []byte(txt + strings.Repeat("#", max(0, s.Size-len(txt))))
						var args []any
						if s.Deliv {
							args = append(args, func(pac *tru.Packet, err error) {
								mu.Lock()
								l.cbs[tag] = append(l.cbs[tag], fmt.Sprintf("%d %v", pac.ID(), err))
								mu.Unlock()
							})
						}
						mu.Lock()
						l.sent[side] = append(l.sent[side], msg)
						l.at[tag] = time.Now()
						mu.Unlock()
						id, err := l.ch[side].WriteTo(append([]byte{}, msg...), args...)
						mu.Lock()
						l.ids[tag] = id
						l.at[tag] = time.Now()
						if err != nil {
							l.err[side] = err
							l.sent[side] = l.sent[side][:len(l.sent[side])-1]
							delete(l.ids, tag)
							mu.Unlock()
							return
						}
						mu.Unlock()
					}
				}
			}()
		}
	}
	late := map[*tru.Channel]bool{}
	lateAlive := 0
	for i, j := range c.Late {
		n, err := w.TryNode(j.Host, j.Port)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(zero.Add(time.Duration(j.AtMs) * time.Millisecond)))
			from, to := n, hub
			if j.ByHub {
				from, to = hub, n
			}
			ch, err := from.Tru.Connect(to.Addr())
			if err != nil {
				e.Failf("late", "a further node could not connect at %dms: %v", j.AtMs, err)
				return
			}
			time.Sleep(lat + 20*time.Millisecond)
			hubCh := hub.ChannelTo(n.Addr())
			mu.Lock()
			late[hubCh] = true
			mu.Unlock()
			pre := fmt.Sprintf("late%d-", i)
			for k := 0; k < j.N; k++ {
				if _, err := ch.WriteTo([]byte(fmt.Sprint(pre, k))); err != nil {
					e.Failf("late", "a further node connected at %dms and could not send: %v", j.AtMs, err)
					return
				}
			}
			time.Sleep(lat + 50*time.Millisecond + time.Duration(c.Block)*time.Millisecond)
			got := to.Select(func(ev Event) bool { return ev.Kind == "msg" && bytes.HasPrefix(ev.Data, []byte(pre)) })
			if len(got) != j.N {
				e.Failf("late", "a further node connected at %dms: %d of %d messages arrived", j.AtMs, len(got), j.N)
			}
			for _, ev := range got {
				if ev.Addr != from.Addr() {
					e.Failf("late", "a message of %s was attributed to %s", from.Name, ev.Addr)
				}
			}
			if ch.Destroyed() || hubCh == nil || hubCh.Destroyed() {
				e.Failf("late", "a further node connected at %dms, its channel has ended", j.AtMs)
			}
			if j.Bye {
				ch.Close()
			} else {
				mu.Lock()
				lateAlive++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	end := time.Now()
	for _, l := range links {
		long := l.p.LenMs
		if l.p.Fault == "deaf" {
			long = 330_000
		}
		if t := zero.Add(time.Duration(l.p.AtMs+long) * time.Millisecond); t.After(end) {
			end = t
		}
	}
	w.Sleep(time.Until(end) + 9*time.Second + 4*lat)

	if len(byAddr) != len(links) {
		panic(harnessBug("peers share an address"))
	}
	// every event of the hub and of the peers
	for pi, l := range links {
		for side := 0; side < 2; side++ { // side 0: what the hub received
			node, peer := hub, l.n
			if side == 1 {
				node, peer = l.n, hub
			}
			if l.p.NoRead && side == 1 {
				continue
			}
			ch := l.ch[side]
			sent := l.sent[1-side]
			name := fmt.Sprintf("peer %d: %s from %s", pi, node.Name, peer.Name)
			chanRd := l.p.ChanRd && l.p.ByHub == (side == 0)
			evs := node.Select(func(ev Event) bool { return ev.Kind == "msg" && ev.Ch == ch })
			first := "node"
			if chanRd {
				first = "chan"
			}
			var got [][]byte
			for i, ev := range evs {
				if ev.Level != first {
					continue
				}
				got = append(got, ev.Data)
				isTaken := chanRd && taken(ev)
				follows := i+1 < len(evs) && evs[i+1].Level == "node" && bytes.Equal(evs[i+1].Data, ev.Data)
				if chanRd && follows == isTaken {
					e.Failf("chain", "%s: message %d: the channel reader marked it processed: %v, the node's reader got it next: %v", name, len(got)-1, isTaken, follows)
				}
				if len(got) <= len(sent) {
					tag := strings.Join(strings.SplitN(string(sent[len(got)-1]), "/", 4)[:3], "/")
					late := lat + 50*time.Millisecond
					if side == 0 {
						late += time.Duration(c.Block) * time.Millisecond
					}
					if d := ev.T.Sub(l.at[tag]); l.clean && d > late {
						e.Failf("delayed", "%s: message %d arrived %v after it was sent, nothing disturbs this channel", name, len(got)-1, d)
					}
					if id, ok := l.ids[tag]; ok && ev.ID != id {
						e.Failf("id", "%s: message %d has number %d, WriteTo returned %d", name, len(got)-1, ev.ID, id)
					}
				}
			}
			if chanRd {
				k := 0
				for _, ev := range evs {
					if ev.Level == "node" {
						k++
					}
				}
				n := 0
				for _, g := range got {
					if !bytes.Contains(g, []byte("taken")) {
						n++
					}
				}
				if k != n {
					e.Failf("chain", "%s: the node's reader got %d messages, the channel reader left %d to it", name, k, n)
				}
			} else if len(got) != len(evs) {
				e.Failf("chain", "%s: a channel reader was called on a channel without one", name)
			}
			complete := l.clean || l.p.Fault == "loss" && !l.ch[0].Destroyed() && !l.ch[1].Destroyed()
			if kind, d := prefixOf(got, sent, complete); kind != "" {
				e.Failf(kind, "%s: %s", name, d)
			}
			for _, ev := range node.Events() {
				if ev.Kind != "msg" && ev.Kind != "err" || ev.Ch == nil {
					continue
				}
				if ev.Ch == ch && (ev.Addr != peer.Addr() || ev.Server != ch.ServerMode()) {
					e.Failf("attribution", "%s: an event with address %s, server mode %v", name, ev.Addr, ev.Server)
				}
				if side == 1 && ev.Ch != ch {
					e.Failf("attribution", "%s: an event on another channel %s", name, ev.Addr)
				}
			}
		}
		for tag, id := range l.ids {
			cbs := l.cbs[tag]
			if len(cbs) > 1 {
				e.Failf("delivery", "message %s: %d delivery callbacks", tag, len(cbs))
			}
			for _, x := range cbs {
				// the last packet of the message reports
				var got int
				var rest string
				fmt.Sscanf(x, "%d %s", &got, &rest)
				if l.clean && rest != "<nil>" || got < id {
					e.Failf("delivery", "message %s sent as %d was reported as %s", tag, id, x)
				}
			}
		}
		if l.clean {
			for k, ch := range l.ch {
				if ch.Destroyed() || l.err[k] != nil {
					e.Failf("ended", "peer %d: nothing disturbs this channel; at %d it is destroyed: %v, send error %v", pi, k, ch.Destroyed(), l.err[k])
				}
			}
		}
		want := 0
		if l.ch[0].Destroyed() {
			want = 1
		}
		if k := len(hub.DestroyNotices(l.ch[0], "node")); k != want {
			e.Failf("notice", "peer %d: the hub was told %d times that the channel is destroyed, it is: %v", pi, k, want == 1)
		}
		switch l.p.Fault {
		case "die", "close", "hubclose", "nodeclose":
			if !l.ch[0].Destroyed() {
				e.Failf("alive", "peer %d: %s, and the hub keeps the channel", pi, l.p.Fault)
			}
		}
	}
	mine := late
	for _, l := range links {
		mine[l.ch[0]] = true
	}
	for _, ev := range hub.Events() {
		if ev.Kind != "connect" && !mine[ev.Ch] {
			e.Failf("attribution", "an event of the hub on an unknown channel: %s %s %v", ev.Kind, brief(ev.Data), ev.Err)
		}
	}
	alive := lateAlive
	for _, l := range links {
		if !l.ch[0].Destroyed() {
			alive++
		}
	}
	if k := len(hub.Channels()); k != alive {
		e.Failf("listed", "the hub lists %d channels, %d are alive", k, alive)
	}
	nf := 0
	for _, l := range links {
		e.ClassIf(l.p.Fault != "", "fault: "+l.p.Fault)
		if l.p.Fault != "" {
			nf++
		}
		e.ClassIf(l.p.ByHub, "the hub connects")
		e.ClassIf(l.p.ByHub && l.p.ChanRd, "the hub has a channel reader")
	}
	e.ClassIf(c.Block > 0, "the hub's reader blocks for seconds")
	e.ClassIf(len(c.Late) > 0, "others connect later")
	e.ClassIf(len(links) > 3, "more than 3 peers")
	if len(links) > 1 && len(c.Sends) > 1 && nf > 0 {
		e.NonTrivial()
	}
}

func drawHub(rt *rapid.T) (c HubCase) {
	c.TickU = rapid.SampledFrom([]int{0, 0, 0, 50, 900, 5000}).Draw(rt, "tick")
	c.LatU = rapid.SampledFrom([]int{0, 100, 3000, 60_000}).Draw(rt, "lat")
	c.Max = rapid.SampledFrom([]int{0, 0, 500, 60}).Draw(rt, "max")
	n := rapid.IntRange(2, 7).Draw(rt, "peers")
	if rapid.IntRange(0, 9).Draw(rt, "block") == 7 {
		c.Block = rapid.SampledFrom([]int{1000, 3000}).Draw(rt, "blockms")
	}
	for i := 0; i < n; i++ {
		p := HubPeer{ByHub: rapid.Bool().Draw(rt, "byhub"), ChanRd: rapid.Bool().Draw(rt, "chanrd")}
		switch rapid.IntRange(0, 2).Draw(rt, "place") {
		case 0:
			p.Host, p.Port = 1, 7100+i // the same host
		case 1:
			p.Host, p.Port = 2+i, 7000 // the same port, also as the hub's
		case 2:
			p.Host, p.Port = 2+i, 7200+i
		}
		p.Fault = rapid.SampledFrom([]string{"", "", "", "loss", "outage", "flood", "close", "hubclose", "die", "nodeclose"}).Draw(rt, "fault")
		if c.Block > 0 && rapid.Bool().Draw(rt, "bflood") {
			p.Fault = "flood"
		}
		if rapid.IntRange(0, 19).Draw(rt, "deaf") == 17 {
			p.Fault = "deaf"
			c.Sends = append(c.Sends, HubSend{Peer: i, Down: true, AtMs: 2500, N: 1, Size: 8})
		}
		p.AtMs = rapid.SampledFrom([]int{0, 10, 300, 2000}).Draw(rt, "at")
		p.LenMs = rapid.SampledFrom([]int{500, 3000, 7000}).Draw(rt, "len")
		p.Plain = rapid.IntRange(0, 3).Draw(rt, "plain") == 0
		p.NoRead = rapid.IntRange(0, 5).Draw(rt, "noread") == 0
		c.Peers = append(c.Peers, p)
		if p.Fault == "flood" {
			c.Sends = append(c.Sends, HubSend{Peer: i, Down: c.Block == 0 && rapid.Bool().Draw(rt, "down"), AtMs: p.AtMs, N: rapid.IntRange(100, 600).Draw(rt, "flood"),
				Size: rapid.SampledFrom([]int{10, 200}).Draw(rt, "size")})
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "latecomers") == 2 {
		for i := rapid.IntRange(1, 3).Draw(rt, "nlate"); i > 0; i-- {
			l := HubLate{AtMs: rapid.SampledFrom([]int{0, 5, 400, 2100, 2900, 3500, 7000}).Draw(rt, "lateat"), ByHub: rapid.Bool().Draw(rt, "byhub"),
				N: rapid.IntRange(0, 5).Draw(rt, "n"), Bye: rapid.Bool().Draw(rt, "bye"), Host: 1, Port: 7300 + i}
			switch rapid.IntRange(0, 2).Draw(rt, "lateplace") {
			case 1:
				l.Host, l.Port = 40+i, 7000
			case 2: // beside another peer
				l.Host = c.Peers[rapid.IntRange(0, n-1).Draw(rt, "beside")].Host
			}
			c.Late = append(c.Late, l)
		}
	}
	for i := rapid.IntRange(1, 12).Draw(rt, "sends"); i > 0; i-- {
		c.Sends = append(c.Sends, HubSend{Peer: rapid.IntRange(0, n-1).Draw(rt, "peer"), Down: rapid.Bool().Draw(rt, "down"),
			AtMs: rapid.SampledFrom([]int{0, 0, 5, 290, 1000, 2500, 6500}).Draw(rt, "sat"), N: rapid.IntRange(1, 20).Draw(rt, "n"),
			Size: rapid.SampledFrom([]int{8, 40, 90, 700, 2000}).Draw(rt, "size"), Taken: rapid.Bool().Draw(rt, "taken"), Deliv: rapid.Bool().Draw(rt, "deliv")})
	}
	return
}

func init() {
	register(&Spec{
		ID: "C09",
		Rule: "A node holds channels with two to seven peers (same host or same port, either side connecting, with and without channel readers), messages go both ways, and single peers suffer loss, outages, floods, closes or die. " +
			"Every event must belong to the right channel and peer, the readers are called in the promised order, and channels which nothing disturbs deliver everything promptly and stay. Non-trivial: at least two peers, one of them disturbed.",
		Cases: map[Tier]int{Quick: 3000, Thorough: 60000},
		Draw:  func(rt *rapid.T, tier Tier) any { return drawHub(rt) },
		Run:   func(e *Env, raw jsonRaw) { runHub(e, decode[HubCase](raw)) },
	})
}
