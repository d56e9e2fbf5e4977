package harness

// C08: teardown of channels, and connecting again.

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// Round is one life of the channel between two nodes
type Round struct {
	By     int    `json:"by"`   // who connects
	WaitMs int    `json:"wait"` // before connecting, after the previous teardown
	ChanRd bool   `json:"chanrd"`
	N      [2]int `json:"n"` // messages from each node
	GapU   int    `json:"gap"`
	Size   int    `json:"size"`
	End    string `json:"end"`   // how the channel ends
	Who    int    `json:"who"`   // which node ends it
	AtU    int    `json:"at"`    // when, after connecting, µs
	K      int    `json:"k"`     // at which message, how many goroutines
	Again  bool   `json:"again"` // close again inside the notice
	Disc   string `json:"disc"`  // what happens to the disconnect datagram: "", drop, dup
	LossMs int    `json:"loss"`  // acknowledgements are lost for so long before the end
	Holes  int    `json:"holes"` // so many percent of the data packets are lost until the end
}

// CloseCase is the scenario
type CloseCase struct {
	LatU   int     `json:"lat"`
	Max    int     `json:"max,omitempty"`
	Claim  bool    `json:"claim,omitempty"` // readers say they dealt with the notice
	Rounds []Round `json:"rounds"`
}

type closeEnd struct {
	n     *Node
	ch    *tru.Channel
	round int
	sent  [][]byte
	told  []time.Time // when Close returned
	calls []closeCall // of Close on a channel which was alive just before
	mu    sync.Mutex
	deliv map[int]int
	want  int
}

type closeCall struct{ from, to time.Time }

func runClose(e *Env, c CloseCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	a, b := w.Node(maxLenParam(c.Max)...), w.Node(maxLenParam(c.Max)...)
	nodes := [2]*Node{a, b}
	var mu sync.Mutex
	ends := map[*tru.Channel]*closeEnd{}
	cur := -1
	var rd Round
	var onMsgHits [2]int
	data := func(round, side, i, size int) []byte {
		s := fmt.Sprintf("r%d-%d-%d-", round, side, i)
		return []byte(s + strings.Repeat("x", max(0, size-len(s))))
	}
	check := func(where string, n *Node, ch *tru.Channel) {
		if !ch.Destroyed() {
			e.Failf("not-final", "%s: Destroyed() is false %s", n.Name, where)
		}
		if _, err := ch.WriteTo([]byte("late")); err == nil {
			e.Failf("not-final", "%s: a write %s succeeded", n.Name, where)
		}
		if _, err := ch.WriteTo(nil); err == nil {
			e.Failf("not-final", "%s: a write of an empty message %s succeeded", n.Name, where)
		}
		for _, x := range n.Channels() {
			if x == ch {
				e.Failf("not-final", "%s: the channel is listed %s", n.Name, where)
			}
		}
	}
	closeIt := func(n *Node, ch *tru.Channel) {
		alive, from := !ch.Destroyed(), time.Now()
		ch.Close()
		to := time.Now()
		check("after Close", n, ch)
		mu.Lock()
		if x := ends[ch]; x != nil {
			x.told = append(x.told, time.Now())
			if alive {
				x.calls = append(x.calls, closeCall{from, to})
			}
		}
		mu.Unlock()
	}
	// disturbances of the current round
	var cutFrom, fruitFrom, lossTo time.Time
	fruitSide, disc, holes := -1, "", 0
	holesTo := time.Time{}
	f := Faults{Seed: 5}
	w.net.SetPolicy(func(d *Datagram) Fate {
		ok := Fate{Delays: []time.Duration{lat}}
		cls := classOf(d.Hdr.Status)
		if !cutFrom.IsZero() && !d.T.Before(cutFrom) {
			return Fate{}
		}
		if fruitSide >= 0 && cls == "data" && !d.T.Before(fruitFrom) && d.From == nodes[fruitSide].Addr() {
			return Fate{}
		}
		if cls == "ack" && d.T.Before(lossTo) {
			return Fate{}
		}
		if cls == "data" && holes > 0 && d.T.Before(holesTo) && int(f.hash(0, d, 1)%100) < holes {
			return Fate{}
		}
		if cls == "disconnect" {
			switch disc {
			case "drop":
				return Fate{}
			case "dup":
				ok.Delays = append(ok.Delays, lat)
			}
		}
		return ok
	})
	setNet := func(f func()) { w.net.mu.Lock(); f(); w.net.mu.Unlock() }
	for i, n := range nodes {
		n.Claim = c.Claim
		n.OnConnect = func(ch *tru.Channel) {
			mu.Lock()
			x := &closeEnd{n: n, ch: ch, round: cur, deliv: map[int]int{}}
			ends[ch] = x
			r := rd
			mu.Unlock()
			if r.End == "connect-callback" {
				closeIt(n, ch)
			}
		}
		n.OnErr = func(ev Event) {
			if ev.Ch == nil || !errors.Is(ev.Err, tru.ErrChannelDestroyed) {
				return
			}
			check("when told of the end", n, ev.Ch)
			mu.Lock()
			again := rd.Again
			mu.Unlock()
			if again {
				ev.Ch.Close()
			}
		}
		n.OnMsg = func(ev Event) bool {
			if ev.Level != "node" {
				return false
			}
			mu.Lock()
			r := rd
			hit := false
			if r.End == "reader" && r.Who == i && ends[ev.Ch] != nil && ends[ev.Ch].round == cur {
				onMsgHits[i]++
				hit = onMsgHits[i] == r.K
			}
			mu.Unlock()
			if hit {
				closeIt(n, ev.Ch)
			}
			return false
		}
	}
	livesAtEnd := false
	kinds := map[string]bool{}
	for k, r := range c.Rounds {
		time.Sleep(time.Duration(r.WaitMs) * time.Millisecond)
		mu.Lock()
		cur, rd, onMsgHits = k, r, [2]int{}
		mu.Unlock()
		setNet(func() { cutFrom, lossTo, fruitSide, disc, holes = time.Time{}, time.Time{}, -1, r.Disc, 0 })
		from, to := nodes[r.By], nodes[1-r.By]
		var args []tru.ReaderFunc
		if r.ChanRd {
			args = append(args, from.reader("chan"))
		}
		ch, err := from.Tru.Connect(to.Addr(), args...)
		if err != nil {
			e.Failf("reconnect", "round %d: connecting over an undisturbed network: %v", k, err)
			return
		}
		mu.Lock()
		ends[ch] = &closeEnd{n: from, ch: ch, round: k, deliv: map[int]int{}}
		var srv *closeEnd
		mu.Unlock()
		for i := 0; i < 1000 && srv == nil; i++ {
			w.Settle()
			mu.Lock()
			for _, x := range ends {
				if x.round == k && x.n == to {
					srv = x
				}
			}
			mu.Unlock()
			if srv == nil {
				time.Sleep(10 * time.Microsecond)
			}
		}
		if srv == nil {
			e.Failf("reconnect", "round %d: %s was not told of the connection", k, to.Name)
			return
		}
		chs := [2]*tru.Channel{}
		chs[r.By], chs[1-r.By] = ch, srv.ch
		zero := time.Now()
		at := time.Duration(r.AtU) * time.Microsecond
		if r.Holes > 0 {
			setNet(func() { holesTo, holes = zero.Add(at+time.Millisecond), r.Holes })
		}
		if r.LossMs > 0 {
			setNet(func() { lossTo = zero.Add(at); _ = r.LossMs })
		}
		switch r.End {
		case "silence":
			setNet(func() { cutFrom = zero.Add(at) })
		case "fruitless":
			setNet(func() { fruitFrom, fruitSide = zero, r.Who })
		}
		var wg sync.WaitGroup
		for side := 0; side < 2; side++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				x := ends[chs[side]]
				mu.Unlock()
				n := r.N[side]
				if r.End == "fruitless" && side == r.Who {
					n = max(n, 1)
				}
				for i := 0; i < n; i++ {
					if r.GapU > 0 {
						time.Sleep(time.Duration(r.GapU) * time.Microsecond)
					}
					msg := data(k, side, i, r.Size)
					dead := x.ch.Destroyed()
					x.mu.Lock()
					x.sent = append(x.sent, msg)
					x.mu.Unlock()
					_, err := x.ch.WriteTo(append([]byte{}, msg...), func(_ *tru.Packet, err error) {
						x.mu.Lock()
						x.deliv[i]++
						first := x.deliv[i] == 1 && i == 0
						x.mu.Unlock()
						if first && r.End == "delivery" && r.Who == side {
							closeIt(x.n, x.ch)
						}
					})
					if err != nil {
						x.mu.Lock()
						x.sent = x.sent[:len(x.sent)-1]
						x.mu.Unlock()
						break
					}
					x.mu.Lock()
					x.want++
					x.mu.Unlock()
					if dead {
						e.Failf("not-final", "round %d: %s: a write to a destroyed channel succeeded", k, x.n.Name)
					}
				}
			}()
		}
		time.Sleep(at)
		kinds[r.End] = true
		switch r.End {
		case "close":
			closeIt(nodes[r.Who], chs[r.Who])
		case "many":
			var cw sync.WaitGroup
			for i := 0; i < max(r.K, 2); i++ {
				cw.Add(1)
				go func() { defer cw.Done(); closeIt(nodes[r.Who], chs[r.Who]) }()
			}
			cw.Wait()
		case "both":
			var cw sync.WaitGroup
			for i := range chs {
				cw.Add(1)
				go func() { defer cw.Done(); closeIt(nodes[i], chs[i]) }()
			}
			cw.Wait()
		case "reader", "delivery", "connect-callback":
			// it may or may not happen
			for i := 0; i < 100 && !chs[r.Who].Destroyed(); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if !chs[r.Who].Destroyed() {
				closeIt(nodes[r.Who], chs[r.Who])
			}
		case "silence":
			w.Sleep(6*time.Second + 700*time.Millisecond + lat)
			if !chs[0].Destroyed() || !chs[1].Destroyed() {
				e.Failf("silence", "round %d: nothing arrives any more, the channels are destroyed: %v %v", k, chs[0].Destroyed(), chs[1].Destroyed())
			}
		case "fruitless":
			for i := 0; i < 60 && !chs[r.Who].Destroyed(); i++ {
				time.Sleep(10 * time.Second)
			}
			wg.Wait()
			if !chs[r.Who].Destroyed() {
				e.Failf("fruitless", "round %d: %s retransmits for %v and does not give up", k, nodes[r.Who].Name, time.Since(zero))
				return
			}
		case "replace": // connected again without an end
		case "live":
			wg.Wait()
			w.Sleep(15 * time.Second)
			livesAtEnd = true
			for i, x := range chs {
				if x.Destroyed() {
					e.Failf("disturbed", "round %d: the channel of %s ended by itself", k, nodes[i].Name)
				}
				if nodes[i].ChannelTo(nodes[1-i].Addr()) != x {
					e.Failf("disturbed", "round %d: %s does not list its channel", k, nodes[i].Name)
				}
			}
		}
		if r.End != "replace" {
			// writers of a destroyed channel end
			defer wg.Wait()
		} else {
			defer wg.Wait()
		}
	}
	setNet(func() { cutFrom, lossTo, fruitSide = time.Time{}, time.Time{}, -1 })
	w.Sleep(15*time.Second + 2*lat)

	// judge every channel there was
	arr := w.net.ArrivedCopy()
	for ch, x := range ends {
		name := fmt.Sprintf("round %d, %s", x.round, x.n.Name)
		nots := x.n.DestroyNotices(ch, "node")
		dead := ch.Destroyed()
		if dead && len(nots) != 1 || !dead && len(nots) != 0 {
			e.Failf("notice", "%s: destroyed %v, the reader was told %d times", name, dead, len(nots))
			continue
		}
		r := c.Rounds[x.round]
		if r.ChanRd && x.n == nodes[r.By] {
			if l := len(x.n.DestroyNotices(ch, "chan")); l != len(nots) {
				e.Failf("notice", "%s: the channel reader was told %d times, the node's %d times", name, l, len(nots))
			}
		}
		// messages: those of this round's channel only, a prefix, none after the end
		other := nodes[0]
		if x.n == other {
			other = nodes[1]
		}
		var peer *closeEnd
		for _, y := range ends {
			if y.round == x.round && y.n == other {
				peer = y
			}
		}
		msgs := x.n.Msgs(ch)
		if peer != nil {
			if kind, d := prefixOf(datas(msgs), peer.sent, !dead && !peer.ch.Destroyed() && r.End == "live"); kind != "" {
				e.Failf("messages-"+kind, "%s: %s", name, d)
			}
		}
		for _, m := range msgs {
			if dead && m.T.After(nots[0].T) {
				e.Failf("after-end", "%s: a message was delivered at %v, the end was told at %v", name, w.Since(m.T), w.Since(nots[0].T))
			}
		}
		if !dead {
			continue
		}
		// each accepted message has one delivery outcome
		x.mu.Lock()
		for i := 0; i < x.want; i++ {
			if x.deliv[i] > 1 {
				e.Failf("delivery", "%s: the delivery callback of message %d was called %d times", name, i, x.deliv[i])
			}
		}
		x.mu.Unlock()
		// closing tells the peer at once, unless something else ended the channel
		// at the same instant
		for _, c := range x.calls {
			if r.End == "silence" || r.End == "fruitless" || nots[0].T.Before(c.from) || nots[0].T.Sub(c.to) > 5*time.Millisecond {
				continue
			}
			near := func(t time.Time) bool {
				return t.After(c.from.Add(-3*time.Millisecond)) && t.Before(c.to.Add(3*time.Millisecond))
			}
			sent, other := false, false
			for _, d := range w.net.SentCopy() {
				sent = sent || d.From == x.n.Addr() && d.Hdr.Status == stDisconnect && near(d.T)
			}
			for _, a := range arr {
				if a.To == x.n.Addr() && a.D != nil && near(a.T) && (a.D.Hdr.Status == stDisconnect || classOf(a.D.Hdr.Status) == "handshake") {
					other = true
				}
			}
			if !sent && !other {
				e.Failf("untold", "%s: closed at %v, no disconnect was sent to the peer", name, w.Since(c.from))
			}
		}
		// the end of the other side: at once when the disconnect arrived
		for _, t := range x.told {
			if nots[0].T.Sub(t) > 5*time.Millisecond {
				e.Failf("slow", "%s: closed at %v, the reader was told at %v", name, w.Since(t), w.Since(nots[0].T))
			}
		}
	}
	for _, n := range nodes {
		for _, ev := range n.Events() {
			if (ev.Kind == "msg" || ev.Kind == "err") && ends[ev.Ch] == nil {
				e.Failf("unknown-channel", "%s: an event on a channel nobody connected: %s %v", n.Name, brief(ev.Data), ev.Err)
			}
			if ev.Kind == "err" && !errors.Is(ev.Err, tru.ErrChannelDestroyed) {
				e.Failf("notice", "%s: error %v", n.Name, ev.Err)
			}
		}
		// a disconnect which arrives ends the channel of that moment at once
		for _, x := range arr {
			if x.To != n.Addr() || x.D == nil || x.D.Hdr.Status != stDisconnect {
				continue
			}
			for ch, y := range ends {
				if y.n != n {
					continue
				}
				var from time.Time
				for _, ev := range n.Events() {
					if ev.Ch == ch && ev.Kind == "connect" {
						from = ev.T
					}
				}
				if from.IsZero() || !x.T.After(from) {
					continue
				}
				if nots := n.DestroyNotices(ch, "node"); len(nots) != 1 || nots[0].T.Sub(x.T) > 5*time.Millisecond {
					e.Failf("slow", "round %d, %s: the disconnect arrived at %v, the reader was told later or never", y.round, n.Name, w.Since(x.T))
				}
			}
		}
	}
	// nothing but handshakes is sent by a node without a channel
	for _, d := range w.net.SentCopy() {
		cls := classOf(d.Hdr.Status)
		if cls == "handshake" || cls == "disconnect" {
			continue
		}
		n := nodes[0]
		if d.From != n.Addr() {
			n = nodes[1]
		}
		alive := false
		for ch, x := range ends {
			if x.n != n {
				continue
			}
			// alive from its creation (a client's before it is known) to the end
			nots := n.DestroyNotices(ch, "node")
			if len(nots) == 0 || !d.T.After(nots[0].T) {
				alive = true
			}
		}
		if !alive {
			e.Failf("after-end", "%s sent a packet with status %d at %v, its last channel had ended", n.Name, d.Hdr.Status, w.Since(d.T))
		}
	}
	for k := range kinds {
		e.Class("end: %s", k)
	}
	for _, r := range c.Rounds {
		e.ClassIf(r.Disc != "", "disconnect "+r.Disc)
		e.ClassIf(r.Holes > 0, "lost data at the end")
		e.ClassIf(r.LossMs > 0, "unacknowledged data at the end")
	}
	e.ClassIf(len(c.Rounds) > 1, "connected again")
	e.ClassIf(livesAtEnd, "last channel lives")
	e.NonTrivial()
}

// ListedCase is connects during which one of the nodes closes every channel it
// finds in its list at once
type ListedCase struct {
	Listed int   `json:"listed"` // connects
	LatU   int   `json:"lat"`
	By     []int `json:"by"`
	Who    []int `json:"who"`
	Spin   []int `json:"spin"` // how often it looks without waiting
	Write  bool  `json:"write"`
}

func runListed(e *Env, c ListedCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	nodes := [2]*Node{w.Node(), w.Node()}
	early := 0
	for k := range c.Listed {
		by, who := c.By[k%len(c.By)], c.Who[k%len(c.Who)]
		n := nodes[who]
		stop := make(chan struct{})
		done := make(chan []*tru.Channel)
		go func() {
			var closed []*tru.Channel
			for i := 0; ; i++ {
				for _, ch := range n.Channels() {
					if c.Write {
						go ch.WriteTo([]byte("early"))
					}
					ch.Close()
					closed = append(closed, ch)
				}
				select {
				case <-stop:
					done <- closed
					return
				default:
				}
				if i < c.Spin[k%len(c.Spin)] {
					runtime.Gosched()
				} else {
					time.Sleep(time.Microsecond)
				}
			}
		}()
		ch, err := nodes[by].Tru.Connect(nodes[1-by].Addr())
		if err == nil && ch == nil {
			e.Failf("reconnect", "round %d: Connect returned neither a channel nor an error", k)
			return
		}
		if err != nil || ch.Destroyed() {
			early++
		}
		// whatever the moment, both sides end
		time.Sleep(2*lat + 5*time.Millisecond)
		close(stop)
		closed := <-done
		w.Settle()
		for i, x := range nodes {
			for _, ch := range x.Channels() {
				if len(closed) > 0 {
					e.Failf("listed", "round %d: %s closed the channel while it was being connected by %s, %s still has a channel with %s (Connect: %v)", k, n.Name, nodes[by].Name, nodes[i].Name, ch.Addr(), err)
					return
				}
			}
		}
		if err == nil && len(closed) == 0 {
			e.Failf("listed", "round %d: %s found no channel in its list, Connect of %s succeeded", k, n.Name, nodes[by].Name)
			return
		}
		for _, ch := range closed {
			if l := len(n.DestroyNotices(ch, "node")); l != 1 {
				e.Failf("notice", "round %d: %s closed a listed channel, its reader was told %d times", k, n.Name, l)
				return
			}
		}
		if ch != nil {
			if l := len(nodes[by].DestroyNotices(ch, "node")); l != 1 {
				e.Failf("notice", "round %d: the channel Connect returned was closed, the reader of %s was told %d times", k, nodes[by].Name, l)
				return
			}
		}
		// the same two can connect at once
		if k == c.Listed-1 {
			l, err := w.Connect(nodes[by], nodes[1-by], false)
			if err != nil || l.CB == nil {
				e.Failf("reconnect", "connecting after all channels were closed: %v", err)
				return
			}
			l.CA.WriteTo([]byte("ab"))
			l.CB.WriteTo([]byte("ba"))
			w.Sleep(2*lat + 8*time.Second)
			for j, ch := range []*tru.Channel{l.CA, l.CB} {
				x := nodes[by]
				if j == 1 {
					x = nodes[1-by]
				}
				if m := x.Msgs(ch); len(m) != 1 || ch.Destroyed() {
					e.Failf("disturbed", "%s: %d messages arrived on the last channel, destroyed: %v", x.Name, len(m), ch.Destroyed())
					return
				}
			}
		}
	}
	e.Class("closed as soon as it was listed")
	e.ClassIf(early > 0, "closed before it was connected")
	e.NonTrivial()
}

func drawRound(rt *rapid.T, last bool) (r Round) {
	r.By = rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "by")
	r.WaitMs = rapid.SampledFrom([]int{0, 0, 0, 1, 20, 100, 500, 6100, 9000}).Draw(rt, "wait")
	r.ChanRd = rapid.Bool().Draw(rt, "chanrd")
	r.N = [2]int{rapid.SampledFrom([]int{0, 1, 5, 40}).Draw(rt, "na"), rapid.SampledFrom([]int{0, 1, 5, 40}).Draw(rt, "nb")}
	r.GapU = rapid.SampledFrom([]int{0, 0, 50, 900, 30_000}).Draw(rt, "gap")
	r.Size = rapid.SampledFrom([]int{8, 30, 70, 300, 5000}).Draw(rt, "size")
	r.Who = rapid.IntRange(0, 1).Draw(rt, "who")
	r.AtU = rapid.OneOf(rapid.SampledFrom([]int{0, 0, 10, 20_000, 100_000, 200_000, 500_000, 1_000_000, 1_500_000, 4_500_000}), rapid.IntRange(0, 700_000)).Draw(rt, "at")
	r.K = rapid.IntRange(1, 4).Draw(rt, "k")
	r.Again = rapid.Bool().Draw(rt, "again")
	if rapid.IntRange(0, 3).Draw(rt, "loss") == 0 {
		r.LossMs = 1
	}
	r.Holes = rapid.SampledFrom([]int{0, 0, 0, 5, 40, 100}).Draw(rt, "holes")
	r.Disc = rapid.SampledFrom([]string{"", "", "", "drop", "dup"}).Draw(rt, "disc")
	r.End = rapid.SampledFrom([]string{"close", "close", "many", "both", "both", "reader", "delivery", "connect-callback", "silence", "replace", "fruitless"}).Draw(rt, "end")
	if r.End == "fruitless" && rapid.IntRange(0, 5).Draw(rt, "rare") > 0 {
		r.End = "close"
	}
	if last {
		r.End, r.Disc, r.LossMs, r.Holes = "live", "", 0, 0
	}
	return
}

func init() {
	register(&Spec{
		ID: "C08",
		Rule: "Two nodes connect up to five times in a row, in generated directions; each life has traffic and ends in one of many ways: closed by one side or both at the same instant, by several goroutines, inside the reader, delivery or connect callback, again inside the notice, at the instants of the channel's own timers, with unacknowledged data, with the disconnect datagram lost or duplicated, by silence, by fruitless retransmission, or replaced by connecting again. " +
			"Or one node closes every channel as soon as it is listed, while it is being connected: both sides must end at once. " +
			"Checked: notices, finality, promptness, no messages or datagrams afterwards, and the next channel undisturbed for 15 s. Every case is non-trivial.",
		Cases: map[Tier]int{Quick: 8000, Thorough: 120000},
		Draw: func(rt *rapid.T, tier Tier) any {
			if rapid.IntRange(0, 11).Draw(rt, "listed") == 5 {
				c := ListedCase{Listed: rapid.IntRange(1, 12).Draw(rt, "connects"), LatU: rapid.SampledFrom([]int{0, 0, 0, 50}).Draw(rt, "lat"), Write: rapid.Bool().Draw(rt, "write")}
				c.By = rapid.SliceOfN(rapid.IntRange(0, 1), 1, 3).Draw(rt, "by")
				c.Who = rapid.SliceOfN(rapid.IntRange(0, 1), 1, 3).Draw(rt, "who")
				c.Spin = rapid.SliceOfN(rapid.SampledFrom([]int{0, 100, 3000, 3000}), 1, 3).Draw(rt, "spin")
				return c
			}
			c := CloseCase{LatU: rapid.SampledFrom([]int{0, 0, 100, 5000, 80_000}).Draw(rt, "lat")}
			c.Max = rapid.SampledFrom([]int{0, 0, 1000, 64, 10}).Draw(rt, "max")
			c.Claim = rapid.Bool().Draw(rt, "claim")
			n := rapid.IntRange(1, 4).Draw(rt, "rounds")
			for i := 0; i < n; i++ {
				c.Rounds = append(c.Rounds, drawRound(rt, false))
			}
			if rapid.IntRange(0, 3).Draw(rt, "live") > 0 {
				c.Rounds = append(c.Rounds, drawRound(rt, true))
			}
			for i := range c.Rounds {
				if r := &c.Rounds[i]; c.Max > 0 { // a few packets each
					r.Size = min(r.Size, 5*c.Max)
					r.N = [2]int{min(r.N[0], 20), min(r.N[1], 20)}
				}
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) {
			if c := decode[ListedCase](raw); c.Listed > 0 {
				runListed(e, c)
				return
			}
			runClose(e, decode[CloseCase](raw))
		},
	})
}
