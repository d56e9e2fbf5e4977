package harness

// C13: what Statistic tells is compared with what the capture of the network
// says happened on each channel; the printed table with the values it is made
// from.

import (
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// StatPeer is a peer of the node whose statistics are read
type StatPeer struct {
	Server bool `json:"server"` // the node is the server
	AckU   int  `json:"acku"`   // the peer acknowledges after so long
	DupAck int  `json:"dupack"` // and again so many times
	Skip   int  `json:"skip"`   // every so manieth transmission is not acknowledged (0: all are)
}

// StatOp is one step
type StatOp struct {
	K     string `json:"k"`
	P     int    `json:"p"`
	N     int    `json:"n,omitempty"`
	Size  int    `json:"size,omitempty"`
	Limit int    `json:"limit,omitempty"`
	WaitU int    `json:"w,omitempty"`
}

// StatCase is the scenario
type StatCase struct {
	LatU   int        `json:"lat"`
	Max    int        `json:"max"`
	Peers  []StatPeer `json:"peers"`
	Node   bool       `json:"node"` // another node is a peer, too
	Faults Faults     `json:"faults"`
	Ops    []StatOp   `json:"ops"`
	Print  bool       `json:"print"`
	// a table of made up values
	Rows []tru.ChannelStatistic `json:"rows"`
}

// statLine is what the capture says about one channel
type statLine struct {
	tru.ChannelStatistic
	tt              time.Duration
	vague           bool // the trip time depends on the order of two things at one instant
	sentAt, recvdAt []time.Time
}

// statModel works out the statistic of the channel which node n has with peer
// since its latest handshake; opens tells whether a data packet can be
// decrypted
func statModel(w *World, n *Node, peer string, server bool, opens func(a Arrival) bool) (m statLine) {
	sent, arrived := w.net.SentCopy(), w.net.ArrivedCopy()
	m.Addr = peer
	last := stConnectDone
	if server {
		last = stClientAnswer
	}
	from := -1
	for i, a := range arrived {
		if a.To == n.Addr() && a.From == peer && a.D.Hdr.Status == last {
			from = i
		}
	}
	if from < 0 {
		return
	}
	// a handshake packet which was repeated created the channel the first time
	for i := from - 1; i >= 0; i-- {
		a := arrived[i]
		if a.To == n.Addr() && a.From == peer && a.D.Hdr.Status == last && string(a.Data) == string(arrived[from].Data) {
			from = i
		}
	}
	seq := arrived[from].Seq
	type out struct {
		id     uint32
		resent int
		last   time.Time
	}
	var queue []*out
	find := func(id uint32) (int, *out) {
		for i, o := range queue {
			if o.id == id {
				return i, o
			}
		}
		return -1, nil
	}
	ever := map[uint32]bool{}
	var expected uint32
	early := map[uint32]bool{} // is it the last one of a message
	si := 0
	sendUpTo := func(seq int) {
		for ; si < len(sent) && sent[si].Seq < seq; si++ {
			d := sent[si]
			if d.From != n.Addr() || d.To != peer || !isData(d.Hdr.Status) || d.Seq < arrived[from].Seq {
				continue
			}
			if _, o := find(d.Hdr.ID); o != nil {
				o.resent++
				o.last = d.T
				m.Rsnd++
				continue
			}
			if ever[d.Hdr.ID] { // resent at the instant of its acknowledgement
				m.Rsnd++
				m.vague = true
				continue
			}
			ever[d.Hdr.ID] = true
			queue = append(queue, &out{d.Hdr.ID, 0, d.T})
			if d.Hdr.Status == stData {
				m.Send++
				m.sentAt = append(m.sentAt, d.T)
			}
		}
	}
	_ = seq
	recv := func(final bool, t time.Time) {
		expected = (expected + 1) & (idLimit - 1)
		if final {
			m.Recv++
			m.recvdAt = append(m.recvdAt, t)
		}
	}
	for _, a := range arrived[from+1:] {
		if a.To != n.Addr() || a.From != peer {
			continue
		}
		sendUpTo(a.Seq)
		h := parseHdr(a.Data)
		switch h.Status {
		case stAck:
			i, o := find(h.ID)
			if o == nil {
				m.AckD++
				break
			}
			m.Ack++
			tt := a.T.Sub(o.last)
			m.vague = m.vague || tt <= 0
			if m.tt == 0 {
				m.tt = tt
			} else {
				m.tt = (9*m.tt + tt) / 10
			}
			queue = append(queue[:i:i], queue[i+1:]...)
		case stData, stDataNext:
			if !opens(a) {
				break
			}
			final := h.Status == stData
			d := (h.ID - expected) & (idLimit - 1)
			switch _, had := early[h.ID]; {
			case d >= idLimit/2 || had:
				m.Drop++
			case d > 0:
				early[h.ID] = final
			default:
				recv(final, a.T)
				for {
					f, ok := early[expected]
					if !ok {
						break
					}
					delete(early, expected)
					recv(f, a.T)
				}
			}
		}
	}
	sendUpTo(math.MaxInt)
	m.SQ, m.RQ = uint(len(queue)), uint(len(early))
	if len(queue) > 0 {
		m.RTA = queue[0].resent
	}
	m.TT = float64(m.tt.Microseconds()) / 1000
	return
}

// rate bounds the events in about the last second
func rate(l []time.Time, now time.Time) (lo, hi int64) {
	floor := now.Truncate(100 * time.Millisecond)
	const slop = time.Millisecond
	for _, t := range l {
		d := floor.Sub(t)
		if d > 100*time.Millisecond+slop && d <= time.Second-slop {
			lo++
		}
		if d > -slop && d <= 1100*time.Millisecond+slop {
			hi++
		}
	}
	return
}

// statCompare compares a line of the statistic with the model
func statCompare(e *Env, who string, got tru.ChannelStatistic, m statLine, now time.Time) bool {
	bad := func(col string, g, want any) bool {
		e.Failf("wrong "+col, "%s: channel %s: %s is %v, it should be %v", who, m.Addr, col, g, want)
		return false
	}
	for _, c := range []struct {
		col     string
		g, want any
	}{
		{"Send", got.Send, m.Send}, {"Rsnd", got.Rsnd, m.Rsnd}, {"Ack", got.Ack, m.Ack}, {"AckD", got.AckD, m.AckD},
		{"Recv", got.Recv, m.Recv}, {"Drop", got.Drop, m.Drop}, {"SQ", got.SQ, m.SQ}, {"RQ", got.RQ, m.RQ}, {"RTA", got.RTA, m.RTA},
	} {
		if c.g != c.want {
			return bad(c.col, c.g, c.want)
		}
	}
	if !m.vague && math.Abs(got.TT-m.TT) > 0.0011 {
		return bad("TT", got.TT, m.TT)
	}
	if lo, hi := rate(m.sentAt, now); got.Ssec < lo || got.Ssec > hi {
		return bad("Ssec", got.Ssec, fmt.Sprintf("%d to %d", lo, hi))
	}
	if lo, hi := rate(m.recvdAt, now); got.Rsec < lo || got.Rsec > hi {
		return bad("Rsec", got.Rsec, fmt.Sprintf("%d to %d", lo, hi))
	}
	return true
}

var statTitles = []string{"ADDR", "SEND", "SSEC", "RSND", "ACK", "ACKD", "RECV", "RSEC", "DROP", "SQ", "RQ", "RTA", "DELAY", "TT"}

func statCells(s tru.ChannelStatistic) []string {
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	return []string{s.Addr, i(s.Send), i(s.Ssec), i(s.Rsnd), i(s.Ack), i(s.AckD), i(s.Recv), i(s.Rsec), i(s.Drop),
		strconv.FormatUint(uint64(s.SQ), 10), strconv.FormatUint(uint64(s.RQ), 10), i(int64(s.RTA)), i(int64(s.Delay)),
		strconv.FormatFloat(s.TT, 'f', 3, 64)}
}

// checkTable compares the text of a table with the values
func checkTable(e *Env, rows tru.ChannelsStatistic, text string, announced int, clean bool) bool {
	if len(rows) == 0 {
		if text != "" || announced != 0 {
			e.Failf("table", "the table without channels has %d lines announced and is %q", announced, text)
			return false
		}
		return true
	}
	lines := strings.Split(text, "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	if len(lines) != announced {
		e.Failf("table lines", "the table of %d channels has %d lines, NumRows announces %d:\n%s", len(rows), len(lines), announced, text)
		return false
	}
	var cells [][]string
	for i, l := range lines {
		if clean && !strings.HasPrefix(l, "\x1b[K") {
			e.Failf("table", "line %d of the table does not clean its line: %q", i, l)
			return false
		}
		l = strings.TrimPrefix(l, "\x1b[K")
		if strings.Contains(l, "\x1b") {
			e.Failf("table", "line %d of the table: %q", i, l)
			return false
		}
		if strings.Trim(l, "┈") == "" {
			continue
		}
		cells = append(cells, strings.Fields(l))
	}
	want := [][]string{statTitles}
	var sum tru.ChannelStatistic
	for _, r := range rows {
		want = append(want, statCells(r))
		sum.Send += r.Send
		sum.Ssec += r.Ssec
		sum.Rsnd += r.Rsnd
		sum.Ack += r.Ack
		sum.AckD += r.AckD
		sum.Recv += r.Recv
		sum.Rsec += r.Rsec
		sum.Drop += r.Drop
		sum.SQ += r.SQ
		sum.RQ += r.RQ
		sum.RTA += r.RTA
	}
	if len(rows) > 1 {
		want = append(want, statCells(sum)[1:12])
	}
	for i, wl := range want {
		if i >= len(cells) || strings.Join(cells[i], " ") != strings.Join(wl, " ") {
			got := []string{}
			if i < len(cells) {
				got = cells[i]
			}
			e.Failf("table row", "line %d of the table shows %v, it should show %v", i, got, wl)
			return false
		}
	}
	if len(cells) != len(want) {
		e.Failf("table row", "the table has %d rows, it should have %d:\n%s", len(cells), len(want), text)
		return false
	}
	return true
}

type statLink struct {
	server bool
	sess   *Sess
	ch     *tru.Channel
	dead   bool
	sent   []func() // data packets of the peer
	quiet  bool
	skip   int
}

func runStats(e *Env, c StatCase) {
	// the made up table
	for _, clean := range []bool{false, true} {
		rows := tru.ChannelsStatistic(c.Rows)
		text := rows.String(clean)
		if !checkTable(e, rows, text, rows.NumRows(), clean) {
			return
		}
	}
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	n := w.Node(maxLenParam(c.Max)...)
	var m *Node
	if c.Node {
		m = w.Node()
	}
	var mu sync.Mutex
	longest := 2*lat + time.Millisecond
	if c.Faults.SlowPct > 0 {
		longest += time.Duration(c.Faults.SlowMs) * time.Millisecond
	}
	longest += time.Duration(c.Faults.DupMs) * time.Millisecond
	for _, r := range c.Faults.Rules {
		longest = max(longest, time.Duration(r.Ms)*time.Millisecond+2*lat+time.Millisecond)
	}
	calm := false
	zero := time.Now()
	w.net.SetPolicy(c.Faults.policy(w, zero, func(d *Datagram) int {
		mu.Lock()
		defer mu.Unlock()
		if calm || classOf(d.Hdr.Status) == "ping" {
			return -1
		}
		if d.From == n.Addr() {
			return 0
		}
		return 1
	}))
	var peers []*Peer
	links := make([]*statLink, len(c.Peers))
	for i, pc := range c.Peers {
		p := w.Peer(20+i, 9000+i)
		p.AutoAck = false
		peers = append(peers, p)
		links[i] = &statLink{server: pc.Server, dead: true}
		l := links[i]
		longest = max(longest, time.Duration(pc.AckU)*time.Microsecond+time.Duration(pc.DupAck)*30*time.Millisecond+longest)
		p.OnPacket = func(pk PeerPacket) bool {
			if !isData(pk.Hdr.Status) || pk.Err != nil || pk.From != n.Addr() {
				return false
			}
			mu.Lock()
			no := l.quiet
			l.skip++
			if pc.Skip > 0 && l.skip%pc.Skip == 0 {
				no = true
			}
			mu.Unlock()
			if no {
				return false
			}
			send := func() { p.Send(pk.From, stAck, pk.Hdr.ID, nil) }
			d := time.Duration(pc.AckU) * time.Microsecond
			if d == 0 {
				send()
			} else {
				time.AfterFunc(d, send)
			}
			for k := 1; k <= pc.DupAck; k++ {
				time.AfterFunc(d+time.Duration(k)*30*time.Millisecond, send)
			}
			return false
		}
	}
	stop := make(chan struct{})
	defer close(stop)
	hush := func() {
		mu.Lock()
		calm = true
		for _, l := range links {
			if l != nil {
				l.quiet = true
			}
		}
		mu.Unlock()
		w.Sleep(longest)
	}
	var was []bool
	save := func() {
		mu.Lock()
		was = nil
		for _, l := range links {
			was = append(was, l != nil && l.quiet)
		}
		mu.Unlock()
	}
	resume := func() {
		mu.Lock()
		calm = false
		for i, l := range links {
			if l != nil {
				l.quiet = was[i]
			}
		}
		mu.Unlock()
	}
	open := func(i int) bool {
		l, p := links[i], peers[i]
		save()
		hush()
		defer resume()
		var err error
		if l.server {
			l.sess, err = p.Dial(n.Addr())
			if err == nil {
				w.Settle()
				l.ch = n.ChannelTo(p.Address())
				go l.sess.KeepAlive(stop)
			}
		} else {
			l.ch, err = n.Tru.Connect(p.Address())
			w.Settle()
			l.sess = p.Session(n.Addr())
			if err == nil {
				go l.sess.KeepAlive(stop)
			}
		}
		if err != nil || l.ch == nil || l.sess == nil {
			e.Failf("connect", "connecting node and peer %d: %v", i, err)
			return false
		}
		l.dead = false
		l.sent = nil
		return true
	}
	var lk *Link
	openNode := func() bool {
		save()
		hush()
		defer resume()
		lk = w.MustConnect(n, m, false)
		return lk != nil
	}
	for i := range links {
		if !open(i) {
			return
		}
	}
	nodeLive := false
	if c.Node {
		if !openNode() {
			return
		}
		nodeLive = true
	}
	all := func(Arrival) bool { return true }
	checks, rsnd, drop, ackd, sq, rq := 0, int64(0), int64(0), int64(0), uint(0), uint(0)
	var lines []statLine
	models := func() {
		lines = nil
		for i, l := range links {
			if l.dead {
				continue
			}
			key := l.sess.Key
			lines = append(lines, statModel(w, n, peers[i].Address(), l.server, func(a Arrival) bool {
				_, err := openData(key, parseHdr(a.Data).ID, a.Data[4:])
				return err == nil
			}))
		}
		if nodeLive {
			lines = append(lines, statModel(w, n, m.Addr(), false, all))
		}
		sort.Slice(lines, func(i, j int) bool { return lines[i].Addr < lines[j].Addr })
	}
	compare := func(who string, got tru.ChannelsStatistic, want []statLine, now time.Time) bool {
		var ga, wa []string
		for _, s := range got {
			ga = append(ga, s.Addr)
		}
		for _, s := range want {
			wa = append(wa, s.Addr)
		}
		if strings.Join(ga, " ") != strings.Join(wa, " ") {
			e.Failf("channels listed", "%s: the statistic lists %v, live channels are %v", who, ga, wa)
			return false
		}
		for k := range got {
			if !statCompare(e, who, got[k], want[k], now) {
				return false
			}
		}
		return true
	}
	check := func(at string) bool {
		w.Settle()
		now := time.Now()
		models()
		got := n.Tru.Statistic()
		if !compare(at, got, lines, now) {
			return false
		}
		for i, l := range links {
			if l.dead {
				continue
			}
			for _, s := range lines {
				if s.Addr == peers[i].Address() {
					if tt := l.ch.Triptime(); !s.vague && tt != s.tt {
						e.Failf("Triptime", "%s: Triptime of channel %s is %v, it should be %v", at, s.Addr, tt, s.tt)
						return false
					}
					if k := len(n.Msgs(l.ch)); int64(k) != s.Recv {
						e.Failf("wrong Recv", "%s: channel %s: the reader got %d messages, Recv is %d", at, s.Addr, k, s.Recv)
						return false
					}
				}
			}
		}
		if nodeLive {
			if !compare(at+" (other node)", m.Tru.Statistic(), []statLine{statModel(w, m, n.Addr(), true, all)}, now) {
				return false
			}
		}
		if !checkTable(e, got, got.String(), got.NumRows(), false) {
			return false
		}
		checks++
		for _, s := range lines {
			rsnd, drop, ackd, sq, rq = max(rsnd, s.Rsnd), max(drop, s.Drop), max(ackd, s.AckD), max(sq, s.SQ), max(rq, s.RQ)
		}
		return true
	}
	reconn := 0
	for k, o := range c.Ops {
		if len(links) == 0 && !c.Node {
			break
		}
		total := len(links)
		if c.Node {
			total++
		}
		i := o.P % total
		at := fmt.Sprintf("after step %d", k)
		if i == len(links) { // the other node
			switch o.K {
			case "send", "data":
				if !nodeLive {
					break
				}
				for j := 0; j < o.N; j++ {
					ch := lk.CA
					if o.K == "data" {
						ch = lk.CB
					}
					ch.WriteTo(payload(3, j, o.Size))
				}
			case "close", "disc", "reconn", "open":
				if o.K == "close" || o.K == "disc" {
					if nodeLive {
						save()
						hush()
						if o.K == "close" {
							lk.CA.Close()
						} else {
							lk.CB.Close()
						}
						w.Sleep(longest)
						resume()
						nodeLive = false
					}
				} else {
					if !openNode() {
						return
					}
					nodeLive = true
					reconn++
				}
			}
		} else {
			l, p := links[i], peers[i]
			switch o.K {
			case "send":
				if l.dead {
					break
				}
				for j := 0; j < o.N; j++ {
					if _, err := l.ch.WriteTo(payload(2, j, o.Size)); err != nil {
						e.Failf("send", "%s: sending: %v", at, err)
						return
					}
				}
			case "data", "hold", "back":
				if l.dead {
					break
				}
				var l2 []func()
				for j := 0; j < o.N; j++ {
					msg := payload(1, j, o.Size)
					for {
						part := msg
						if o.Limit > 0 && len(part) > o.Limit {
							part = part[:o.Limit]
						}
						msg = msg[len(part):]
						id, last, s := l.sess.Next, len(msg) == 0, l.sess
						l2 = append(l2, func() { s.Data(id, last, part) })
						l.sess.Next++
						if last {
							break
						}
					}
				}
				switch o.K {
				case "data":
					for _, f := range l2 {
						f()
					}
				case "back":
					for j := len(l2) - 1; j >= 0; j-- {
						l2[j]()
					}
				}
				l.sent = append(l.sent, l2...)
			case "again":
				if l.dead {
					break
				}
				for j := max(0, len(l.sent)-o.N); j < len(l.sent); j++ {
					l.sent[j]()
				}
			case "bad":
				if !l.dead {
					b := sealData(l.sess.Key, l.sess.Next, payload(1, 1, 100))
					b[len(b)-1] ^= 1
					p.Send(n.Addr(), stData, l.sess.Next, b)
				}
			case "ack":
				if !l.dead {
					w.Sleep(longest)
					p.Send(n.Addr(), stAck, uint32(o.N), nil)
				}
			case "quiet", "loud":
				mu.Lock()
				l.quiet = o.K == "quiet"
				mu.Unlock()
			case "close", "disc":
				if l.dead {
					break
				}
				save()
				hush()
				if o.K == "close" {
					l.ch.Close()
				} else {
					p.Send(n.Addr(), stDisconnect, 0, nil)
				}
				w.Sleep(longest)
				resume()
				l.dead = true
			case "reconn", "open":
				if !open(i) {
					return
				}
				reconn++
			}
		}
		if o.WaitU > 0 {
			time.Sleep(time.Duration(o.WaitU) * time.Microsecond)
		}
		if !check(at) {
			return
		}
	}
	// the table as it is printed
	if c.Print && os.Getenv("VERIF_NOPRINT") == "" {
		r, wr, err := os.Pipe()
		if err != nil {
			e.Errorf("pipe: %v", err)
			return
		}
		old := os.Stdout
		os.Stdout = wr
		before := n.Tru.Statistic()
		n.Tru.StatisticPrint()
		running := n.Tru.StatisticPrintRunning()
		w.Sleep(600 * time.Millisecond)
		n.Tru.StatisticPrintStop()
		stopped := !n.Tru.StatisticPrintRunning()
		os.Stdout = old
		wr.Close()
		text, _ := io.ReadAll(r)
		r.Close()
		if !running || !stopped {
			e.Failf("print", "StatisticPrintRunning told %v while printing and %v after the end", running, !stopped)
			return
		}
		if !checkPrinted(e, string(text), before, n.Tru.Statistic(), n.Tru.LocalAddr().String()) {
			return
		}
	}
	// idle: rates fall to zero, the rest stays
	w.Sleep(1300 * time.Millisecond)
	if !check("in the end") {
		return
	}
	e.ClassIf(rsnd > 0, "retransmissions")
	e.ClassIf(drop > 0, "duplicate data")
	e.ClassIf(ackd > 0, "unexpected acknowledgements")
	e.ClassIf(sq > 0, "send queue in use")
	e.ClassIf(rq > 0, "receive queue in use")
	e.ClassIf(reconn > 0, "reconnected")
	e.ClassIf(len(c.Rows) > 1, "made up table with totals")
	e.ClassIf(len(lines) > 1, "several channels")
	if checks > 2 && (rsnd > 0 || drop > 0 || ackd > 0) {
		e.NonTrivial()
	}
}

// checkPrinted looks at one printed frame
func checkPrinted(e *Env, text string, before, rows tru.ChannelsStatistic, local string) bool {
	if !strings.Contains(text, local) {
		e.Failf("print", "the printed statistic does not name the node's address %s: %q", local, short(text, 300))
		return false
	}
	for ri, r := range rows {
		found := 0
		for _, l := range strings.Split(text, "\n") {
			f := strings.Fields(strings.ReplaceAll(l, "\x1b[K", ""))
			want := statCells(r)
			if len(f) != len(want) || f[0] != want[0] {
				continue
			}
			found++
			// counters which only grow
			first := statCells(before[ri])
			for _, k := range []int{1, 3, 4, 5, 6, 8} {
				lo, _ := strconv.Atoi(first[k])
				hi, _ := strconv.Atoi(want[k])
				if v, err := strconv.Atoi(f[k]); err != nil || v < lo || v > hi {
					e.Failf("print", "the printed table shows %s for %s of %s, the statistic %s to %s", f[k], statTitles[k], r.Addr, first[k], want[k])
					return false
				}
			}
		}
		if found != 1 {
			e.Failf("print", "the printed table has %d rows for channel %s: %q", found, r.Addr, short(text, 2000))
			return false
		}
	}
	return true
}

func drawStats(rt *rapid.T) (c StatCase) {
	c.LatU = rapid.SampledFrom([]int{100, 730, 5300, 20100}).Draw(rt, "lat")
	c.Max = rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(rt, "max")
	peers := rapid.IntRange(0, 3).Draw(rt, "npeers")
	if rapid.IntRange(0, 12).Draw(rt, "many") == 6 {
		peers = rapid.IntRange(5, 12).Draw(rt, "manypeers")
	}
	for i := peers; i > 0; i-- {
		c.Peers = append(c.Peers, StatPeer{
			Server: rapid.Bool().Draw(rt, "server"),
			AckU:   rapid.SampledFrom([]int{0, 0, 300, 40_000, 260_000, 700_000}).Draw(rt, "acku"),
			DupAck: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(rt, "dupack"),
			Skip:   rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(rt, "skip"),
		})
	}
	c.Node = len(c.Peers) == 0 || rapid.IntRange(0, 3).Draw(rt, "node") == 0
	c.Faults = drawFaults(rt, 20, 6000)
	c.Faults.SlowMs = min(c.Faults.SlowMs, 700)
	c.Faults.DupMs = min(c.Faults.DupMs, 400)
	c.Faults.Handsh = false
	for i := range c.Faults.Rules {
		c.Faults.Rules[i].Ms = min(c.Faults.Rules[i].Ms, 1000)
	}
	total := len(c.Peers)
	if c.Node {
		total++
	}
	kinds := []string{"send", "send", "send", "data", "data", "data", "back", "hold", "again", "again", "bad", "ack", "ack", "quiet", "loud", "close", "disc", "reconn", "open", "wait", "wait"}
	for i := rapid.IntRange(1, 14).Draw(rt, "nops"); i > 0; i-- {
		o := StatOp{K: rapid.SampledFrom(kinds).Draw(rt, "k"), P: rapid.IntRange(0, total-1).Draw(rt, "p")}
		o.N = rapid.SampledFrom([]int{1, 1, 2, 3, 5, 9, 20}).Draw(rt, "n")
		if (o.K == "send" || o.K == "data") && peers < 5 && rapid.IntRange(0, 15).Draw(rt, "burst") == 8 {
			o.N = rapid.IntRange(100, 250).Draw(rt, "burstn")
		}
		o.Size = rapid.SampledFrom([]int{0, 1, 20, 64, 65, 200, 700}).Draw(rt, "size")
		o.Limit = rapid.SampledFrom([]int{0, 0, 30, 90}).Draw(rt, "limit")
		o.WaitU = rapid.SampledFrom([]int{0, 57, 1_013, 33_337, 111_119, 260_021, 777_013, 1_234_567}).Draw(rt, "w")
		c.Ops = append(c.Ops, o)
	}
	c.Print = rapid.IntRange(0, 3).Draw(rt, "print") == 0
	num := rapid.OneOf(rapid.Int64Range(0, 9), rapid.Int64Range(0, 99999), rapid.Int64Range(0, 1<<50))
	for i := rapid.IntRange(0, 4).Draw(rt, "nrows"); i > 0; i-- {
		c.Rows = append(c.Rows, tru.ChannelStatistic{
			Addr: rapid.SampledFrom([]string{"1.2.3.4:5", "10.0.0.1:9000", "[::1]:80", "[fe80::1%eth0]:65535", "255.255.255.255:65535", "a"}).Draw(rt, "addr"),
			Send: num.Draw(rt, "v"), Ssec: num.Draw(rt, "v"), Rsnd: num.Draw(rt, "v"), Ack: num.Draw(rt, "v"), AckD: num.Draw(rt, "v"),
			Recv: num.Draw(rt, "v"), Rsec: num.Draw(rt, "v"), Drop: num.Draw(rt, "v"),
			SQ: uint(num.Draw(rt, "v")), RQ: uint(num.Draw(rt, "v")), RTA: int(num.Draw(rt, "v")), Delay: int(num.Draw(rt, "v")),
			TT: float64(num.Draw(rt, "v")) / 1000,
		})
	}
	return
}

func init() {
	register(&Spec{
		ID: "C13",
		Rule: "A node with up to three (now and then up to twelve) reference peers and another node goes through a generated history of sends, data in order, early and again, damaged data, delayed, repeated, withheld and unasked acknowledgements, network faults, closes and reconnects. After every step Statistic and Triptime are compared with what the capture of the network says about each live channel, and the text of the table with its values; tables of made up values, too. " +
			"Non-trivial: at least three comparisons, and something was retransmitted, received twice or acknowledged without need.",
		Cases: map[Tier]int{Quick: 6000, Thorough: 120000},
		Draw:  func(rt *rapid.T, tier Tier) any { return drawStats(rt) },
		Run:   func(e *Env, raw jsonRaw) { runStats(e, decode[StatCase](raw)) },
		Fixed: func(tier Tier) (l []any) {
			l = append(l, StatCase{LatU: 730, Node: true, Print: true, Ops: []StatOp{{K: "send", N: 40, Size: 100, WaitU: 333_337}, {K: "data", N: 10, Size: 5, WaitU: 777_013}}})
			return
		},
	})
}
