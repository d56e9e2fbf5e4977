package harness

// C14: net.Listener and net.Conn. Listeners, dialed connections and other
// clients go through a generated history; what every reader got is compared
// with what was written.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// NetOp is one step
type NetOp struct {
	K     string `json:"k"`
	L     int    `json:"l"`
	C     int    `json:"c"`
	N     int    `json:"n,omitempty"`
	Size  int    `json:"size,omitempty"`
	Bufs  []int  `json:"bufs,omitempty"`
	Pause int    `json:"pause,omitempty"` // the reader pauses after N reads, ms
	WaitU int    `json:"w,omitempty"`
}

// NetCase is the scenario
type NetCase struct {
	Listeners int     `json:"listeners"`
	LatU      int     `json:"lat"`
	TickU     int     `json:"tick"` // datagrams arrive together every so often
	Faults    Faults  `json:"faults"`
	Ops       []NetOp `json:"ops"`
}

// netRead is what one Read returned
type netRead struct {
	T    time.Time
	B    []byte
	Err  error
	Size int
}

// netEnd is one end of a connection
type netEnd struct {
	mu      sync.Mutex
	name    string
	conn    net.Conn     // a net.Conn
	node    *Node        // or a channel of a node
	ch      *tru.Channel //
	sess    *Sess        // or a session of a reference peer
	checked int
	written [][]byte
	reading bool
	done    bool      // its reader has ended
	resume  time.Time // when its reader goes on
	reads   []netRead
	msgs    [][]byte
	started bool // a message was begun
	cur     []byte
	end     error // the error which ended reading
	endT    time.Time
	bad     string
	closed  bool
	closedT time.Time
	wroteT  time.Time    // of the latest write
	owed    int          // so many messages came before the connection ended
	extra   []chan error // more readers which were blocked when it ended
}

// moreReaders starts readers on a connection whose reader is blocked and has
// got everything
func (x *netEnd) moreReaders(n int) {
	for range n {
		c := make(chan error, 1)
		x.extra = append(x.extra, c)
		go func() {
			k, err := x.conn.Read(make([]byte, 100))
			if err == nil || k != 0 {
				err = fmt.Errorf("read %d bytes, %v", k, err)
			} else {
				err = nil
			}
			c <- err
		}()
	}
}

// netPair is a connection
type netPair struct {
	l        int
	gen      int // which life of the listener
	kind     int
	addr     string // of the dialer
	dial     *netEnd
	acc      *netEnd
	owedAcc  int  // messages which came before it ended, when nobody had accepted it
	ended    bool // closed by one of the ends or with the listener
	endedT   time.Time
	faultful bool
}

type netListener struct {
	l       net.Listener
	gen     int
	addr    string
	port    int
	ip      string
	pending int // Accepts waiting
	closed  bool
}

type netAccept struct {
	l, gen int
	conn   net.Conn
	err    error
	T      time.Time
	greet  [][]byte // written at once
	gerr   error
}

// failedDial is a dial which can not succeed
type failedDial struct {
	addr string
	conn net.Conn
	err  error
	took time.Duration
}

func (x *netEnd) write(b []byte) error {
	keep := append([]byte{}, b...)
	var err error
	switch {
	case x.conn != nil:
		var n int
		n, err = x.conn.Write(b)
		if err == nil && n != len(b) {
			return fmt.Errorf("Write of %d bytes returned %d without an error", len(b), n)
		}
	case x.ch != nil:
		_, err = x.ch.WriteTo(b)
	default:
		x.sess.Message(b, 1200)
	}
	for i := range b {
		b[i] ^= 0x55
	}
	x.wroteT = time.Now()
	if err == nil {
		x.written = append(x.written, keep)
	}
	return err
}

func (x *netEnd) close() error {
	switch {
	case x.conn != nil:
		return x.conn.Close()
	case x.ch != nil:
		x.ch.Close()
	default:
		x.sess.p.Send(x.sess.Addr, stDisconnect, 0, nil)
	}
	return nil
}

// received returns the whole messages so far
func (x *netEnd) received() [][]byte {
	switch {
	case x.conn != nil:
		x.mu.Lock()
		defer x.mu.Unlock()
		return append([][]byte(nil), x.msgs...)
	case x.ch != nil:
		return datas(x.node.Msgs(x.ch))
	}
	return x.sess.Received()
}

// startReading reads the connection until it fails
func (x *netEnd) startReading(bufs []int, pause ...int) {
	if x.reading || x.conn == nil {
		return
	}
	x.reading = true
	go func() {
		empty := 0
		for i := 0; ; i++ {
			size := 512
			if len(bufs) > 0 {
				size = bufs[i%len(bufs)]
			}
			b := make([]byte, size)
			n, err := x.conn.Read(b)
			x.mu.Lock()
			if n < 0 || n > size {
				x.bad = fmt.Sprintf("Read into %d bytes returned %d", size, n)
				x.done = true
				x.mu.Unlock()
				return
			}
			if n > 0 || err == nil {
				x.started = true
				x.cur = append(x.cur, b[:n]...)
			}
			if err == io.EOF {
				if !x.started {
					x.bad = "end-of-file without a message before it"
				}
				x.msgs = append(x.msgs, x.cur)
				x.cur, x.started = nil, false
				err = nil
			}
			if err != nil {
				x.end, x.endT, x.done = err, time.Now(), true
				x.mu.Unlock()
				return
			}
			if x.bad != "" {
				x.done = true
				x.mu.Unlock()
				return
			}
			if len(pause) == 2 && i == pause[0] {
				d := time.Duration(pause[1]) * time.Millisecond
				x.resume = time.Now().Add(d)
				x.mu.Unlock()
				time.Sleep(d)
				x.mu.Lock()
			}
			x.mu.Unlock()
			empty++
			if n > 0 {
				empty = 0
			}
			if empty > 5000 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
}

// addrText is an address in text, which may be missing
func addrText(a net.Addr) string {
	if a == nil {
		return "missing"
	}
	return a.String()
}

// loggerSet makes the code under test use the quiet logger
var loggerSet sync.Once

func runNet(e *Env, c NetCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	loggerSet.Do(func() { w.Node().Close() })
	if c.TickU > 0 {
		w.net.Tick = time.Duration(c.TickU) * time.Microsecond
		lat += w.net.Tick
	}
	peersAt := map[string]bool{}
	var mu sync.Mutex
	zero := time.Now()
	lns := make([]*netListener, c.Listeners)
	w.net.SetPolicy(c.Faults.policy(w, zero, func(d *Datagram) int {
		mu.Lock()
		defer mu.Unlock()
		if peersAt[d.From] || peersAt[d.To] || classOf(d.Hdr.Status) == "ping" {
			return -1
		}
		for _, l := range lns {
			if l != nil && d.From == l.addr {
				return 0
			}
		}
		return 1
	}))
	at := func(ip string) {
		w.net.mu.Lock()
		w.net.nextIP = ip
		w.net.mu.Unlock()
	}
	stop := make(chan struct{})
	var conns []net.Conn
	var pairs []*netPair
	var accepts []netAccept
	var listeners []net.Listener
	var wg sync.WaitGroup
	e.Cleanup(func() {
		close(stop)
		mu.Lock()
		l := append([]net.Listener(nil), listeners...)
		cs := append([]net.Conn(nil), conns...)
		mu.Unlock()
		for _, c := range cs {
			c.Close()
		}
		for _, x := range l {
			x.Close()
		}
		wg.Wait()
		mu.Lock()
		for _, a := range accepts {
			if a.conn != nil {
				a.conn.Close()
			}
		}
		mu.Unlock()
	})
	listen := func(i int) bool {
		ip := nodeIP(30 + i)
		at(ip)
		port := 8800 + i
		address := fmt.Sprintf(":%d", port)
		if i%2 == 1 && !strings.Contains(ip, ":") {
			address = fmt.Sprintf("%s:%d", ip, port)
		}
		l, err := tru.Listen("tru", address)
		if err != nil {
			e.Failf("listen", "Listen(%q): %v", address, err)
			return false
		}
		gen := 0
		if lns[i] != nil {
			gen = lns[i].gen + 1
		}
		mu.Lock()
		listeners = append(listeners, l)
		lns[i] = &netListener{l: l, gen: gen, addr: key(ip, port), port: port, ip: ip}
		mu.Unlock()
		if _, p, err := net.SplitHostPort(addrText(l.Addr())); err != nil || p != fmt.Sprint(port) {
			e.Failf("address", "the address of the listener on port %d is %s", port, addrText(l.Addr()))
			return false
		}
		// the port is taken now
		at(ip)
		if l2, err := tru.Listen("tru", address); err == nil {
			l2.Close()
			e.Failf("listen", "a second listener on %s was allowed", address)
			return false
		}
		return true
	}
	for i := range lns {
		if !listen(i) {
			return
		}
	}
	greetings := 0
	accept := func(i, greet, size int) {
		ln := lns[i]
		ln.pending++
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, err := ln.l.Accept()
			a := netAccept{l: i, gen: ln.gen, conn: conn, err: err, T: time.Now()}
			for range greet { // the first messages follow at once
				if conn == nil || a.gerr != nil {
					break
				}
				mu.Lock()
				greetings++
				b := payload(77, greetings, size)
				mu.Unlock()
				if _, a.gerr = conn.Write(append([]byte{}, b...)); a.gerr == nil {
					a.greet = append(a.greet, b)
				}
			}
			mu.Lock()
			accepts = append(accepts, a)
			mu.Unlock()
		}()
	}
	taken := 0
	gone := 0
	// sort what was accepted to the connections
	match := func() bool {
		w.Settle()
		mu.Lock()
		defer mu.Unlock()
		for ; taken < len(accepts); taken++ {
			a := accepts[taken]
			ln := lns[a.l]
			if a.gen == ln.gen {
				ln.pending--
			}
			if a.err != nil {
				if a.conn != nil {
					e.Failf("accept", "Accept returned a connection and an error")
					return false
				}
				if a.gen == ln.gen && !ln.closed {
					e.Failf("accept", "Accept failed while the listener was open: %v", a.err)
					return false
				}
				continue
			}
			if a.conn == nil {
				e.Failf("accept", "Accept returned neither a connection nor an error")
				return false
			}
			ra := addrText(a.conn.RemoteAddr())
			var p *netPair
			for _, q := range pairs {
				if q.l == a.l && q.gen == a.gen && q.addr == ra && q.acc == nil {
					p = q
					break
				}
			}
			if p == nil {
				e.Failf("accepted twice", "Accept returned a connection from %s, all connections from there were accepted already", ra)
				return false
			}
			if _, port, err := net.SplitHostPort(addrText(a.conn.LocalAddr())); err != nil || port != fmt.Sprint(ln.port) {
				e.Failf("address", "the local address of an accepted connection is %s, the listener's port is %d", a.conn.LocalAddr(), ln.port)
				return false
			}
			p.acc = &netEnd{name: fmt.Sprintf("accepted end of connection %s", ra), conn: a.conn}
			p.acc.written, p.acc.wroteT = a.greet, a.T
			p.acc.owed = p.owedAcc
			if a.gerr != nil && !p.ended {
				e.Failf("write", "writing right after Accept: %v", a.gerr)
				return false
			}
		}
		return true
	}
	unaccepted := func(i int) (n int) {
		for _, p := range pairs {
			if p.l == i && p.gen == lns[i].gen && p.acc == nil {
				n++
			}
		}
		return
	}
	nclient := 0
	classes := map[string]bool{}
	stale := 2*lat + time.Duration(c.Faults.SlowMs+c.Faults.DupMs)*time.Millisecond
	for _, r := range c.Faults.Rules {
		stale = max(stale, 2*lat+time.Duration(r.Ms)*time.Millisecond)
	}
	dial := func(i, kind int) bool {
		ln := lns[i]
		if ln.closed {
			return true
		}
		switch kind {
		case 0: // net.Conn; all share an address, one connection per listener at a time
			for _, p := range pairs {
				if p.l == i && p.gen == ln.gen && p.kind == 0 && (p.acc == nil || !p.ended) {
					return true
				}
			}
			for _, p := range pairs {
				if p.l == i && p.kind == 0 {
					w.Sleep(stale) // the same addresses again
					break
				}
			}
			at(nodeIP(60))
			cn, err := tru.Dial("tru", ln.addr)
			if err != nil {
				e.Failf("dial", "Dial(%s): %v", ln.addr, err)
				return false
			}
			mu.Lock()
			conns = append(conns, cn)
			mu.Unlock()
			if addrText(cn.RemoteAddr()) != ln.addr {
				e.Failf("address", "the remote address of a connection dialed to %s is %s", ln.addr, cn.RemoteAddr())
				return false
			}
			_, port, err := net.SplitHostPort(addrText(cn.LocalAddr()))
			if err != nil {
				e.Failf("address", "the local address of a dialed connection is %s", cn.LocalAddr())
				return false
			}
			pairs = append(pairs, &netPair{l: i, gen: ln.gen, kind: 0, addr: net.JoinHostPort(nodeIP(60), port),
				dial: &netEnd{name: "dialed connection to " + ln.addr, conn: cn}})
			bound := false
			for _, b := range w.net.Bound() {
				bound = bound || b == net.JoinHostPort(nodeIP(60), port)
			}
			if !bound {
				e.Failf("address", "the local address of a dialed connection is %s, no such port is in use", cn.LocalAddr())
				return false
			}
		case 1:
			nclient++
			n, err := w.TryNode(70+nclient, 6000+nclient)
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			ch, err := n.Tru.Connect(ln.addr)
			if err != nil {
				e.Failf("dial", "Connect(%s): %v", ln.addr, err)
				return false
			}
			pairs = append(pairs, &netPair{l: i, gen: ln.gen, kind: 1, addr: n.Addr(),
				dial: &netEnd{name: "channel of " + n.Addr(), ch: ch, node: n}})
		case 2:
			nclient++
			p := w.Peer(70+nclient, 6000+nclient)
			mu.Lock()
			peersAt[p.Address()] = true
			mu.Unlock()
			s, err := p.Dial(ln.addr)
			if err != nil {
				e.Failf("dial", "a reference client could not connect to %s: %v", ln.addr, err)
				return false
			}
			go s.KeepAlive(stop)
			pairs = append(pairs, &netPair{l: i, gen: ln.gen, kind: 2, addr: p.Address(),
				dial: &netEnd{name: "peer " + p.Address(), sess: s}})
		}
		return true
	}
	// dials which can not succeed, while everything else goes on
	var failing []*failedDial
	failDial := func(kind int) {
		f := &failedDial{addr: "10.0.0.9"}
		if kind > 0 {
			nclient++
			f.addr = key(nodeIP(70+nclient), 6000+nclient)
		}
		if kind > 1 {
			p := w.Peer(70+nclient, 6000+nclient)
			mu.Lock()
			peersAt[p.Address()] = true
			mu.Unlock()
			p.OnPacket = func(pk PeerPacket) bool {
				switch {
				case pk.Hdr.Status == stConnect && kind > 2:
					p.answerConnect(pk)
				case pk.Hdr.Status == stClientAnswer && kind == 4:
					p.Send(pk.From, stDisconnect, 0, nil)
				}
				return true
			}
		}
		at(nodeIP(60))
		failing = append(failing, f)
		classes[[]string{"dial of a wrong address", "dial of a closed port", "dial without answer", "dial without end of the handshake",
			"dial refused during the handshake", "several dials without end of the handshake"}[kind]] = true
		for k := range max(1, 3*(kind-4)) {
			g := f
			if k > 0 {
				time.Sleep(lat)
				g = &failedDial{addr: f.addr}
				failing = append(failing, g)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				start := time.Now()
				cn, err := tru.Dial("tru", g.addr)
				mu.Lock()
				g.conn, g.err, g.took = cn, err, time.Since(start)
				if cn != nil {
					conns = append(conns, cn)
				}
				mu.Unlock()
			}()
		}
		w.Settle()
	}
	end := func(p *netPair) {
		if !p.ended {
			p.ended, p.endedT = true, time.Now()
		}
	}
	// compare what was read with what was written
	content := func(p *netPair, complete bool) bool {
		for _, d := range [][2]*netEnd{{p.dial, p.acc}, {p.acc, p.dial}} {
			from, to := d[0], d[1]
			if from == nil || to == nil {
				continue
			}
			if to.conn != nil {
				to.mu.Lock()
				bad := to.bad
				to.mu.Unlock()
				if bad != "" {
					e.Failf("read", "%s: %s", to.name, bad)
					return false
				}
			}
			whole := complete && !p.ended && (to.conn == nil || to.reading)
			got := to.received()
			skip := min(to.checked, len(got))
			if k, det := prefixOf(got[skip:], from.written[min(skip, len(from.written)):], whole); k != "" {
				e.Failf(k, "%s: from message %d on: %s", to.name, skip, det)
				return false
			}
			to.checked = len(got)
			if to.conn != nil {
				to.mu.Lock()
				cur, n := append([]byte{}, to.cur...), len(to.msgs)
				err := to.end
				to.mu.Unlock()
				if len(cur) > 0 && (n >= len(from.written) || !bytes.HasPrefix(from.written[n], cur)) {
					e.Failf("corrupt", "%s: the part of message %d read so far is %s, not its beginning", to.name, n, brief(cur))
					return false
				}
				if err != nil && !p.ended {
					e.Failf("read", "%s: reading failed on an open connection: %v (%v)", to.name, err, w.Since(to.endT))
					return false
				}
			}
		}
		return true
	}
	closeEnd := func(x *netEnd) bool {
		if err := x.close(); err != nil {
			e.Failf("close", "%s: the first Close of an open connection: %v", x.name, err)
			return false
		}
		x.closed, x.closedT = true, time.Now()
		return true
	}
	// after a connection ended: reads and writes fail on both ends
	dead := func(p *netPair) bool {
		for _, x := range []*netEnd{p.dial, p.acc} {
			if x == nil {
				continue
			}
			if x.sess == nil {
				old := x.written
				if err := x.write([]byte("late")); err == nil {
					e.Failf("write after close", "%s: a write %v after the connection was closed succeeded", x.name, time.Since(p.endedT))
					return false
				}
				x.written = old
			}
			if x.conn == nil {
				continue
			}
			if !x.reading {
				x.startReading([]int{700})
			}
			w.Settle()
			x.mu.Lock()
			pause, part := time.Until(x.resume), x.started
			x.mu.Unlock()
			if pause > 0 {
				classes["reader paused at the close"] = true
				if part {
					classes["message partly read at the close"] = true
				}
				w.Sleep(pause)
				w.Settle()
			}
			x.mu.Lock()
			done, endErr, bad := x.done, x.end, x.bad
			x.mu.Unlock()
			if bad != "" {
				e.Failf("read", "%s: %s", x.name, bad)
				return false
			}
			for _, c := range x.extra {
				select {
				case err := <-c:
					if err != nil {
						e.Failf("read", "%s: one of several blocked readers: %v", x.name, err)
						return false
					}
				default:
					e.Failf("read blocked", "%s: one of several readers is still blocked %v after the connection was closed", x.name, time.Since(p.endedT))
					return false
				}
			}
			x.extra = nil
			if n := len(x.received()); done && n < x.owed {
				e.Failf("lost at close", "%s: %d messages could be read after the peer closed, %d had arrived long before", x.name, n, x.owed)
				return false
			}
			if !done {
				e.Failf("read blocked", "%s: a read is still blocked %v after the connection was closed", x.name, time.Since(p.endedT))
				return false
			}
			if endErr == nil {
				continue
			}
			type rd struct {
				n   int
				err error
			}
			rc := make(chan rd, 1)
			go func() {
				n, err := x.conn.Read(make([]byte, 10))
				rc <- rd{n, err}
			}()
			w.Settle()
			select {
			case r := <-rc:
				if r.err == nil || r.n != 0 {
					e.Failf("read after close", "%s: a read after the connection had failed with %v returned %d, %v", x.name, endErr, r.n, r.err)
					return false
				}
			default:
				e.Failf("read blocked", "%s: a read blocks although an earlier one failed: %v", x.name, endErr)
				return false
			}
		}
		return true
	}
	// what has arrived when a connection is going to end
	sure := c.Faults.harmless()
	before := func(p *netPair, by *netEnd, more int) {
		w.Settle()
		for _, x := range []*netEnd{p.dial, p.acc} {
			from := p.dial
			if x == p.dial {
				from = p.acc
			}
			quiet := from == nil || sure && time.Since(from.wroteT) > 2*lat+900*time.Millisecond
			n := 0
			if from != nil {
				n = len(from.written)
			}
			if quiet && x != by && n <= 1000 {
				if x == nil {
					p.owedAcc = n
				} else if x.conn != nil {
					x.owed = n
				}
				if n > 0 {
					classes["all messages had arrived before the close"] = true
				}
			}
			if x == nil || x.conn == nil || !x.reading || more == 0 || !quiet {
				continue
			}
			x.mu.Lock()
			idle := !x.done && len(x.msgs) == n && !x.started
			x.mu.Unlock()
			if idle {
				x.moreReaders(more)
				classes["several readers blocked at the close"] = true
			}
		}
		w.Settle()
	}
	msgNo := 0
	for k, o := range c.Ops {
		if c.Listeners == 0 {
			break
		}
		i := o.L % c.Listeners
		var p *netPair
		if len(pairs) > 0 {
			p = pairs[o.C%len(pairs)]
		}
		switch o.K {
		case "dial", "node", "peer":
			before := len(pairs)
			if !dial(i, map[string]int{"dial": 0, "node": 1, "peer": 2}[o.K]) {
				return
			}
			if o.N > 0 && len(pairs) > before { // the first messages follow at once
				p = pairs[len(pairs)-1]
				if !p.ended && !p.dial.closed {
					for j := 0; j < o.N; j++ {
						if err := p.dial.write(payload(uint64(k), msgNo, o.Size)); err != nil {
							e.Failf("write", "%s: writing right after connecting: %v", p.dial.name, err)
							return
						}
						msgNo++
					}
				}
			}
		case "accept":
			if !lns[i].closed {
				accept(i, o.N/3, o.Size)
			}
		case "dwrite", "awrite":
			if p == nil || p.ended {
				break
			}
			x := p.dial
			if o.K == "awrite" {
				x = p.acc
			}
			if x == nil {
				break
			}
			for j := 0; j < o.N; j++ {
				if err := x.write(payload(uint64(k), msgNo, o.Size)); err != nil {
					e.Failf("write", "%s: writing: %v", x.name, err)
					return
				}
				msgNo++
			}
		case "dread", "aread":
			if p == nil {
				break
			}
			x := p.dial
			if o.K == "aread" {
				x = p.acc
			}
			if x != nil {
				if o.Pause > 0 {
					x.startReading(o.Bufs, o.N, o.Pause)
				} else {
					x.startReading(o.Bufs)
				}
			}
		case "dclose", "aclose":
			if p == nil || p.ended {
				break
			}
			x := p.dial
			if o.K == "aclose" {
				x = p.acc
			}
			if x == nil {
				break
			}
			before(p, x, max(0, o.N-1))
			end(p)
			if !closeEnd(x) {
				return
			}
			gone++
			classes["closed by "+map[string]string{"dclose": "dialer", "aclose": "acceptor"}[o.K]] = true
			// an own read is unblocked at once, the peer's when it learns of it
			w.Sleep(2*lat + 5*time.Millisecond)
			if !match() || !content(p, false) || !dead(p) {
				return
			}
		case "again":
			if p == nil || !p.ended {
				break
			}
			for _, x := range []*netEnd{p.dial, p.acc} {
				if x != nil && x.conn != nil {
					err := x.conn.Close()
					x.owed = 0
					if x.closed && err == nil {
						e.Failf("close twice", "%s: the second Close returned no error", x.name)
						return
					}
					x.closed = true
					classes["closed twice"] = true
				}
			}
		case "lclose":
			ln := lns[i]
			if ln.closed {
				if err := ln.l.Close(); err == nil {
					e.Failf("close twice", "the second Close of a listener returned no error")
					return
				}
				classes["listener closed twice"] = true
				break
			}
			for _, p := range pairs {
				if p.l == i && p.gen == ln.gen && !p.ended && p.acc != nil {
					before(p, p.acc, o.N/3)
				}
			}
			mu.Lock()
			ln.closed = true
			mu.Unlock()
			if err := ln.l.Close(); err != nil {
				e.Failf("close", "Close of a listener: %v", err)
				return
			}
			if !match() {
				return
			}
			if ln.pending > 0 {
				e.Failf("accept blocked", "%d Accepts are still blocked after the listener was closed", ln.pending)
				return
			}
			if cn, err := ln.l.Accept(); err == nil || cn != nil {
				e.Failf("accept", "Accept on a closed listener returned %v, %v", cn, err)
				return
			}
			classes["listener closed"] = true
			for _, p := range pairs {
				if p.l == i && p.gen == ln.gen {
					end(p)
				}
			}
			if o.N%2 == 1 { // at once
				if !listen(i) {
					return
				}
				classes["listens again at once"] = true
			}
			w.Sleep(2*lat + 5*time.Millisecond)
			for _, p := range pairs {
				if p.l == i && p.gen == ln.gen && (!content(p, false) || !dead(p)) {
					return
				}
			}
		case "crowd": // many connections which nobody accepts yet
			for range o.N * 8 {
				if !lns[i].closed && !dial(i, 2) {
					return
				}
			}
			classes["many connections before Accept"] = true
		case "faildial":
			failDial(o.N)
		case "listen":
			if lns[i].closed {
				if !listen(i) {
					return
				}
				classes["listens again"] = true
			}
		case "wrong":
			bad := []string{"", "8800", ":", ":port", "a:b:c", "10.0.0.1"}[o.N%6]
			if l, err := tru.Listen("tru", bad); err == nil {
				l.Close()
				e.Failf("listen", "Listen(%q) returned no error", bad)
				return
			}
		}
		if o.WaitU > 0 {
			time.Sleep(time.Duration(o.WaitU) * time.Microsecond)
		}
		if !match() {
			return
		}
		for _, p := range pairs {
			if !content(p, false) {
				return
			}
		}
	}
	// accept what is left; one Accept more must stay blocked
	w.Sleep(100*time.Millisecond + 4*lat)
	if !match() {
		return
	}
	for i, ln := range lns {
		if ln.closed {
			continue
		}
		for ln.pending < unaccepted(i)+1 {
			accept(i, 0, 0)
		}
	}
	if !match() {
		return
	}
	for i, ln := range lns {
		if ln.closed {
			continue
		}
		if n := unaccepted(i); n > 0 {
			e.Failf("not accepted", "%d established connections of listener %d were not accepted, %d Accepts wait", n, i, ln.pending)
			return
		}
	}
	for k, p := range pairs {
		for _, x := range []*netEnd{p.dial, p.acc} {
			if x != nil {
				x.startReading([][]int{{64}, {1, 2, 0, 900}, {100000}}[k%3])
			}
		}
	}
	left := zero.Add(time.Duration(c.Faults.UntilMs) * time.Millisecond).Sub(time.Now())
	for _, o := range c.Faults.Outages {
		left = max(left, zero.Add(time.Duration(o.From+o.Len)*time.Millisecond).Sub(time.Now()))
	}
	w.Sleep(max(left, 0) + 15*time.Second)
	if !match() {
		return
	}
	total, live := 0, 0
	for _, p := range pairs {
		if !content(p, true) {
			return
		}
		if p.ended && !dead(p) {
			return
		}
		if !p.ended {
			live++
		}
		total += len(p.dial.written)
		if p.acc != nil {
			total += len(p.acc.written)
		}
	}
	// close what is left by turns
	for k, p := range pairs {
		if p.ended {
			continue
		}
		end(p)
		x := p.dial
		if k%2 == 1 && p.acc != nil {
			x = p.acc
		}
		if !closeEnd(x) {
			return
		}
	}
	w.Sleep(2*lat + 5*time.Millisecond)
	for _, p := range pairs {
		if !content(p, false) || !dead(p) {
			return
		}
		for _, x := range []*netEnd{p.dial, p.acc} {
			if x != nil && x.conn != nil && x.closed {
				if err := x.conn.Close(); err == nil {
					e.Failf("close twice", "%s: closing again returned no error", x.name)
					return
				}
			}
		}
	}
	for i, ln := range lns {
		if ln.closed {
			continue
		}
		ln.closed = true
		if err := ln.l.Close(); err != nil {
			e.Failf("close", "Close of a listener: %v", err)
			return
		}
		if !match() {
			return
		}
		if ln.pending > 0 {
			e.Failf("accept blocked", "%d Accepts are still blocked after the listener was closed", ln.pending)
			return
		}
		if !listen(i) {
			return
		}
	}
	// the port of the dialed connections is not used any more
	for _, b := range w.net.Bound() {
		if strings.HasPrefix(b, nodeIP(60)+":") {
			e.Failf("not released", "all dialed connections were closed, but the port %s is still in use", b)
			return
		}
	}
	mu.Lock()
	for _, f := range failing {
		if f.took == 0 && f.err == nil && f.conn == nil {
			e.Failf("dial blocked", "Dial(%s) did not return", f.addr)
		} else if f.err == nil || f.conn != nil {
			e.Failf("dial", "Dial(%s), which does not let connect, returned %v, %v", f.addr, f.conn, f.err)
		} else if f.took > 6*time.Second {
			e.Failf("dial blocked", "Dial(%s) returned after %v", f.addr, f.took)
		}
	}
	for _, a := range accepts {
		if a.err != nil && errors.Is(a.err, io.EOF) {
			e.Failf("accept", "Accept returned end-of-file")
		}
	}
	mu.Unlock()
	for k := range classes {
		e.Class("%s", k)
	}
	e.ClassIf(total > 0, "messages")
	e.ClassIf(gone > 0, "connections closed midway")
	kinds := ""
	for _, p := range pairs {
		if !strings.Contains(kinds, fmt.Sprint(p.kind)) {
			kinds += fmt.Sprint(p.kind)
			e.Class("client: %s", []string{"dialed net.Conn", "channel of a node", "reference peer"}[p.kind])
		}
	}
	if len(pairs) > 0 && total > 1 {
		e.NonTrivial()
	}
}

func drawNet(rt *rapid.T) (c NetCase) {
	c.Listeners = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "listeners")
	c.LatU = rapid.SampledFrom([]int{100, 1000, 30_000}).Draw(rt, "lat")
	c.TickU = rapid.SampledFrom([]int{0, 0, 0, 100, 1000, 7000}).Draw(rt, "tick")
	c.Faults = drawFaults(rt, 20, 4000)
	c.Faults.Handsh = false
	// connections must be set up, outages would hit that
	c.Faults.Outages = nil
	// late packets can make an idle channel look alive to one end only
	c.Faults.SlowMs, c.Faults.DupMs = min(c.Faults.SlowMs, 400), min(c.Faults.DupMs, 400)
	for i := range c.Faults.Rules {
		c.Faults.Rules[i].Ms = min(c.Faults.Rules[i].Ms, 400)
	}
	kinds := []string{"dial", "dial", "dial", "node", "peer", "accept", "accept", "accept", "accept", "dwrite", "dwrite", "dwrite", "awrite", "awrite", "awrite",
		"dread", "dread", "aread", "aread", "dclose", "aclose", "again", "lclose", "listen", "wrong", "faildial"}
	for i := rapid.IntRange(2, 24).Draw(rt, "nops"); i > 0; i-- {
		o := NetOp{K: rapid.SampledFrom(kinds).Draw(rt, "k"), L: rapid.IntRange(0, c.Listeners-1).Draw(rt, "l"), C: rapid.IntRange(0, 7).Draw(rt, "c")}
		o.N = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 7}).Draw(rt, "n")
		if o.K == "faildial" {
			o.N = rapid.IntRange(0, 5).Draw(rt, "why")
		}
		o.Size = rapid.SampledFrom([]int{0, 1, 3, 64, 65, 511, 512, 513, 1024, 4096, 70_000}).Draw(rt, "size")
		if strings.HasSuffix(o.K, "read") {
			o.Pause = rapid.SampledFrom([]int{0, 0, 1500, 4000}).Draw(rt, "pause")
			o.Bufs = append(rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 64, 511, 512, 513, 1024, 100_000}), 0, 4).Draw(rt, "bufs"), rapid.SampledFrom([]int{7, 64, 512, 4096}).Draw(rt, "buf"))
		}
		if o.K != "faildial" && rapid.IntRange(0, 250).Draw(rt, "crowd") == 125 {
			o.K = "crowd"
		}
		o.WaitU = rapid.SampledFrom([]int{0, 0, 0, 100, 5000, 150_000, 1_300_000}).Draw(rt, "w")
		c.Ops = append(c.Ops, o)
	}
	return
}

func init() {
	register(&Spec{
		ID: "C14",
		Rule: "Up to three listeners; dialed connections, channels of other nodes and reference peers connect to them; a generated history of Accept (with greetings written at once), Write, Read with buffers of generated sizes, Close on either end, closing listeners and listening again, dials which fail, over a network with loss, delay and duplicates of data; and connections whose messages are read in turns, hundreds at a time. Messages read are compared with messages written, accepted connections with established ones, addresses with the endpoints; after a close reads and writes must fail. " +
			"Non-trivial: a connection was established and at least two messages written.",
		Cases: map[Tier]int{Quick: 10000, Thorough: 150000},
		Draw: func(rt *rapid.T, tier Tier) any {
			if rapid.IntRange(0, 100).Draw(rt, "pump") == 50 {
				c := PumpCase{LatU: rapid.SampledFrom([]int{100, 5000}).Draw(rt, "lat")}
				unread := [2]int{}
				for i := rapid.IntRange(2, 12).Draw(rt, "turns"); i > 0; i-- {
					t := PumpTurn{Acc: rapid.Bool().Draw(rt, "acc"), N: rapid.SampledFrom([]int{1, 5, 50, 200, 400}).Draw(rt, "n"), Size: rapid.SampledFrom([]int{1, 20, 65, 600}).Draw(rt, "size"),
						Buf: rapid.SampledFrom([]int{1, 20, 64, 1000}).Draw(rt, "buf"), Left: rapid.SampledFrom([]int{0, 0, 0, 1, 10, 300}).Draw(rt, "left"), Wait: rapid.SampledFrom([]int{0, 5, 1000}).Draw(rt, "wait")}
					side := 0
					if t.Acc {
						side = 1
					}
					if unread[side] > 400 {
						t.Left = 0
					}
					unread[side] = min(unread[side]+t.N, t.Left)
					c.Pump = append(c.Pump, t)
				}
				return c
			}
			return drawNet(rt)
		},
		Run: func(e *Env, raw jsonRaw) {
			if c := decode[PumpCase](raw); len(c.Pump) > 0 {
				runPump(e, c)
				return
			}
			runNet(e, decode[NetCase](raw))
		},
		Fixed: func(tier Tier) (l []any) {
			// many messages before anybody reads
			for _, k := range []string{"dwrite", "awrite"} {
				l = append(l, NetCase{Listeners: 1, LatU: 500, Ops: []NetOp{{K: "dial", N: 1, Size: 10}, {K: "accept", WaitU: 5000}, {K: k, N: 3000, Size: 9, WaitU: 2_000_000}}})
			}
			l = append(l, NetCase{Listeners: 1, LatU: 500, Ops: []NetOp{{K: "dial", N: 1, Size: 10}, {K: "accept", WaitU: 5000}, {K: "dwrite", N: 2500, Size: 9, WaitU: 2_000_000}, {K: "dclose"}}})
			for _, acc := range []bool{false, true} {
				c := PumpCase{LatU: 500}
				for range 6 {
					c.Pump = append(c.Pump, PumpTurn{Acc: acc, N: 300, Size: 30, Buf: 100, Wait: 100})
				}
				l = append(l, c)
			}
			return
		},
	})
}
