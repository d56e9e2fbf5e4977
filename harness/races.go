package harness

// C16: the API from many goroutines, under the race detector.

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"
	"pgregory.net/rapid"
)

// RaceOp is one call of an actor
type RaceOp struct {
	GapU int    `json:"gap,omitempty"` // microseconds before it
	Op   string `json:"op"`
	Ch   int    `json:"ch,omitempty"` // which of the channels the actor knows
	N    int    `json:"n,omitempty"`
	Size int    `json:"size,omitempty"`
	Arg  int    `json:"arg,omitempty"`
}

// RaceActor is a goroutine
type RaceActor struct {
	Node int      `json:"node"`
	Ops  []RaceOp `json:"ops"`
}

// RaceCase is the scenario
type RaceCase struct {
	Nodes  int         `json:"nodes"`
	LatU   int         `json:"lat"`
	LossPm int         `json:"loss"`
	DupPm  int         `json:"dup"`
	MaxDat int         `json:"maxdata"`
	Links  [][2]int    `json:"links"`
	ChanRd bool        `json:"chanrd"`
	Reader []int       `json:"reader"` // what the callbacks of a node do
	Show   bool        `json:"show"`   // nodes print statistics
	Lsn    int         `json:"listeners"`
	Dials  []int       `json:"dials"`
	Actors []RaceActor `json:"actors"`
}

// raceNode is a node and what belongs to it
type raceNode struct {
	t    *tru.Tru
	addr string
	mode int
	hand chan []byte // messages handed to another goroutine
	work chan func() // things done in another goroutine
	seen atomic.Pointer[tru.Channel]
	n    atomic.Int32
	shut atomic.Bool
	echo atomic.Int32
}

func (x *raceNode) do(f func()) {
	select {
	case x.work <- f:
	default:
	}
}

// useChannel calls everything that only looks
func useChannel(ch *tru.Channel) {
	_ = ch.Addr().String()
	_ = ch.String()
	_ = ch.IP().String()
	_ = ch.Port()
	_ = ch.Triptime()
	_ = ch.ServerMode()
	_ = ch.Destroyed()
}

func (x *raceNode) reader(ch *tru.Channel, pac *tru.Packet, err error) bool {
	if ch == nil || x.t == nil {
		return false
	}
	if err != nil {
		switch x.mode {
		case 1, 4:
			useChannel(ch)
			ch.WriteTo([]byte("to a destroyed channel"))
		case 2:
			x.t.Statistic()
		}
		return false
	}
	data := pac.Data()
	switch x.mode {
	case 1: // answers
		if x.echo.Add(-1) >= 0 {
			ch.WriteTo(data)
		}
	case 2: // the message is used in another goroutine
		select {
		case x.hand <- data:
		default:
		}
		x.do(func() { useChannel(ch); _ = pac.ID(); _ = pac.Status(); _ = pac.Len() })
	case 3:
		if x.n.Add(1)%16 == 0 {
			st := x.t.Statistic()
			_ = st.String()
			x.t.ForEachChannel(useChannel)
		}
	case 4: // closes now and then
		if x.n.Add(1)%24 == 0 {
			ch.Close()
		}
	case 5: // changes the message, which belongs to it
		for i := range data {
			data[i]++
		}
	}
	return x.mode%2 == 0
}

func (x *raceNode) connected(ch *tru.Channel, err error) {
	if err != nil || ch == nil || x.t == nil {
		return
	}
	switch x.mode {
	case 1, 3:
		ch.WriteTo([]byte("welcome"), func(p *tru.Packet, err error) { useChannel(ch) })
	case 2:
		x.do(func() { useChannel(ch); ch.WriteTo([]byte("welcome")) })
	}
}

var raceOps = []string{"send", "send", "send", "send-cb", "send-cb", "send-short", "big", "close", "connect", "connect",
	"reconnect", "stat", "stat", "foreach", "foreach", "print", "stop", "minilog", "punchcb", "delay", "maxdata", "punch",
	"raw", "addr", "log", "use", "use", "new", "foreach-send"}

var raceNetOps = []string{"write", "write", "write", "read", "read", "cclose", "caddr", "deadline", "dial", "accept", "lclose", "laddr"}

// raceThemes are sets of operations which belong together
var raceThemes = [][]string{
	{"print", "print", "minilog", "stop", "close", "connect", "reconnect", "reconnect", "send", "stat"},
	{"dial", "dial", "accept", "accept", "lclose", "cclose", "write", "read", "caddr", "connect"},
	{"connect", "connect", "reconnect", "reconnect", "close", "foreach-send", "foreach", "send-cb", "new"},
	{"dial", "write", "write", "read", "read", "cclose", "accept", "deadline"},
	{"log", "send", "close", "reconnect", "print", "punch", "raw"},
	{"send-short", "send-short", "send-cb", "close", "delay", "stat"},
}

func drawRace(rt *rapid.T, tier Tier) any {
	c := RaceCase{}
	c.Nodes = rapid.IntRange(2, 4).Draw(rt, "nodes")
	c.LatU = rapid.SampledFrom([]int{0, 0, 50, 500, 5000, 50000}).Draw(rt, "lat")
	c.LossPm = rapid.SampledFrom([]int{0, 0, 0, 20, 150, 400}).Draw(rt, "loss")
	c.DupPm = rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(rt, "dup")
	c.MaxDat = rapid.SampledFrom([]int{0, 0, 64, 512}).Draw(rt, "maxdata")
	c.ChanRd = rapid.Bool().Draw(rt, "chanrd")
	c.Show = rapid.IntRange(0, 3).Draw(rt, "show") == 0
	for i := range c.Nodes {
		c.Reader = append(c.Reader, rapid.IntRange(0, 5).Draw(rt, "reader"))
		for j := range c.Nodes {
			if i != j && rapid.IntRange(0, 2).Draw(rt, "link") > 0 {
				dup := false
				for _, l := range c.Links {
					dup = dup || l == [2]int{j, i}
				}
				if !dup {
					c.Links = append(c.Links, [2]int{i, j})
				}
			}
		}
	}
	var theme []string
	if k := rapid.IntRange(0, 3*len(raceThemes)-1).Draw(rt, "theme"); k%3 == 1 {
		theme = raceThemes[k/3]
		c.Show = c.Show || k/3 == 0
	}
	if rapid.IntRange(0, 2).Draw(rt, "net") == 0 || theme != nil && theme[0] == "dial" {
		c.Lsn = rapid.IntRange(1, 3).Draw(rt, "listeners")
		for range rapid.IntRange(1, 3).Draw(rt, "dials") {
			c.Dials = append(c.Dials, rapid.IntRange(0, c.Lsn-1).Draw(rt, "dial"))
		}
	}
	ops := raceOps
	if c.Lsn > 0 {
		ops = append(append(append([]string{}, raceOps...), raceNetOps...), raceNetOps...)
	}
	// a few kinds of operations per case: they meet more often
	if rapid.Bool().Draw(rt, "few") {
		var l []string
		for range rapid.IntRange(2, 5).Draw(rt, "kinds") {
			l = append(l, rapid.SampledFrom(ops).Draw(rt, "kind"))
		}
		ops = append(l, "send")
	}
	if theme != nil {
		ops = theme
	}
	for range rapid.IntRange(2, 8).Draw(rt, "actors") {
		a := RaceActor{Node: rapid.IntRange(0, c.Nodes-1).Draw(rt, "node")}
		for range rapid.IntRange(1, 12).Draw(rt, "nops") {
			o := RaceOp{Op: rapid.SampledFrom(ops).Draw(rt, "op")}
			o.GapU = rapid.SampledFrom([]int{0, 0, 0, 0, 10, 1000, 40000, 500000, 3000000}).Draw(rt, "gap")
			o.Ch = rapid.IntRange(0, 4).Draw(rt, "ch")
			o.N = rapid.SampledFrom([]int{1, 1, 2, 5, 20}).Draw(rt, "n")
			o.Size = rapid.SampledFrom([]int{0, 1, 16, 63, 200, 1500}).Draw(rt, "size")
			o.Arg = rapid.IntRange(0, 7).Draw(rt, "arg")
			a.Ops = append(a.Ops, o)
		}
		if rapid.IntRange(0, 9).Draw(rt, "shut") == 0 {
			a.Ops = append(a.Ops, RaceOp{Op: "shut", GapU: rapid.SampledFrom([]int{0, 1000, 100000}).Draw(rt, "gap")})
		}
		c.Actors = append(c.Actors, a)
	}
	return c
}

// raceWorld is the state of a running case
type raceWorld struct {
	e     *Env
	c     RaceCase
	net   *LightNet
	nodes []*raceNode
	lsn   []net.Listener
	stop  chan struct{}
	wg    sync.WaitGroup
	port  atomic.Int32
	calls sync.Map // kinds of operations which ran
	over  atomic.Bool
	bg    sync.WaitGroup
	conns sync.Map
}

func (w *raceWorld) newNode(mode int, show bool) (*raceNode, error) {
	x := &raceNode{mode: mode, hand: make(chan []byte, 256), work: make(chan func(), 256)}
	x.echo.Store(200)
	port := int(w.port.Add(1))
	x.addr = lightAddr(port)
	ready := make(chan struct{})
	// The callbacks may be called before New returned
	t, err := tru.New(port, quietLog, tru.Stat(show),
		tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool { <-ready; return x.reader(ch, pac, err) }),
		tru.ConnectFunc(func(ch *tru.Channel, err error) { <-ready; x.connected(ch, err) }),
		tru.PunchFunc(func(a net.Addr, d []byte) { <-ready; _ = a.String(); _ = len(d) }))
	x.t = t
	close(ready)
	if err != nil {
		return nil, err
	}
	for range 2 {
		w.bg.Add(1)
		go func() {
			defer w.bg.Done()
			for {
				select {
				case <-w.stop:
					return
				case d := <-x.hand:
					sum := 0
					for _, b := range d {
						sum += int(b)
					}
					for i := range d {
						d[i] = byte(sum)
					}
				case f := <-x.work:
					f()
				}
			}
		}()
	}
	return x, nil
}

func (w *raceWorld) close(x *raceNode) {
	if !x.shut.Swap(true) {
		x.t.Close()
	}
}

func (w *raceWorld) addConn(l *[]net.Conn, c net.Conn) {
	*l = append(*l, c)
	w.conns.Store(c, true)
}

// run an actor
func (w *raceWorld) actor(a RaceActor, chs []*tru.Channel, conns []net.Conn) {
	x := w.nodes[a.Node]
	for _, o := range a.Ops {
		if w.over.Load() {
			return
		}
		if o.GapU > 0 {
			time.Sleep(time.Duration(o.GapU) * time.Microsecond)
		}
		var ch *tru.Channel
		if len(chs) > 0 {
			ch = chs[(o.Ch+a.Node)%len(chs)]
		}
		var cn net.Conn
		if len(conns) > 0 {
			cn = conns[o.Ch%len(conns)]
		}
		peer := w.nodes[(a.Node+1+o.Arg%(len(w.nodes)-1))%len(w.nodes)]
		var ls net.Listener
		if len(w.lsn) > 0 {
			ls = w.lsn[o.Arg%len(w.lsn)]
		}
		data := make([]byte, o.Size)
		switch o.Op {
		case "send", "big", "send-cb", "send-short":
			if ch == nil {
				continue
			}
			if o.Op == "big" {
				data = make([]byte, 1000+o.Size*20)
				o.N = min(o.N, 3)
			}
			for k := range o.N {
				var args []any
				if o.Op == "send-cb" || o.Op == "send-short" {
					args = append(args, func(p *tru.Packet, err error) {
						useChannel(ch)
						if p != nil {
							_ = p.ID()
							_ = len(p.Data())
							_ = p.Status()
						}
						if o.Arg == 0 && k == 0 {
							ch.WriteTo([]byte("from a delivery callback"))
						}
					})
				}
				if o.Op == "send-short" {
					args = append(args, time.Duration(o.Arg*o.Arg*50)*time.Millisecond+time.Microsecond)
				}
				ch.WriteTo(data, args...)
				for i := range data { // it is the application's again
					data[i]++
				}
			}
		case "close":
			if ch != nil {
				ch.Close()
			}
		case "connect":
			var args []tru.ReaderFunc
			if o.N > 1 {
				args = append(args, tru.ReaderFunc(x.reader))
			}
			if c, err := x.t.Connect(peer.addr, args...); err == nil {
				chs = append(chs, c)
				c.WriteTo(data)
			}
		case "reconnect":
			if ch != nil {
				ch.Close()
				if c, err := x.t.Connect(ch.Addr().String()); err == nil {
					chs = append(chs, c)
					c.WriteTo(data)
				}
			}
		case "stat":
			for range o.N {
				st := x.t.Statistic()
				_ = st.NumRows()
				if o.Arg > 3 {
					_ = st.String(o.Arg > 5)
				}
			}
		case "foreach":
			for range o.N {
				x.t.ForEachChannel(func(ch *tru.Channel) {
					useChannel(ch)
					if o.Arg == 0 {
						chs = append(chs, ch)
					}
				})
			}
		case "foreach-send":
			x.t.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo(data) })
		case "print":
			x.t.StatisticPrint()
			_ = x.t.StatisticPrintRunning()
		case "stop":
			x.t.StatisticPrintStop()
		case "minilog":
			x.t.StatisticMinilog()
		case "punchcb":
			x.t.SetPunchCb(func(a net.Addr, d []byte) { _ = a.String() })
		case "delay":
			x.t.SetSendDelay(o.Arg * o.N)
		case "maxdata":
			x.t.SetMaxDataLen(o.Arg * 64)
		case "punch":
			for range o.N {
				x.t.WriteToPunch(data, peer.addr)
			}
		case "raw":
			ua, _ := net.ResolveUDPAddr("udp", peer.addr)
			if o.Arg%2 == 0 {
				x.t.WriteTo(data, peer.addr)
			} else {
				x.t.WriteTo(data, ua)
			}
		case "addr":
			_ = x.t.LocalAddr().String()
			_ = x.t.LocalPort()
			_ = x.t.Hotkey()
			_ = x.t.Logo("app", "1")
			_ = tru.Logo("app", "1")
		case "log":
			switch o.Arg {
			case 0, 1:
				quietLog.SetLevel(teolog.LogLevel(o.N % 9))
			case 2:
				quietLog.SwitchLevel()
			case 3:
				quietLog.SetFilter("channel || packet")
			case 4:
				quietLog.ClearFilter()
			case 5:
				_ = quietLog.Level().String() + quietLog.String() + quietLog.Levels()
			case 6:
				_ = quietLog.Filter()
			case 7:
				quietLog.SetFlags(o.N)
				quietLog.Debugvvv.Println("a message of the application")
			}
		case "use":
			if ch != nil {
				useChannel(ch)
			}
		case "new":
			y, err := w.newNode(o.Arg%6, o.Arg == 7)
			if err != nil {
				continue
			}
			if c, err := y.t.Connect(peer.addr); err == nil {
				c.WriteTo(data)
			}
			if c, err := x.t.Connect(y.addr); err == nil && o.Arg%2 == 0 {
				c.WriteTo(data)
			}
			w.close(y)
		case "shut":
			w.close(x)
		case "dial":
			if ls != nil {
				if c, err := tru.Dial("tru", lsnAddr(ls)); err == nil {
					w.addConn(&conns, c)
					c.Write(data)
				}
			}
		case "accept":
			if ls != nil {
				w.bg.Add(1)
				go func() {
					defer w.bg.Done()
					if c, err := ls.Accept(); err == nil {
						w.conns.Store(c, true)
						_ = c.RemoteAddr().String()
						b := make([]byte, 100)
						for {
							n, err := c.Read(b)
							if errors.Is(err, tru.ErrChannelDestroyed) {
								return
							}
							if n > 0 {
								c.Write(b[:n])
							}
						}
					}
				}()
			}
		case "lclose":
			if ls != nil {
				ls.Close()
			}
		case "laddr":
			if ls != nil {
				_ = ls.Addr().String()
			}
		case "write":
			if cn != nil {
				for range o.N {
					cn.Write(data)
					for i := range data {
						data[i]++
					}
				}
			}
		case "read": // in a goroutine of its own
			if cn != nil {
				w.bg.Add(1)
				go func() {
					defer w.bg.Done()
					b := make([]byte, 1+o.Size)
					for range o.N * 3 {
						if _, err := cn.Read(b); errors.Is(err, tru.ErrChannelDestroyed) {
							return
						}
						for i := range b {
							b[i]++
						}
					}
				}()
			}
		case "cclose":
			if cn != nil {
				cn.Close()
			}
		case "caddr":
			if cn != nil {
				_ = cn.LocalAddr().String() + cn.RemoteAddr().String()
			}
		case "deadline":
			if cn != nil {
				cn.SetDeadline(time.Time{})
				cn.SetReadDeadline(time.Time{})
				cn.SetWriteDeadline(time.Time{})
			}
		}
		w.calls.Store(o.Op, true)
	}
}

func lsnAddr(l net.Listener) string {
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return lightIP + ":" + p
}

func runRace(e *Env, raw jsonRaw) {
	c := decode[RaceCase](raw)
	w := &raceWorld{e: e, c: c, stop: make(chan struct{})}
	w.net = &LightNet{latency: time.Duration(c.LatU) * time.Microsecond, lossPm: c.LossPm, dupPm: c.DupPm}
	w.net.calm.Store(true)
	w.port.Store(7000)
	tru.ListenPacketHook = w.net.ListenPacket
	e.Cleanup(func() {
		w.over.Store(true)
		w.conns.Range(func(c, _ any) bool { c.(net.Conn).Close(); return true })
		for _, l := range w.lsn {
			l.Close()
		}
		for _, x := range w.nodes {
			w.close(x)
		}
		close(w.stop)
		w.bg.Wait()
		w.conns.Range(func(c, _ any) bool { c.(net.Conn).Close(); return true })
		time.Sleep(w.net.latency + 10*time.Millisecond)
		w.net.hosts.Range(func(p, _ any) bool {
			e.Failf("not released", "all connections, listeners and nodes were closed, but port %v is still open", p)
			return false
		})
		tru.ListenPacketHook = nil
		quietLog.SetLevel(teolog.None)
		quietLog.ClearFilter()
	})
	for i := range c.Nodes {
		x, err := w.newNode(c.Reader[i], c.Show)
		if err != nil {
			panic(harnessBug("New: " + err.Error()))
		}
		if c.MaxDat > 0 {
			x.t.SetMaxDataLen(c.MaxDat)
		}
		w.nodes = append(w.nodes, x)
	}
	chs := make([][]*tru.Channel, c.Nodes)
	for _, l := range c.Links {
		a, b := w.nodes[l[0]], w.nodes[l[1]]
		var args []tru.ReaderFunc
		if c.ChanRd {
			args = append(args, tru.ReaderFunc(a.reader))
		}
		ch, err := a.t.Connect(b.addr, args...)
		if err != nil {
			e.Failf("connect", "Connect over an undisturbed network: %v", err)
			return
		}
		chs[l[0]] = append(chs[l[0]], ch)
		b.t.ForEachChannel(func(ch *tru.Channel) {
			if ch.Addr().String() == a.addr {
				chs[l[1]] = append(chs[l[1]], ch)
			}
		})
	}
	var conns []net.Conn
	for range c.Lsn {
		l, err := tru.Listen("tru", fmt.Sprintf(":%d", w.port.Add(1)))
		if err != nil {
			panic(harnessBug("Listen: " + err.Error()))
		}
		w.lsn = append(w.lsn, l)
	}
	for _, d := range c.Dials {
		cn, err := tru.Dial("tru", lsnAddr(w.lsn[d]))
		if err != nil {
			e.Failf("connect", "Dial over an undisturbed network: %v", err)
			return
		}
		w.addConn(&conns, cn)
		if an, err := w.lsn[d].Accept(); err == nil {
			w.addConn(&conns, an)
		}
	}
	w.net.calm.Store(false)

	// all of them at once
	start := make(chan struct{})
	done := make(chan struct{})
	for _, a := range c.Actors {
		w.wg.Add(1)
		own := append([]*tru.Channel(nil), chs[a.Node]...)
		cs := append([]net.Conn(nil), conns...)
		go func() {
			defer w.wg.Done()
			<-start
			w.actor(a, own, cs)
		}()
	}
	close(start)
	go func() { w.wg.Wait(); close(done) }()
	limit := 10 * time.Minute // of the simulated clock
	if e.InReal {
		limit = 200 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		e.Failf("blocked", "calls of the API did not return within %v", limit)
		return
	}

	// the nodes still work
	w.net.calm.Store(true)
	if !e.InReal {
		time.Sleep(15 * time.Second)
	}
	for i, x := range w.nodes {
		y := w.nodes[(i+1)%len(w.nodes)]
		if x.shut.Load() || y.shut.Load() || w.e.InReal {
			continue
		}
		ch, err := x.t.Connect(y.addr)
		if err != nil {
			e.Failf("wedged", "after all of it node %d can not connect to node %d: %v", i, (i+1)%len(w.nodes), err)
			return
		}
		got := make(chan error, 1)
		if _, err := ch.WriteTo([]byte("still there"), func(_ *tru.Packet, err error) {
			select {
			case got <- err:
			default:
			}
		}); err != nil && x.mode != 4 && y.mode != 4 {
			e.Failf("wedged", "after all of it node %d can not send to node %d: %v", i, (i+1)%len(w.nodes), err)
			return
		}
		select {
		case err := <-got:
			if err != nil && x.mode != 4 && y.mode != 4 {
				e.Failf("wedged", "after all of it a message of node %d is not delivered to node %d: %v", i, (i+1)%len(w.nodes), err)
				return
			}
		case <-time.After(30 * time.Second):
			if x.mode != 4 && y.mode != 4 {
				e.Failf("wedged", "after all of it a message of node %d is not delivered to node %d", i, (i+1)%len(w.nodes))
				return
			}
		}
		e.Class("connected again at the end")
	}
	kinds := 0
	w.calls.Range(func(k, _ any) bool { kinds++; e.Class("%s", k); return true })
	e.ClassIf(c.Lsn > 0, "connections of the net package")
	e.ClassIf(c.LossPm > 0, "losses")
	same := map[int]int{}
	for _, a := range c.Actors {
		same[a.Node]++
	}
	for _, n := range same {
		if n > 1 && kinds > 1 {
			e.Class("several goroutines on a node")
			e.NonTrivial()
		}
	}
}

func init() {
	register(&Spec{
		ID:       "C16",
		CPULimit: 150,
		Rule: "A case is 2-4 nodes with up to 6 channels (and in a third of the cases up to 3 listeners with dialed and accepted " +
			"connections), and 2-8 goroutines which call the API without waiting for each other, in callbacks too, built with " +
			"the race detector on a network which does not order the goroutines. Non-trivial: two goroutines worked on the " +
			"same node, with more than one kind of operation.",
		Race:  true,
		Cases: map[Tier]int{Quick: 3000, Thorough: 60000},
		Draw:  drawRace,
		Run:   runRace,
		Assume: []string{"the race detector reports accesses which no synchronisation of the run orders; races in code paths no case " +
			"takes are not seen", "nodes share one logger (a process with nodes which set different loggers at once is not judged)"},
	})
}
