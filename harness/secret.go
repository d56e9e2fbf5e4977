package harness

// C11: what the network sees, and what tampering achieves.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// SMsg is a message; those of equal size and content number are equal
type SMsg struct {
	Side  int `json:"side"`
	Size  int `json:"size"`
	Text  int `json:"text"`
	WaitU int `json:"wait"`
}

// Tamper alters a data packet
type Tamper struct {
	Dir  int  `json:"dir"`
	Nth  int  `json:"nth"`  // number of the packet
	Copy int  `json:"copy"` // transmission, counted anew on every connection
	Op   int  `json:"op"`
	Pos  int  `json:"pos"`
	Val  int  `json:"val"`
	Also bool `json:"also"` // the original arrives too, later
}

// EarlyData comes before the session key is agreed
type EarlyData struct {
	Size  int    `json:"size"`
	ID    int    `json:"id"`
	Key   string `json:"key"` // none, zero, right
	Stage int    `json:"stage"`
}

// SecretCase is the scenario
type SecretCase struct {
	LatU   int         `json:"lat"`
	Max    int         `json:"max"`
	Rounds int         `json:"rounds"` // connections between the two nodes
	Swap   bool        `json:"swap"`   // every other connection is made by B
	Seed   uint64      `json:"seed"`
	Msgs   []SMsg      `json:"msgs"`
	Tamper []Tamper    `json:"tamper"`
	Peers  int         `json:"peers"` // connections of A to a reference server
	Burst  []Dial      `json:"burst"` // connections to a reference server in quick succession
	Early  []EarlyData `json:"early"`
}

// Dial is a connection to a reference server a time after the one before
type Dial struct {
	WaitU int  `json:"wait"`
	Fresh bool `json:"fresh"` // by a new node
	Hold  bool `json:"hold"`  // don't wait for the end of it
}

// text is the content of a message: bytes of high entropy, or of little
func text(seed uint64, n, size int) []byte {
	b := make([]byte, size)
	r := rand.New(rand.NewPCG(seed, uint64(n)))
	for i := range b {
		switch n % 3 {
		case 0:
			b[i] = byte(r.Uint32())
		case 1:
			b[i] = "The quick brown fox jumps over the lazy dog. "[i%45]
		case 2:
			b[i] = byte(i / 16)
		}
	}
	return b
}

func alter(b []byte, t Tamper, other []byte) []byte {
	b = append([]byte{}, b...)
	body := len(b) - 4
	p := 4 + t.Pos%body
	switch t.Op % 8 {
	case 0, 1:
		b[p] ^= 1 << (t.Val % 8)
	case 2: // overwrite a piece
		for i := p; i < min(len(b), p+1+t.Val%20); i++ {
			b[i] ^= byte(t.Val) | 1
		}
	case 3: // cut, more than 64 stay
		b = b[:max(4+65, p)]
	case 4: // append
		b = append(b, rnd(t.Val, 1+t.Val%40)...)
	case 5: // another number
		v := binary.LittleEndian.Uint32(b)
		id := v & (idLimit - 1)
		nid := (id + 1 + uint32(t.Val)) & (idLimit - 1)
		binary.LittleEndian.PutUint32(b, v&^(idLimit-1)|nid)
	case 6: // the content of another packet of the same side
		if len(other) > 4+64 && !bytes.Equal(other[4:], b[4:]) {
			b = append(b[:4], other[4:]...)
		} else {
			b[p] ^= 0x80
		}
	case 7: // zeros
		for i := range b[4:] {
			b[4+i] = 0
		}
	}
	return b
}

func runSecret(e *Env, c SecretCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	a, b := w.Node(maxLenParam(c.Max)...), w.Node(maxLenParam(c.Max)...)
	nodes := []*Node{a, b}
	tampered := 0
	type first struct {
		round int
		data  []byte
	}
	seen := map[string][]first{} // payloads which carry equal messages of one side
	var plain [][]byte           // all the messages
	for round := range c.Rounds {
		cl, sv := a, b
		if c.Swap && round%2 == 1 {
			cl, sv = b, a
		}
		sent0, arr0 := len(w.net.SentCopy()), len(w.net.ArrivedCopy())
		ev0 := []int{len(a.Events()), len(b.Events())}
		l := w.MustConnect(cl, sv, false)
		if l == nil {
			return
		}
		w.Sleep(lat + time.Millisecond)
		chs := []*tru.Channel{a.ChannelTo(b.Addr()), b.ChannelTo(a.Addr())}
		if chs[0] == nil || chs[1] == nil {
			e.Failf("connect", "round %d: a node does not list its channel", round)
			return
		}
		copies := map[string]int{}
		prev := map[string][]byte{}
		w.net.SetPolicy(func(d *Datagram) Fate {
			f := Fate{Delays: []time.Duration{lat}}
			if !isData(d.Hdr.Status) {
				return f
			}
			dir := 0
			if d.From == b.Addr() {
				dir = 1
			}
			ck := fmt.Sprint(dir, d.Hdr.ID)
			n := copies[ck]
			copies[ck]++
			other := prev[d.From]
			prev[d.From] = d.Data
			if len(d.Data)-4 <= 64 {
				return f
			}
			for _, t := range c.Tamper {
				if t.Dir == dir && uint32(t.Nth) == d.Hdr.ID && t.Copy == n {
					x := alter(d.Data, t, other)
					if bytes.Equal(x, d.Data) {
						continue
					}
					tampered++
					if t.Also {
						w.net.inject(nil, d.From, d.To, x)
					} else {
						f.Alter = func([]byte) []byte { return x }
					}
					break
				}
			}
			return f
		})
		var wg sync.WaitGroup
		var sent [2][][]byte
		for side := range 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, m := range c.Msgs {
					if m.Side != side {
						continue
					}
					time.Sleep(time.Duration(m.WaitU) * time.Microsecond)
					x := text(c.Seed, m.Text, m.Size)
					if _, err := chs[side].WriteTo(append([]byte{}, x...)); err != nil {
						e.Failf("send", "round %d: a message could not be sent: %v", round, err)
						return
					}
					sent[side] = append(sent[side], x)
				}
			}()
		}
		wg.Wait()
		w.Sleep(12*time.Second + 8*lat)
		w.net.SetPolicy(nil)
		// what was delivered
		for side, n := range nodes {
			var got [][]byte
			for _, ev := range n.Events()[ev0[side]:] {
				switch ev.Kind {
				case "msg":
					got = append(got, ev.Data)
				case "err":
					e.Failf("ended", "round %d: the channel ended: %v", round, ev.Err)
				}
			}
			if k, dt := prefixOf(got, sent[1-side], true); k != "" {
				e.Failf(k, "round %d, %s: %s (%d packets were altered)", round, n.Name, dt, tampered)
			}
		}
		plain = append(append(plain, sent[0]...), sent[1]...)
		// what was acknowledged
		sentLog, arr := w.net.SentCopy()[sent0:], w.net.ArrivedCopy()[arr0:]
		acked := map[string]int{}
		for _, d := range sentLog {
			if d.Hdr.Status != stAck {
				continue
			}
			k := fmt.Sprint(d.From, d.Hdr.ID)
			acked[k]++
			n := 0
			for _, x := range arr {
				if x.To == d.From && isData(parseHdr(x.Data).Status) && parseHdr(x.Data).ID == d.Hdr.ID && x.D != nil && bytes.Equal(x.Data, x.D.Data) && !x.T.After(d.T) {
					n++
				}
			}
			if acked[k] > n {
				e.Failf("acked", "round %d: %s acknowledged packet %d for the %d. time when it had received it %d times unaltered", round, d.From, d.Hdr.ID, acked[k], n)
			}
		}
		// equal messages in different packets
		for side, n := range nodes {
			i := 0
			var parts []byte
			lastID := -1
			for _, d := range sentLog {
				if d.From != n.Addr() || !isData(d.Hdr.Status) || int(d.Hdr.ID) != lastID+1 {
					continue
				}
				lastID++
				parts = append(parts, d.Data[4:]...)
				if d.Hdr.Status == stDataNext {
					continue
				}
				if i < len(sent[side]) && len(sent[side][i]) >= 8 {
					k := fmt.Sprint(side, string(sent[side][i]))
					for _, o := range seen[k] {
						if sameText(o.data, parts) {
							e.Failf("equal", "%s sent a message of %d bytes on connections %d and %d: the packets look the same", n.Name, len(sent[side][i]), o.round, round)
						}
					}
					seen[k] = append(seen[k], first{round, parts})
				}
				parts = nil
				i++
			}
		}
		// data before the key
		agreed := false
		for _, d := range sentLog {
			if d.Hdr.Status == stClientAnswer {
				agreed = true
			}
			if isData(d.Hdr.Status) && !agreed {
				e.Failf("early", "round %d: data was sent before the session key", round)
			}
		}
		if round < c.Rounds-1 {
			chs[round%2].Close()
			w.Sleep(10*time.Millisecond + 2*lat)
		}
	}
	// connections to a reference server, which gets to know the keys
	p := w.Peer(20, 9000)
	keys := map[string]bool{}
	for i := range c.Peers {
		ch, err := a.Tru.Connect(p.Address())
		if err != nil {
			e.Failf("connect", "connecting to a reference server: %v", err)
			return
		}
		w.Settle()
		s := p.Session(a.Addr())
		if keys[string(s.Key)] {
			e.Failf("key", "the session key of connection %d was used before", i)
		}
		if len(s.Key) < 16 || bytes.Count(s.Key, s.Key[:1]) == len(s.Key) {
			e.Failf("key", "session key %x", s.Key)
		}
		keys[string(s.Key)] = true
		for _, m := range c.Msgs {
			x := text(c.Seed, m.Text, min(m.Size, 300))
			if _, err := ch.WriteTo(x); err != nil {
				e.Failf("send", "sending to a reference server: %v", err)
				return
			}
			plain = append(plain, x)
		}
		w.Sleep(time.Second + 4*lat)
		if len(s.Received()) != len(c.Msgs) {
			e.Failf("missing", "a reference server received %d of %d messages", len(s.Received()), len(c.Msgs))
		}
		ch.Close()
		w.Sleep(10*time.Millisecond + 2*lat)
	}
	// connections in quick succession
	if len(c.Burst) > 0 {
		n, port := a, 9100
		var wg sync.WaitGroup
		var peers []*Peer
		var from []string
		for _, d := range c.Burst {
			time.Sleep(time.Duration(d.WaitU) * time.Microsecond)
			if d.Fresh {
				n = w.Node()
			}
			q := w.Peer(20, port)
			port++
			peers, from = append(peers, q), append(from, n.Addr())
			wg.Add(1)
			dial := func() {
				defer wg.Done()
				ch, err := n.Tru.Connect(q.Address())
				if err != nil {
					e.Failf("connect", "connecting to a reference server: %v", err)
					return
				}
				ch.WriteTo([]byte("the same first message"))
			}
			if d.Hold {
				go dial()
				w.Settle()
			} else {
				dial()
			}
		}
		wg.Wait()
		w.Sleep(10*time.Millisecond + 2*lat)
		if e.Failed() {
			return
		}
		look := map[string]int{}
		for i, q := range peers {
			s := q.Session(from[i])
			if s == nil || len(s.Key) == 0 {
				e.Failf("connect", "a reference server has no session")
				return
			}
			if keys[string(s.Key)] {
				e.Failf("key", "the session key of connection %d in quick succession was used before", i)
			}
			keys[string(s.Key)] = true
			for _, d := range w.net.SentCopy() {
				if d.From == from[i] && d.To == q.Address() && isData(d.Hdr.Status) && d.Hdr.ID == 0 && d.Copy == 0 {
					if j, ok := look[string(d.Data)]; ok {
						e.Failf("equal", "equal first messages on connections %d and %d: the packets look the same", j, i)
					}
					look[string(d.Data)] = i
				}
			}
		}
	}
	if os.Getenv("VERIF_KEYOUT") != "" {
		for k := range keys {
			e.Class("key %x", k)
		}
	}
	// a reference client sends data before it has told the key
	if len(c.Early) > 0 {
		q := w.Peer(30, 9000)
		hold := true
		var answer *PeerPacket
		q.OnPacket = func(pk PeerPacket) bool {
			if hold && pk.Hdr.Status == stServerAnswer {
				answer = &pk
				return true
			}
			return false
		}
		ev0 := len(a.Events())
		early := func(stage int) {
			for _, d := range c.Early {
				if d.Stage != stage {
					continue
				}
				body := append([]byte("early"), rnd(d.ID, d.Size)...)
				switch d.Key {
				case "zero":
					body = sealData(make([]byte, 32), uint32(d.ID), body)
				case "empty":
					body = sealData(nil, uint32(d.ID), body)
				case "right":
					for _, s := range q.Pend {
						body = sealData(s.Key, uint32(d.ID), body)
					}
				}
				q.Send(a.Addr(), stData, uint32(d.ID), body)
			}
			w.Sleep(20*time.Millisecond + 3*lat)
		}
		early(0)
		s := q.StartDial(a.Addr())
		w.Sleep(20*time.Millisecond + 3*lat)
		early(1)
		for _, ev := range a.Events()[ev0:] {
			e.Failf("early", "a client which has not told the session key yet caused an event: %s %s %v", ev.Kind, brief(ev.Data), ev.Err)
		}
		if l := q.Packets(func(pk PeerPacket) bool { return pk.Hdr.Status != stServerAnswer }); len(l) > 0 {
			e.Failf("early", "a client which has not told the session key yet got a packet of status %d, number %d", l[0].Hdr.Status, l[0].Hdr.ID)
		}
		if answer == nil {
			e.Failf("connect", "a connect packet was not answered")
			return
		}
		hold = false
		q.answerServer(*answer)
		w.Sleep(20*time.Millisecond + 3*lat)
		if !s.Done {
			e.Failf("connect", "a reference client could not connect")
			return
		}
		for i := range 3 {
			s.Message([]byte(fmt.Sprint("after ", i)), 0)
		}
		w.Sleep(20*time.Millisecond + 3*lat)
		var got []string
		for _, ev := range a.Events()[ev0:] {
			if ev.Kind == "msg" {
				got = append(got, string(ev.Data))
			}
		}
		if fmt.Sprint(got) != "[after 0 after 1 after 2]" {
			e.Failf("early", "after data before the session key a client's messages arrived as %q", got)
		}
		keys[string(s.Key)] = true
	}
	// search the whole capture
	index := map[uint64]bool{}
	exp, hits, shorts := 0.0, 0, 0
	for _, m := range plain {
		for i := 0; i+8 <= len(m); i++ {
			index[binary.LittleEndian.Uint64(m[i:])] = true
		}
	}
	var forms [][]byte
	pieces := map[uint64]bool{} // of session keys
	for k := range keys {
		kb := []byte(k)
		for i := 0; i+8 <= len(kb); i++ {
			pieces[binary.LittleEndian.Uint64(kb[i:])] = true
		}
		hx, b64 := hex.EncodeToString(kb), base64.StdEncoding.EncodeToString(kb)
		forms = append(forms, []byte(hx)[:20], []byte(hx)[len(hx)-20:], []byte(b64)[:20])
	}
	bytesSeen := 0
	for _, d := range w.net.SentCopy() {
		if d.From == key(nodeIP(30), 9000) {
			continue // what the harness itself sent
		}
		for _, f := range forms {
			if bytes.Contains(d.Data, f) {
				e.Failf("key", "the session key is in a datagram of status %d", d.Hdr.Status)
			}
		}
		for i := 0; len(pieces) > 0 && i+8 <= len(d.Data); i++ {
			if pieces[binary.LittleEndian.Uint64(d.Data[i:])] {
				e.Failf("key", "8 bytes of the session key are in a datagram of status %d and %d bytes", d.Hdr.Status, len(d.Data))
				break
			}
		}
		if classOf(d.Hdr.Status) == "handshake" {
			continue
		}
		bytesSeen += len(d.Data)
		x := d.Data[4:]
		for i := 0; i+8 <= len(x); i++ {
			if index[binary.LittleEndian.Uint64(x[i:])] {
				e.Failf("clear", "8 bytes of a message are in clear in a packet of status %d and %d bytes", d.Hdr.Status, len(x))
				break
			}
		}
	}
	// short messages: some are equal to their cipher text by chance
	count := map[string]bool{}
	for _, m := range plain {
		if len(m) < 8 && len(m) > 0 {
			count[string(m)] = true
		}
	}
	for _, d := range w.net.SentCopy() {
		if isData(d.Hdr.Status) && d.Copy == 0 && len(d.Data) > 5 && len(d.Data) < 12 && d.From != key(nodeIP(30), 9000) {
			shorts++
			exp += float64(len(count)) / float64(uint64(1)<<(8*(len(d.Data)-4)))
			if count[string(d.Data[4:])] {
				hits++
			}
		}
	}
	if shorts >= 3 && hits*2 > shorts && float64(hits) > 3+8*exp {
		e.Failf("clear", "%d of %d short messages are in clear", hits, shorts)
	}
	e.ClassIf(tampered > 0, "packets altered")
	e.ClassIf(c.Rounds > 1, "several connections")
	e.ClassIf(len(c.Early) > 0, "data before the key")
	e.ClassIf(c.Peers > 0, "reference server")
	e.ClassIf(len(c.Burst) > 1, "connections in quick succession")
	repeat := map[string]int{}
	for _, m := range plain {
		repeat[string(m)]++
		switch n := len(m); {
		case n > 64:
			e.Class("message > 64")
		case n >= 8:
			e.Class("message 8..64")
		default:
			e.Class("message < 8")
		}
	}
	for m, n := range repeat {
		e.ClassIf(n > 1 && len(m) >= 8, "equal messages")
	}
	if bytesSeen > 40 || tampered > 0 {
		e.NonTrivial()
	}
}

// sameText tells whether two payloads show that they carry equal messages:
// equal, or equal over 8 bytes at the same place behind the nonce
func sameText(x, y []byte) bool {
	if bytes.Equal(x, y) {
		return true
	}
	from := 0
	if len(x) > 64 {
		from = 12
	}
	for i := from; i+8 <= min(len(x), len(y)); i++ {
		if bytes.Equal(x[i:i+8], y[i:i+8]) {
			return true
		}
	}
	return false
}

// ReflectCase is the listed finding: both directions use one key, so that a
// packet is taken for the packet with the same number of the other direction
type ReflectCase struct {
	Reflect int `json:"reflect"` // size of the message
}

func runReflect(e *Env, c ReflectCase) {
	w := NewWorld(e, time.Millisecond)
	a, b := w.Node(), w.Node()
	l := w.MustConnect(a, b, false)
	if l == nil {
		return
	}
	w.Sleep(10 * time.Millisecond)
	msg := text(1, 0, c.Reflect)
	if _, err := l.CA.WriteTo(msg); err != nil {
		e.Failf("send", "%v", err)
		return
	}
	w.Settle()
	for _, d := range w.net.SentCopy() {
		if d.From == a.Addr() && isData(d.Hdr.Status) {
			w.net.Inject(nil, b.Addr(), a.Addr(), d.Data)
		}
	}
	w.Sleep(time.Second)
	for _, ev := range a.Msgs(l.CA) {
		if bytes.Equal(ev.Data, msg) {
			e.Known("F20", "a packet of %d bytes sent back to its sender in the name of the peer was delivered", len(msg))
		} else {
			e.Failf("corrupt", "a reflected packet was delivered as %s", brief(ev.Data))
		}
	}
	e.NonTrivial()
	e.Class("reflection")
}

// ForkCase makes connections in several processes: keys must not depend on how
// often a process has made one
type ForkCase struct {
	Fork int `json:"fork"` // number of processes
}

func runFork(e *Env, c ForkCase) {
	exe, err := os.Executable()
	if err != nil {
		panic(harnessBug(fmt.Sprintf("%v", err)))
	}
	seen := map[string]int{}
	for i := range c.Fork {
		r, wr, err := os.Pipe()
		if err != nil {
			panic(harnessBug(fmt.Sprintf("%v", err)))
		}
		cmd := exec.Command(exe, "-test.run", "^TestChild$")
		cmd.Env = append(os.Environ(), "VERIF_ROLE=child", "VERIF_KEYOUT=1")
		sc, _ := json.Marshal(SecretCase{Rounds: 1, Peers: 3, Seed: uint64(i)})
		req, _ := json.Marshal(Request{Prop: "C11", Scenario: sc})
		cmd.Stdin = bytes.NewReader(append(req, '\n'))
		cmd.ExtraFiles = []*os.File{wr}
		if err := cmd.Start(); err != nil {
			panic(harnessBug(fmt.Sprintf("%v", err)))
		}
		wr.Close()
		out, _ := io.ReadAll(r)
		r.Close()
		cmd.Wait()
		var res Result
		if err := json.Unmarshal(out, &res); err != nil {
			panic(harnessBug(fmt.Sprintf("child: %v: %s", err, out)))
		}
		if res.Kind != "" {
			e.Failf(res.Kind, "%s", res.Detail)
			return
		}
		n := 0
		for _, k := range res.Classes {
			if !strings.HasPrefix(k, "key ") {
				continue
			}
			n++
			if j, ok := seen[k]; ok {
				e.Failf("key", "processes %d and %d made the same session key", j, i)
			}
			seen[k] = i
		}
		if n == 0 && res.Error == "" {
			panic(harnessBug("no keys"))
		}
	}
	e.NonTrivial()
	e.Class("several processes")
}

// KeysCase makes many connections and compares their session keys
type KeysCase struct {
	Keys int `json:"keys"`
}

func runKeys(e *Env, c KeysCase) {
	w := NewWorld(e, 0)
	p := w.Peer(20, 9000)
	nodes := []*Node{w.Node(), w.Node(), w.Node()}
	seen, bits := map[string]int{}, [256]int{}
	for i := range c.Keys {
		n := nodes[i%len(nodes)]
		w.Sleep(time.Duration(1+i%7) * 100 * time.Microsecond)
		ch, err := n.Tru.Connect(p.Address())
		if err != nil {
			e.Failf("connect", "connecting to a reference server: %v", err)
			return
		}
		s := p.Session(n.Addr())
		if j, ok := seen[string(s.Key)]; ok {
			e.Failf("key", "connections %d and %d have the same session key", j, i)
			return
		}
		seen[string(s.Key)] = i
		for b := range min(len(s.Key)*8, len(bits)) {
			bits[b] += int(s.Key[b/8] >> (b % 8) & 1)
		}
		ch.Close()
		w.Sleep(time.Millisecond)
	}
	vary := 0
	for _, n := range bits {
		if n > c.Keys/10 && n < c.Keys-c.Keys/10 {
			vary++
		}
	}
	if vary < 64 {
		e.Failf("key", "only %d bits of the session keys of %d connections vary", vary, c.Keys)
	}
	e.NonTrivial()
	e.Class("many keys")
}

// FarCase sends equal messages in many packets
type FarCase struct {
	Far int `json:"far"`
}

func runFar(e *Env, c FarCase) {
	w, _, p, _, ch := peerAndNode(e, 0, false)
	if ch == nil {
		return
	}
	w.net.mu.Lock()
	w.net.noCap = true
	w.net.mu.Unlock()
	sizes := []int{12, 18, 30, 60}
	look := make(map[[12]byte]int, c.Far)
	next := 0
	p.mu.Lock()
	p.AutoAck = false
	p.OnPacket = func(pk PeerPacket) bool {
		p.mu.Lock()
		p.Log = p.Log[:0]
		p.mu.Unlock()
		if !isData(pk.Hdr.Status) {
			return false
		}
		p.Send(pk.From, stAck, pk.Hdr.ID, nil)
		if int(pk.Hdr.ID) != next {
			return true
		}
		size := sizes[next%len(sizes)]
		if !bytes.Equal(pk.Plain, text(7, 0, size)) {
			e.Failf("content", "packet %d does not carry the message", next)
		} else {
			k := [12]byte(pk.Body)
			if j, ok := look[k]; ok {
				e.Failf("equal", "packets %d and %d carry equal messages and look the same", j, next)
			}
			look[k] = next
		}
		next++
		return true
	}
	p.mu.Unlock()
	for i := 0; i < c.Far && !e.Failed(); i++ {
		if _, err := ch.WriteTo(text(7, 0, sizes[i%len(sizes)])); err != nil {
			e.Failf("send", "message %d: %v", i, err)
			return
		}
		if i%256 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	w.Sleep(5 * time.Second)
	if next != c.Far && !e.Failed() {
		e.Failf("missing", "%d of %d messages arrived", next, c.Far)
	}
	e.NonTrivial()
	e.Class("many equal messages")
}

func init() {
	register(&Spec{
		ID:       "C11",
		CPULimit: 400, WallLimit: 600,
		Fixed: func(tier Tier) []any {
			n, far := 1500, 70_000
			if tier == Thorough {
				n, far = 20_000, 1_000_000
			}
			return []any{ReflectCase{100}, ReflectCase{1000}, ForkCase{3}, KeysCase{n}, FarCase{far}}
		},
		Rule: "Two nodes connect 1-3 times and exchange messages, many of them equal; packets of more than 64 bytes are altered on the way (bits, pieces, number, content of another packet, length), instead of or before the original. The same node connects to a reference server, which learns the session keys, several times in quick succession too, 1500 times (20000 thorough), and sends one 70000 equal messages (1000000 thorough), and so do several processes, and a reference client sends it data before it tells the key. " +
			"Everything is delivered as sent, nothing altered is acknowledged, nothing early has any effect; the capture holds no 8 bytes of a message, no session key, no two equal-looking packets of equal messages. Non-trivial: more than 40 bytes on the wire or a packet altered.",
		Cases: map[Tier]int{Quick: 3500, Thorough: 70000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := SecretCase{LatU: rapid.SampledFrom([]int{0, 300, 20_000}).Draw(rt, "lat"), Max: rapid.SampledFrom([]int{0, 0, 64, 100, 500}).Draw(rt, "max"),
				Rounds: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "rounds"), Swap: rapid.Bool().Draw(rt, "swap"),
				Seed: uint64(rapid.IntRange(0, 1000).Draw(rt, "seed"))}
			sizes := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 100), rapid.IntRange(60, 70), rapid.IntRange(65, 1500), rapid.SampledFrom([]int{64, 65, 16, 17, 20, 21, 32, 33, 5000}))
			same := rapid.SliceOfN(sizes, 1, 3).Draw(rt, "same")
			for i := rapid.IntRange(1, 16).Draw(rt, "msgs"); i > 0; i-- {
				m := SMsg{Side: rapid.IntRange(0, 1).Draw(rt, "side"), Text: rapid.IntRange(0, 2).Draw(rt, "text"), WaitU: rapid.SampledFrom([]int{0, 0, 200, 30_000}).Draw(rt, "wait")}
				if rapid.Bool().Draw(rt, "again") {
					m.Size = rapid.SampledFrom(same).Draw(rt, "size")
				} else {
					m.Size = sizes.Draw(rt, "size")
				}
				c.Msgs = append(c.Msgs, m)
			}
			if rapid.IntRange(0, 3).Draw(rt, "tampering") > 0 {
				for i := rapid.IntRange(1, 8).Draw(rt, "ntamper"); i > 0; i-- {
					c.Tamper = append(c.Tamper, Tamper{Dir: rapid.IntRange(0, 1).Draw(rt, "tdir"), Nth: rapid.IntRange(0, 12).Draw(rt, "nth"), Copy: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "copy"),
						Op: rapid.IntRange(0, 7).Draw(rt, "op"), Pos: rapid.IntRange(0, 1500).Draw(rt, "pos"), Val: rapid.IntRange(0, 255).Draw(rt, "val"), Also: rapid.Bool().Draw(rt, "also")})
				}
			}
			c.Peers = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "peers")
			if rapid.IntRange(0, 2).Draw(rt, "bursting") == 2 {
				wait := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 2000), rapid.IntRange(0, 400_000))
				for i := rapid.IntRange(2, 6).Draw(rt, "burst"); i > 0; i-- {
					c.Burst = append(c.Burst, Dial{WaitU: 1 + wait.Draw(rt, "bwait"), Fresh: rapid.Bool().Draw(rt, "fresh"), Hold: rapid.Bool().Draw(rt, "hold")})
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "early") == 0 {
				for i := rapid.IntRange(1, 5).Draw(rt, "nearly"); i > 0; i-- {
					c.Early = append(c.Early, EarlyData{Size: rapid.SampledFrom([]int{0, 10, 60, 100}).Draw(rt, "esize"), ID: rapid.IntRange(0, 3).Draw(rt, "eid"),
						Key: rapid.SampledFrom([]string{"none", "zero", "empty", "right"}).Draw(rt, "ekey"), Stage: rapid.IntRange(0, 1).Draw(rt, "stage")})
				}
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) {
			if r := decode[ForkCase](raw); r.Fork > 0 {
				runFork(e, r)
				return
			}
			if r := decode[KeysCase](raw); r.Keys > 0 {
				runKeys(e, r)
				return
			}
			if r := decode[FarCase](raw); r.Far > 0 {
				runFar(e, r)
				return
			}
			if r := decode[ReflectCase](raw); r.Reflect > 0 {
				runReflect(e, r)
				return
			}
			runSecret(e, decode[SecretCase](raw))
		},
	})
}
