package harness

// C10: arbitrary datagrams.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/teonet-go/tru"
	"pgregory.net/rapid"
)

// Junk is a datagram from nowhere good
type Junk struct {
	AtMs int    `json:"at"`
	Src  string `json:"src"`
	Form string `json:"form"`
	St   int    `json:"st"`
	ID   int    `json:"id"`
	Len  int    `json:"len"`
	Body string `json:"body"` // how the content is made
	Seed int    `json:"seed"`
	N    int    `json:"n"`
	Muts []Mut  `json:"muts,omitempty"`
}

// KeyDial is a handshake of a stranger which is correct but for the session key
type KeyDial struct {
	AtMs int    `json:"at"`
	Key  string `json:"key"` // none, empty, random, short, cut, half: not a key; byte, long: a key of an odd size
	UUID string `json:"uuid"`
	Data int    `json:"data"` // then so many packets, in clear
}

// Mut alters a captured datagram
type Mut struct {
	Op  int `json:"op"`
	Pos int `json:"pos"`
	Val int `json:"val"`
}

// JunkCase is the scenario
type JunkCase struct {
	LatU  int       `json:"lat"`
	Junk  []Junk    `json:"junk"`
	Evil  []Junk    `json:"evil"`  // sent by a connected reference peer, its session key known
	Serve []int     `json:"serve"` // how reference servers answer connects of the node
	Conn  []int     `json:"conn"`  // when other nodes connect, ms
	Dial  []KeyDial `json:"dial,omitempty"`
}

var ecPub = sync.OnceValue(func() []byte {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	der, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})
})

func oddPub(kind int) []byte {
	n := new(big.Int).Lsh(big.NewInt(1), 1023)
	switch kind % 6 {
	case 0:
		return ecPub()
	case 1: // tiny
		return encodePub(&rsa.PublicKey{N: big.NewInt(3233), E: 17})
	case 2: // exponent 1
		return encodePub(&rsa.PublicKey{N: n.Add(n, big.NewInt(1)), E: 1})
	case 3: // even modulus
		return encodePub(&rsa.PublicKey{N: n, E: 65537})
	case 4: // 256 bit
		return encodePub(&rsa.PublicKey{N: new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(987)), E: 3})
	}
	b := encodePub(&peerKey().PublicKey)
	return b[:len(b)/2]
}

func rnd(seed, n int) []byte {
	r := rand.New(rand.NewPCG(uint64(seed), 77))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// junkBody makes the content of a structured datagram
func junkBody(j Junk, uuids []string, known *Sess) []byte {
	uuid := newUUID()
	if j.Body == "sealed" { // a good session key for a connection nobody opened
		uuid = []string{"", "x", strings.Repeat("y", 255), uuid}[j.Seed%4]
		c, err := rsaSeal(known.Pub, rnd(j.Seed, []int{32, 1, 16, 60}[j.Seed/4%4]))
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		return handshakeBody(uuid, c)
	}
	if len(uuids) > 0 && j.Seed%3 == 0 {
		uuid = uuids[j.Seed%len(uuids)]
	}
	switch j.Body {
	case "empty":
		return nil
	case "zeros":
		return make([]byte, j.Len)
	case "random":
		return rnd(j.Seed, j.Len)
	case "short-uuid": // the length says more than there is
		return append([]byte{byte(j.Seed)}, rnd(j.Seed, j.Len%40)...)
	case "uuid":
		return handshakeBody(uuid, nil)
	case "uuid-random":
		return handshakeBody(uuid, rnd(j.Seed, j.Len))
	case "uuid-blocks":
		return handshakeBody(uuid, rnd(j.Seed, 128*(j.Len%6)))
	case "key":
		return handshakeBody(uuid, encodePub(&peerKey().PublicKey))
	case "odd-key":
		return handshakeBody(uuid, oddPub(j.Seed))
	case "bad-key":
		return handshakeBody(uuid, pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: rnd(j.Seed, j.Len%500)}))
	case "long-uuid":
		return handshakeBody(strings.Repeat("u", 1+j.Seed%255), encodePub(&peerKey().PublicKey))
	case "odd-uuid":
		u := []string{"", "\x00", string(make([]byte, 36)), string(rnd(j.Seed, j.Seed%256)), "%s%n%d", uuid + " " + uuid, strings.ToUpper(uuid)}
		return handshakeBody(u[j.Seed%len(u)], encodePub(&peerKey().PublicKey))
	}
	return nil
}

var junkBodies = []string{"empty", "zeros", "random", "random", "short-uuid", "uuid", "uuid-random", "uuid-blocks", "key", "odd-key", "bad-key", "long-uuid", "sealed", "sealed", "odd-uuid", "odd-uuid"}

func mutate(b []byte, muts []Mut, other []byte) []byte {
	b = append([]byte{}, b...)
	for _, m := range muts {
		p := 0
		if len(b) > 0 {
			p = m.Pos % len(b)
		}
		switch m.Op {
		case 0:
			if len(b) > 0 {
				b[p] ^= 1 << (m.Val % 8)
			}
		case 1:
			if len(b) > 0 {
				b[p] = byte(m.Val)
			}
		case 2:
			b = b[:p]
		case 3:
			b = append(b, rnd(m.Val, m.Val%200)...)
		case 4: // cut a piece
			q := min(len(b), p+m.Val%20)
			b = append(b[:p:p], b[q:]...)
		case 5: // splice
			if len(other) > 0 {
				b = append(b[:p:p], other[m.Val%len(other):]...)
			}
		case 6: // status
			if len(b) >= 4 {
				b[3] = byte(m.Val)
			}
		case 7: // number
			if len(b) >= 4 {
				v := binary.LittleEndian.Uint32(b)
				binary.LittleEndian.PutUint32(b, v&^(idLimit-1)|uint32(m.Val)&(idLimit-1))
			}
		}
	}
	return b
}

// harmful tells whether a datagram in the name of the peer itself may rightly
// affect its channel (there is nothing that authenticates it)
func harmful(b []byte) bool {
	h := parseHdr(b)
	if !h.OK {
		return false
	}
	switch h.Status {
	case stDisconnect, stAck:
		return true
	case stData, stDataNext:
		return len(b)-4 <= 64
	}
	return false
}

func runJunk(e *Env, c JunkCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	a, b := w.Node(), w.Node() // a is shot at
	l := w.MustConnect(b, a, true)
	if l == nil {
		return
	}
	evil := w.Peer(20, 9000)
	es, err := evil.Dial(a.Addr())
	if err != nil {
		e.Failf("connect", "a reference client could not connect: %v", err)
		return
	}
	zero := time.Now()
	okFrom := map[string]bool{b.Addr(): true, evil.Address(): true}
	span := 0
	for _, j := range append(append([]Junk{}, c.Junk...), c.Evil...) {
		span = max(span, j.AtMs)
	}
	for _, t := range c.Conn {
		span = max(span, t)
	}
	for _, d := range c.Dial {
		span = max(span, d.AtMs+100)
	}
	var wg sync.WaitGroup
	// traffic all the time
	var sent [2][]string
	chs := [2]*tru.Channel{l.CA, l.CB}
	for side := range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Since(zero) < time.Duration(span+500)*time.Millisecond; i++ {
				msg := fmt.Sprintf("good-%d-%d", side, i) + strings.Repeat("*", []int{0, 80, 3000}[i%3])
				if _, err := chs[side].WriteTo([]byte(msg)); err != nil {
					e.Failf("disturbed", "a channel with another peer ended: %v", err)
					return
				}
				sent[side] = append(sent[side], msg)
				time.Sleep(90 * time.Millisecond)
			}
		}()
	}
	// nodes which connect meanwhile
	var mu sync.Mutex
	var newcomers []*Node
	for i := range c.Conn {
		n, err := w.TryNode(30+i, 7000)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		okFrom[n.Addr()] = true
		newcomers = append(newcomers, n)
	}
	join := func(n *Node, what string) {
		ch, err := n.Tru.Connect(a.Addr())
		if err != nil {
			e.Failf("refused", "%s a node could not connect: %v", what, err)
			return
		}
		if _, err = ch.WriteTo([]byte("hello from " + n.Name)); err != nil {
			e.Failf("refused", "%s a node connected and could not send: %v", what, err)
			return
		}
		time.Sleep(lat + 100*time.Millisecond)
		if len(a.Select(func(ev Event) bool { return ev.Kind == "msg" && string(ev.Data) == "hello from "+n.Name })) != 1 {
			e.Failf("refused", "%s a node connected, its message did not arrive", what)
		}
	}
	for i, t := range c.Conn {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(t) * time.Millisecond)
			join(newcomers[i], "during the storm")
		}()
	}
	// servers which answer the node's own connects in odd ways
	for i, kind := range c.Serve {
		p := w.Peer(50+i, 9000)
		p.AutoAccept = false
		p.OnPacket = func(pk PeerPacket) bool {
			uuid, content, err := parseHandshake(pk.Body)
			if err != nil {
				return true
			}
			switch pk.Hdr.Status {
			case stConnect:
				pub, err := decodePub(content)
				if err != nil {
					return true
				}
				seal := func(x []byte) []byte { c, _ := rsaSeal(pub, x); return c }
				good := seal(encodePub(&peerKey().PublicKey))
				answer := func(x []byte) { p.Send(pk.From, stServerAnswer, 0, handshakeBody(uuid, x)) }
				switch kind % 10 {
				case 0:
					answer(rnd(kind, 640))
				case 1:
					answer(seal([]byte("this is not a key")))
				case 2:
					answer(seal(ecPub()))
				case 3:
					answer(seal(oddPub(kind / 10)))
				case 4:
					answer(nil)
				case 5: // done at once
					p.Send(pk.From, stConnectDone, 0, handshakeBody(uuid, nil))
				case 6:
					answer(good[:len(good)-1])
				case 7: // answers twice, with another key the second time, never done
					answer(good)
					answer(seal(oddPub(kind / 10)))
				case 8: // for somebody else
					p.Send(pk.From, stServerAnswer, 0, handshakeBody(newUUID(), good))
					p.Send(pk.From, stConnectDone, 0, handshakeBody(newUUID(), nil))
				case 9: // echoes
					p.Send(pk.From, stConnect, 0, pk.Body)
					p.Send(pk.From, stClientAnswer, 0, pk.Body)
				}
			}
			return true
		}
		okFrom[p.Address()] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			ch, err := a.Tru.Connect(p.Address())
			if err == nil || ch != nil {
				e.Failf("connected", "connecting to a server which answers nonsense (%d) succeeded: %v", kind, err)
			} else if d := time.Since(t); d > 5200*time.Millisecond {
				e.Failf("slow", "connecting to a server which answers nonsense (%d) took %v", kind, d)
			}
		}()
	}
	// strangers who send no session key
	for i, d := range c.Dial {
		p := w.Peer(70+i, 9000)
		p.OnPacket = func(pk PeerPacket) bool {
			if pk.Hdr.Status != stServerAnswer {
				return false
			}
			uuid, content, err := parseHandshake(pk.Body)
			if err != nil {
				return true
			}
			text, err := rsaOpen(p.key, content)
			if err != nil {
				return true
			}
			pub, err := decodePub(text)
			if err != nil {
				return true
			}
			seal := func(b []byte) []byte { c, _ := rsaSeal(pub, b); return c }
			var body []byte
			switch d.Key {
			case "none":
			case "empty": // one block with nothing inside
				c, err := rsa.EncryptOAEP(sha256.New(), crand.Reader, pub, nil, nil)
				if err != nil {
					panic(harnessBug(err.Error()))
				}
				body = c
			case "random":
				body = rnd(i, 128)
			case "short":
				body = rnd(i, 127)
			case "cut":
				body = seal(rnd(i, 32))[:100]
			case "half":
				body = seal(rnd(i, 100))[:192]
			case "byte":
				body = seal([]byte{7})
			case "long":
				body = seal(rnd(i, 1000))
			}
			p.Send(pk.From, stClientAnswer, 0, handshakeBody(uuid, body))
			for k := 0; k < d.Data; k++ {
				p.Send(pk.From, stData, uint32(k), []byte(strings.Repeat("clear", 1+k%30)))
			}
			return true
		}
		if d.Key == "byte" || d.Key == "long" {
			okFrom[p.Address()] = true
		}
		time.AfterFunc(time.Duration(d.AtMs)*time.Millisecond, func() { p.startDial(a.Addr(), d.UUID) })
	}
	// the storm
	var uuids []string
	srcOf := func(s string, i int) string {
		switch s {
		case "peer":
			return b.Addr()
		case "evil":
			return evil.Address()
		case "neighbour": // of the peer
			return key(b.IP, b.Port+1000+i%3)
		case "self":
			return a.Addr()
		case "six":
			return fmt.Sprintf("[2001:db8::%x]:%d", i%5+1, 4000+i%7)
		}
		return key(nodeIP(100+i%9), 5000+i%5)
	}
	shot, spoofed, copied := 0, 0, map[string]bool{}
	begun := map[string]bool{}
	used := func(uuid string) bool {
		for _, d := range w.net.SentCopy() {
			if d.Hdr.Status == stConnect && (d.From == a.Addr() || okFrom[d.From] && d.From != b.Addr() && d.From != evil.Address()) {
				if v, _, err := parseHandshake(d.Data[min(4, len(d.Data)):]); err == nil && v == uuid {
					return true
				}
			}
		}
		return false
	}
	fire := func(j Junk, i int) {
		for k := 0; k < max(j.N, 1); k++ {
			j.Seed += k
			var data []byte
			src := srcOf(j.Src, i+k)
			reflected := false // what the node itself sent has the right key
			switch j.Form {
			case "raw":
				data = rnd(j.Seed, j.Len)
			case "flood": // of connects which are not carried on
				src = key(nodeIP(120+k%50), 3000+k)
				data = encodePacket(stConnect, 0, handshakeBody(newUUID(), encodePub(&peerKey().PublicKey)))
			case "struct":
				data = encodePacket(j.St, uint32(j.ID), junkBody(j, uuids, es))
			default:
				// a mutation of what was seen on the network; at first of the
				// datagrams of this channel
				cap := w.net.SentCopy()
				d := cap[j.Seed%len(cap)]
				o := cap[(j.Seed*7+3)%len(cap)]
				data = mutate(d.Data, j.Muts, o.Data)
				reflected = d.From == a.Addr() || o.From == a.Addr()
			}
			if u, _, err := parseHandshake(data[min(4, len(data)):]); err == nil && len(u) == 36 {
				uuids = append(uuids, u)
			}
			if j.Src == "peer" && j.Form != "flood" {
				if harmful(data) || reflected && isData(parseHdr(data).Status) {
					continue
				}
				spoofed++
			}
			// a handshake is anybody's who knows its connection id: the ids
			// of the connects under way are not reused
			if h := parseHdr(data); h.OK && h.Status <= stConnectDone {
				if u, _, err := parseHandshake(data[4:]); err == nil {
					if used(u) {
						continue
					}
					// two pieces may happen to make a whole handshake
					if h.Status == stConnect {
						begun[src+" "+u] = true
					}
					if h.Status == stClientAnswer && begun[src+" "+u] {
						if okFrom[src] || src == a.Addr() {
							continue
						}
						copied[src] = true
					}
					if h.Status == stClientAnswer && j.Form == "mut" {
						// a copy of a whole handshake makes a peer of anyone
						if okFrom[src] || src == a.Addr() {
							continue
						}
						copied[src] = true
					}
				}
			}
			shot++
			w.net.Inject(nil, src, a.Addr(), data)
		}
	}
	for i, j := range c.Junk {
		time.AfterFunc(time.Duration(j.AtMs)*time.Millisecond, func() {
			mu.Lock()
			defer mu.Unlock()
			fire(j, i)
		})
	}
	for _, j := range c.Evil {
		time.AfterFunc(time.Duration(j.AtMs)*time.Millisecond, func() {
			for k := 0; k < max(j.N, 1); k++ {
				id := uint32(j.ID)
				if j.Form == "seq" {
					id += uint32(k)
				}
				body := rnd(j.Seed+k, j.Len)
				if isData(j.St) && j.Body != "random" {
					body = sealData(es.Key, id&(idLimit-1), append([]byte("evil"), body...))
				}
				evil.Send(a.Addr(), j.St, id, body)
			}
		})
	}
	w.Sleep(time.Duration(span+600)*time.Millisecond + 2*lat)
	wg.Wait()
	w.Sleep(time.Second)
	// afterwards
	last, err := w.TryNode(90, 7000)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	okFrom[last.Addr()] = true
	join(last, "after the storm")
	for _, st := range a.Tru.Statistic() {
		_ = st
	}
	w.Settle()
	for side, ch := range chs {
		if ch.Destroyed() {
			e.Failf("disturbed", "side %d of a channel which nothing touched is destroyed", side)
		}
		to := []*Node{b, a}[1-side]
		var got []string
		for _, ev := range to.Msgs(chs[1-side]) {
			got = append(got, string(ev.Data))
		}
		if len(got) != len(sent[side]) {
			e.Failf("disturbed", "%s received %d of %d messages of a channel which nothing touched", to.Name, len(got), len(sent[side]))
		}
		for i := range got {
			if i < len(sent[side]) && got[i] != sent[side][i] {
				e.Failf("disturbed", "%s: message %d is %q, sent %q", to.Name, i, short(got[i], 40), short(sent[side][i], 40))
				break
			}
		}
	}
	for _, ev := range a.Events() {
		if ev.Kind == "punch" {
			continue
		}
		if !okFrom[ev.Addr] && !copied[ev.Addr] {
			e.Failf("event", "an event from a stranger: %s %s %s %v", ev.Kind, ev.Addr, brief(ev.Data), ev.Err)
		}
		if ev.Kind == "msg" && ev.Addr == evil.Address() && len(c.Evil) == 0 {
			e.Failf("event", "a message in the name of a peer which sent nothing: %s", brief(ev.Data))
		}
		if ev.Kind == "msg" && bytes.HasPrefix(ev.Data, []byte("good-")) && ev.Ch != l.CB && !copied[ev.Addr] {
			e.Failf("event", "a message on a wrong channel")
		}
	}
	for _, n := range append(newcomers, b, last) {
		for _, ev := range n.Events() {
			if ev.Kind == "msg" && !bytes.HasPrefix(ev.Data, []byte("good-")) {
				e.Failf("event", "%s got a message nobody sent: %s", n.Name, brief(ev.Data))
			}
		}
	}
	e.ClassIf(spoofed > 0, "in the name of a peer")
	e.ClassIf(len(c.Evil) > 0, "from a connected peer")
	e.ClassIf(len(c.Serve) > 0, "from servers")
	for _, d := range c.Dial {
		e.Class("session key: %s", d.Key)
	}
	e.ClassIf(len(c.Conn) > 0, "others connect meanwhile")
	for _, j := range c.Junk {
		e.Class("form %s", j.Form)
		if j.Form == "struct" {
			e.Class("body %s", j.Body)
		}
	}
	if shot > 0 || len(c.Evil) > 0 || len(c.Serve) > 0 {
		e.NonTrivial()
	}
}

func drawStatus(rt *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 255), rapid.IntRange(0x80, 0x8a), rapid.IntRange(0, 3)).Draw(rt, "st")
}

var junkLens = rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 150), rapid.IntRange(0, 1500), rapid.IntRange(60, 100), rapid.SampledFrom([]int{65507, 128, 256, 640, 30_000}))

func drawJunk(rt *rapid.T, span int) (j Junk) {
	j.AtMs = rapid.IntRange(0, span).Draw(rt, "at")
	j.Src = rapid.SampledFrom([]string{"stranger", "stranger", "peer", "peer", "neighbour", "self", "six"}).Draw(rt, "src")
	j.Form = rapid.SampledFrom([]string{"raw", "struct", "struct", "mut", "mut"}).Draw(rt, "form")
	j.Seed = rapid.IntRange(0, 100_000).Draw(rt, "seed")
	j.N = rapid.SampledFrom([]int{1, 1, 1, 3, 20}).Draw(rt, "n")
	if rapid.IntRange(0, 60).Draw(rt, "flood") == 30 {
		j.Form, j.N = "flood", rapid.IntRange(50, 400).Draw(rt, "floods")
	}
	switch j.Form {
	case "flood":
	case "raw":
		j.Len = junkLens.Draw(rt, "len")
	case "struct":
		j.St = drawStatus(rt)
		j.ID = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, idLimit-1), rapid.IntRange(idLimit-5, idLimit-1)).Draw(rt, "id")
		j.Body = rapid.SampledFrom(junkBodies).Draw(rt, "body")
		if j.Body == "sealed" && rapid.IntRange(0, 9).Draw(rt, "sealed") != 5 {
			j.St = stClientAnswer
		}
		j.Len = junkLens.Draw(rt, "len")
	default:
		for i := rapid.IntRange(0, 4).Draw(rt, "muts"); i > 0; i-- {
			j.Muts = append(j.Muts, Mut{Op: rapid.IntRange(0, 7).Draw(rt, "op"), Pos: rapid.IntRange(0, 700).Draw(rt, "pos"), Val: rapid.IntRange(0, 255).Draw(rt, "val")})
		}
	}
	return
}

func init() {
	register(&Spec{
		ID: "C10",
		Rule: "A node with two peers is shot at: random bytes, headers of every status with structured contents (handshakes with short, odd or broken keys and connection ids), mutations, splices and replays of what was on the network, from strangers, neighbours of the peer, IPv6, its own address and (where nothing authenticates it: only what is undefined, undecryptable or repeated) in the name of a peer; a connected peer sends odd packets with the right key; servers answer its connects with nonsense, clients send broken session keys. " +
			"Meanwhile and afterwards its channel delivers everything, others connect, and no event names a stranger. Non-trivial: something was shot.",
		Cases: map[Tier]int{Quick: 4000, Thorough: 80000},
		Draw: func(rt *rapid.T, tier Tier) any {
			c := JunkCase{LatU: rapid.SampledFrom([]int{0, 500, 30_000}).Draw(rt, "lat")}
			span := rapid.SampledFrom([]int{0, 400, 3000}).Draw(rt, "span")
			for i := rapid.IntRange(1, 20).Draw(rt, "junk"); i > 0; i-- {
				c.Junk = append(c.Junk, drawJunk(rt, span))
			}
			if rapid.IntRange(0, 2).Draw(rt, "evil") == 0 {
				for i := rapid.IntRange(1, 8).Draw(rt, "nevil"); i > 0; i-- {
					j := Junk{AtMs: rapid.IntRange(0, span).Draw(rt, "at"), Seed: rapid.IntRange(0, 1000).Draw(rt, "seed"),
						St:   rapid.OneOf(rapid.SampledFrom([]int{stData, stData, stDataNext, stAck, stPing, stDisconnect}), rapid.IntRange(0, 255)).Draw(rt, "st"),
						ID:   rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, idLimit-1), rapid.IntRange(0, 1<<24-1)).Draw(rt, "id"),
						Len:  junkLens.Draw(rt, "len"),
						N:    rapid.SampledFrom([]int{1, 1, 5, 100, 1500}).Draw(rt, "n"),
						Form: rapid.SampledFrom([]string{"", "seq"}).Draw(rt, "form"),
						Body: rapid.SampledFrom([]string{"", "random"}).Draw(rt, "body")}
					if j.N > 5 {
						j.Len %= 300
					}
					c.Evil = append(c.Evil, j)
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "serve") == 0 {
				c.Serve = rapid.SliceOfN(rapid.IntRange(0, 59), 1, 3).Draw(rt, "serves")
			}
			if rapid.IntRange(0, 2).Draw(rt, "dials") == 1 {
				for i := rapid.IntRange(1, 4).Draw(rt, "ndial"); i > 0; i-- {
					c.Dial = append(c.Dial, KeyDial{AtMs: rapid.IntRange(0, span).Draw(rt, "at"), Data: rapid.IntRange(0, 3).Draw(rt, "data"),
						Key:  rapid.SampledFrom([]string{"none", "empty", "random", "short", "cut", "half", "byte", "long"}).Draw(rt, "key"),
						UUID: rapid.SampledFrom([]string{"", "\x00", "dial", strings.Repeat("d", 255), "00000000-0000-0000-0000-000000000000"}).Draw(rt, "uuid")})
				}
			}
			if rapid.Bool().Draw(rt, "conn") {
				c.Conn = rapid.SliceOfN(rapid.IntRange(0, span), 1, 3).Draw(rt, "conns")
			}
			return c
		},
		Run: func(e *Env, raw jsonRaw) { runJunk(e, decode[JunkCase](raw)) },
	})
}
