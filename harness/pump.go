package harness

// C14: a connection whose messages are read in turns, so that many are unread
// for a while, again and again.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/teonet-go/tru"
)

// PumpCase is the scenario: in every turn one end writes N messages, and when
// they have arrived the other reads them
type PumpCase struct {
	LatU int        `json:"lat"`
	Pump []PumpTurn `json:"pump"`
}

// PumpTurn is a turn
type PumpTurn struct {
	Acc  bool `json:"acc"` // the accepted end writes
	N    int  `json:"n"`
	Size int  `json:"size"`
	Buf  int  `json:"buf"`
	Left int  `json:"left"` // so many stay unread
	Wait int  `json:"wait"` // before reading, ms
}

func runPump(e *Env, c PumpCase) {
	lat := time.Duration(c.LatU) * time.Microsecond
	w := NewWorld(e, lat)
	loggerSet.Do(func() { w.Node().Close() })
	at := func(ip string) {
		w.net.mu.Lock()
		w.net.nextIP = ip
		w.net.mu.Unlock()
	}
	at(nodeIP(30))
	l, err := tru.Listen("tru", ":8800")
	if err != nil {
		e.Failf("listen", "Listen: %v", err)
		return
	}
	at(nodeIP(60))
	d, err := tru.Dial("tru", nodeIP(30)+":8800")
	if err != nil {
		e.Failf("dial", "Dial: %v", err)
		l.Close()
		return
	}
	a, err := l.Accept()
	if err != nil {
		e.Failf("accept", "Accept: %v", err)
		return
	}
	e.Cleanup(func() { d.Close(); a.Close(); l.Close() })
	ends := [2]net.Conn{d, a}
	var unread [2][][]byte
	k, most, total := 0, 0, 0
	for i, t := range c.Pump {
		side := 0
		if t.Acc {
			side = 1
		}
		to := 1 - side
		for range t.N {
			m := payload(uint64(i), k, t.Size)
			k++
			n, err := ends[side].Write(append([]byte{}, m...))
			if err != nil || n != len(m) {
				e.Failf("write", "turn %d: Write returned %d, %v", i, n, err)
				return
			}
			unread[to] = append(unread[to], m)
		}
		total += t.N
		most = max(most, len(unread[to]))
		w.Sleep(time.Duration(t.Wait)*time.Millisecond + 2*lat)
		// read all but Left
		type result struct {
			n   int
			bad string
		}
		res := make(chan result, 1)
		want := unread[to][:max(0, len(unread[to])-t.Left)]
		unread[to] = unread[to][len(want):]
		go func() {
			b := make([]byte, t.Buf)
			for j, m := range want {
				var got []byte
				for {
					n, err := ends[to].Read(b)
					got = append(got, b[:n]...)
					if errors.Is(err, io.EOF) {
						break
					}
					if err != nil {
						res <- result{j, fmt.Sprintf("Read returned %v", err)}
						return
					}
				}
				if !bytes.Equal(got, m) {
					res <- result{j, fmt.Sprintf("message is %s, written %s", brief(got), brief(m))}
					return
				}
			}
			res <- result{n: len(want)}
		}()
		select {
		case r := <-res:
			if r.bad != "" {
				e.Failf("read", "turn %d, after %d messages of it: %s", i, r.n, r.bad)
				return
			}
		case <-time.After(time.Minute):
			e.Failf("read", "turn %d: %d messages were written, reading them did not end within a minute; at most %d were unread", i, t.N, most)
			return
		}
	}
	e.Class("read in turns")
	e.ClassIf(most > 200, "more than 200 unread messages")
	if total > 1 {
		e.NonTrivial()
	}
}
