package harness

// An independent implementation of the TRU v5 wire format, written from the
// protocol and not from the code under test.

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"sync"
)

// Packet statuses
const (
	stConnect      = 0
	stServerAnswer = 1
	stClientAnswer = 2
	stConnectDone  = 3
	stData         = 4
	stAck          = 5
	stPing         = 6
	stPong         = 7
	stDisconnect   = 8
	stPunch        = 9
	stDataNext     = 0x84
)

const idLimit = 1 << 20

func isData(status int) bool { return status == stData || status == stDataNext }

// encodePacket makes a datagram
func encodePacket(status int, id uint32, data []byte) []byte {
	b := make([]byte, 4, 4+len(data))
	binary.LittleEndian.PutUint32(b, uint32(status)<<24|id&(idLimit-1))
	return append(b, data...)
}

// packetKey is the key of one packet
func packetKey(session []byte, id uint32, n int) []byte {
	b := append(append([]byte(nil), session...), byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	switch {
	case n <= 16:
		h := md5.Sum(b)
		return h[:]
	case n <= 20:
		h := sha1.Sum(b)
		return h[:]
	case n <= 32:
		h := sha256.Sum256(b)
		return h[:]
	case n <= 64:
		h := sha512.Sum512(b)
		return h[:]
	}
	h := sha256.Sum256(b)
	return h[:]
}

// sealData encrypts the content of a data packet
func sealData(session []byte, id uint32, plain []byte) []byte {
	k := packetKey(session, id, len(plain))
	if len(plain) <= 64 {
		out := make([]byte, len(plain))
		for i := range plain {
			out[i] = plain[i] ^ k[i%len(k)]
		}
		return out
	}
	blk, _ := aes.NewCipher(k)
	g, _ := cipher.NewGCM(blk)
	nonce := make([]byte, 12)
	rand.Read(nonce)
	return g.Seal(nonce, nonce, plain, nil)
}

// openData decrypts the content of a data packet
func openData(session []byte, id uint32, c []byte) ([]byte, error) {
	if len(c) <= 64 {
		k := packetKey(session, id, len(c))
		out := make([]byte, len(c))
		for i := range c {
			out[i] = c[i] ^ k[i%len(k)]
		}
		return out, nil
	}
	k := packetKey(session, id, len(c))
	blk, _ := aes.NewCipher(k)
	g, _ := cipher.NewGCM(blk)
	return g.Open(nil, c[:12], c[12:], nil)
}

// plainLen is the number of message bytes in the payload of a data packet
func plainLen(payload int) int {
	if payload <= 64 {
		return payload
	}
	return payload - 28
}

// handshakeBody is a length-prefixed connection id followed by content
func handshakeBody(uuid string, content []byte) []byte {
	b := append([]byte{byte(len(uuid))}, uuid...)
	return append(b, content...)
}

func parseHandshake(b []byte) (uuid string, content []byte, err error) {
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return "", nil, errors.New("short handshake packet")
	}
	n := 1 + int(b[0])
	return string(b[1:n]), b[n:], nil
}

func rsaSeal(pub *rsa.PublicKey, in []byte) (out []byte, err error) {
	for len(in) > 0 {
		n := min(62, len(in))
		c, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, pub, in[:n], nil)
		if err != nil {
			return nil, err
		}
		out = append(out, c...)
		in = in[n:]
	}
	return
}

func rsaOpen(key *rsa.PrivateKey, in []byte) (out []byte, err error) {
	if len(in) == 0 || len(in)%key.Size() != 0 {
		return nil, fmt.Errorf("RSA text of %d bytes", len(in))
	}
	for len(in) > 0 {
		n := key.Size()
		p, err := rsa.DecryptOAEP(sha256.New(), nil, key, in[:n], nil)
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
		in = in[n:]
	}
	return
}

func encodePub(pub *rsa.PublicKey) []byte {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})
}

func decodePub(b []byte) (*rsa.PublicKey, error) {
	blk, _ := pem.Decode(b)
	if blk == nil {
		return nil, errors.New("no PEM block")
	}
	if blk.Type != "RSA PUBLIC KEY" {
		return nil, errors.New("PEM block type " + blk.Type)
	}
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	if err != nil {
		return nil, err
	}
	pub, ok := k.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("not an RSA key")
	}
	return pub, nil
}

var peerKey = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return k
})
