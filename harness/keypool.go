//go:build verifkeys

package harness

// Key generation takes most of the time of a scenario with several nodes. The
// build of most checks replaces it: nodes take keys of the same size from a
// pool which each run generates anew (see check.sh).

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"os"
	"sync"
	"sync/atomic"
)

const poolBits = 1024

func init() {
	makeKeyPool = func(file string) {
		keys := make([][]byte, 160)
		var wg sync.WaitGroup
		for i := range keys {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k, err := rsa.GenerateKey(rand.Reader, poolBits); err == nil {
					keys[i] = pem.EncodeToMemory(&pem.Block{Type: "K", Bytes: x509.MarshalPKCS1PrivateKey(k)})
				}
			}()
		}
		wg.Wait()
		var all []byte
		for _, k := range keys {
			all = append(all, k...)
		}
		if os.WriteFile(file, all, 0o600) == nil {
			os.Setenv("VERIF_KEYS", file)
		}
	}
	useKeyPool = func() {
		b, err := os.ReadFile(os.Getenv("VERIF_KEYS"))
		if err != nil {
			return
		}
		var pool []*rsa.PrivateKey
		for {
			var blk *pem.Block
			blk, b = pem.Decode(b)
			if blk == nil {
				break
			}
			if k, err := x509.ParsePKCS1PrivateKey(blk.Bytes); err == nil {
				pool = append(pool, k)
			}
		}
		if len(pool) < 100 {
			return
		}
		var next atomic.Uint64
		next.Store(uint64(os.Getpid()))
		rsa.VerifKeys = func(bits int) *rsa.PrivateKey {
			if bits != poolBits {
				return nil
			}
			k := *pool[next.Add(1)%uint64(len(pool))]
			return &k
		}
	}
}
