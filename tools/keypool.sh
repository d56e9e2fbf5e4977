#!/bin/sh
# keypool.sh DIR: writes DIR/rsa.go, the standard library's file with a hook in
# GenerateKey, and DIR/overlay.json for "go build -overlay"
f=$(go env GOROOT)/src/crypto/rsa/rsa.go
[ -f "$f" ] || exit 1
grep -q '^func GenerateKey(random io.Reader, bits int) (\*PrivateKey, error) {$' "$f" || exit 1
sed '/^func GenerateKey(random io.Reader, bits int)/a\
	if VerifKeys != nil {\
		if k := VerifKeys(bits); k != nil {\
			return k, nil\
		}\
	}' "$f" > "$1/rsa.go" || exit 1
echo '
// VerifKeys returns a key instead of GenerateKey
var VerifKeys func(bits int) *PrivateKey' >> "$1/rsa.go"
echo "{\"Replace\": {\"$f\": \"$1/rsa.go\"}}" > "$1/overlay.json"
