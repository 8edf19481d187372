package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/url"
	"runtime"
	"time"
	"unsafe"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
)

// All key material is a function of a small index. Indexes >= evilKey belong
// to the attacker: no server ever publishes them. Indexes with i%5 == 4 are RSA
// (4, 9, 14 and 19 are distinct keys; attackers use EC keys only).
const evilKey = 100

type simKey struct {
	idx  int
	priv crypto.Signer
	pem  []byte
	yb   string // ybase64 of the PEM
}

var keyCache = map[int]*simKey{}

func isRSA(i int) bool { return i%5 == 4 }

func getKey(i int) *simKey {
	if k := keyCache[i]; k != nil {
		return k
	}
	k := &simKey{idx: i}
	if isRSA(i) {
		k.priv = rsaKeys[(i/5)%len(rsaKeys)]
	} else {
		d := sha256.Sum256([]byte(fmt.Sprintf("verif-ec-key-%d", i)))
		d[0] &= 0x7f
		p, err := ecdsa.ParseRawPrivateKey(elliptic.P256(), d[:])
		if err != nil {
			panic(err)
		}
		k.priv = p
	}
	der, err := x509.MarshalPKIXPublicKey(k.priv.Public())
	if err != nil {
		panic(err)
	}
	k.pem = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	k.yb = new(zmssvctoken.YBase64).EncodeToString(k.pem)
	keyCache[i] = k
	return k
}

func (k *simKey) sign(data []byte) []byte {
	h := sha256.Sum256(data)
	// a nil source of randomness makes ECDSA deterministic (RFC 6979)
	s, err := k.priv.Sign(nil, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return s
}

var ySigCache = map[string]string{}

// ysign signs the way ZMS and ZTS do: ybase64(ASN.1 ECDSA or PKCS1v15 of SHA-256).
func ysign(key int, data string) string {
	ck := fmt.Sprintf("%d|%s", key, data)
	if s, ok := ySigCache[ck]; ok {
		return s
	}
	s := new(zmssvctoken.YBase64).EncodeToString(getKey(key).sign([]byte(data)))
	if len(ySigCache) > 20000 {
		ySigCache = map[string]string{}
	}
	ySigCache[ck] = s
	return s
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// jwsSign signs in the JWS manner (raw r||s for ECDSA).
func jwsSign(key int, data string) []byte {
	k := getKey(key)
	ck := fmt.Sprintf("j%d|%s", key, data)
	if s, ok := ySigCache[ck]; ok {
		return []byte(s)
	}
	if isRSA(key) {
		out := k.sign([]byte(data))
		ySigCache[ck] = string(out)
		return out
	}
	der := k.sign([]byte(data))
	var r, s *big.Int
	r, s = parseASN1(der)
	out := make([]byte, 64)
	r.FillBytes(out[:32])
	s.FillBytes(out[32:])
	ySigCache[ck] = string(out)
	return out
}

func parseASN1(d []byte) (*big.Int, *big.Int) {
	// SEQUENCE { INTEGER r, INTEGER s }, short lengths only (P-256)
	i := 2
	rl := int(d[i+1])
	r := new(big.Int).SetBytes(d[i+2 : i+2+rl])
	i += 2 + rl
	sl := int(d[i+1])
	s := new(big.Int).SetBytes(d[i+2 : i+2+sl])
	return r, s
}

func jwkOf(kid string, key int) map[string]interface{} {
	switch p := getKey(key).priv.Public().(type) {
	case *ecdsa.PublicKey:
		raw, err := p.Bytes()
		if err != nil {
			panic(err)
		}
		return map[string]interface{}{"kty": "EC", "crv": "P-256", "kid": kid, "use": "sig", "alg": "ES256",
			"x": b64(raw[1:33]), "y": b64(raw[33:])}
	case *rsa.PublicKey:
		return map[string]interface{}{"kty": "RSA", "kid": kid, "use": "sig", "alg": "RS256",
			"n": b64(p.N.Bytes()), "e": b64(big.NewInt(int64(p.E)).Bytes())}
	}
	panic("key type")
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

type detSigner struct{ s crypto.Signer }

func (d detSigner) Public() crypto.PublicKey { return d.s.Public() }
func (d detSigner) Sign(_ io.Reader, digest []byte, o crypto.SignerOpts) ([]byte, error) {
	return d.s.Sign(nil, digest, o)
}

var certCache = map[string]*x509.Certificate{}

// makeCert builds a real certificate issued by a CA named issuerCN.
func makeCert(c *CertSpec) *x509.Certificate {
	ck := string(mustJSON(c))
	if x, ok := certCache[ck]; ok {
		runtime.SimAcquire(unsafe.Pointer(x))
		return x
	}
	ca := getKey(60)
	parent := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: c.Issuer}, IsCA: true, BasicConstraintsValid: true}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(c.Serial) + 2),
		Subject:      pkix.Name{CommonName: c.CN},
		NotBefore:    time.Unix(baseUnix+c.NotBefore, 0).UTC(),
		NotAfter:     time.Unix(baseUnix+c.NotBefore+86400*30, 0).UTC(),
	}
	for _, s := range c.URIs {
		u, err := url.Parse(s)
		if err != nil {
			panic(err)
		}
		t.URIs = append(t.URIs, u)
	}
	der, err := x509.CreateCertificate(nil, t, parent, getKey(61+c.Serial%4).priv.Public(), detSigner{ca.priv})
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	if len(certCache) > 5000 {
		certCache = map[string]*x509.Certificate{}
	}
	runtime.SimRelease(unsafe.Pointer(x))
	certCache[ck] = x
	return x
}

func thumb(c *x509.Certificate) string {
	s := sha256.Sum256(c.Raw)
	return b64(s[:])
}
