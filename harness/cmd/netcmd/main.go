// netcmd monitors httpclient and websocket against peers on the loopback interface.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"time"

	"verifharness/vh"
)

func main() {
	vh.Main(map[string]func(*vh.Run){"N01": n01, "N02": n02, "N03": n03, "N04": n04})
}

// selfSigned makes a certificate for 127.0.0.1 that is its own authority.
func selfSigned() (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "loopback"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func listen() net.Listener {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return ln
}

// content is n bytes determined by salt.
func content(salt uint64, n int) []byte {
	b := make([]byte, n)
	s := salt*0x9E3779B97F4A7C15 + 1
	for i := range b {
		if i%8 == 0 {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
		}
		b[i] = byte(s >> (8 * (i % 8)))
	}
	return b
}

func size(r *rand.Rand, limit int) int {
	if limit > 1<<20 {
		return limit/3 + r.IntN(2*limit/3)
	}
	n := []int{0, 1, 2, 100, 125, 126, 127, 128, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000, 1 << 20}[r.IntN(17)]
	if r.IntN(2) == 0 {
		n = r.IntN(3000)
	}
	if n > limit {
		n = r.IntN(limit + 1)
	}
	return n
}

func brief(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%d bytes %q", len(b), b)
	}
	return fmt.Sprintf("%d bytes %q...%q", len(b), b[:20], b[len(b)-8:])
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }
