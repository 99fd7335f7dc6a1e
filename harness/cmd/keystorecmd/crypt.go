package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"os"
	"path/filepath"

	"github.com/donnie4w/gofer/keystore"
	"verifharness/vh"
)

func refCBC(iv, key string, padded []byte, enc bool) []byte {
	k := sha256.Sum256([]byte(key))
	v := md5.Sum([]byte(iv))
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(padded))
	if enc {
		cipher.NewCBCEncrypter(b, v[:]).CryptBlocks(out, padded)
	} else {
		cipher.NewCBCDecrypter(b, v[:]).CryptBlocks(out, padded)
	}
	return out
}

func pad(b []byte) []byte {
	n := 16 - len(b)%16
	return append(append([]byte(nil), b...), bytes.Repeat([]byte{byte(n)}, n)...)
}

// caged returns a copy of b with spare capacity and canaries around it.
func caged(b []byte, spare int) (view []byte, intact func() bool) {
	mem := make([]byte, 32+len(b)+spare+32)
	for i := range mem {
		mem[i] = byte(0xA5 ^ i)
	}
	copy(mem[32:], b)
	orig := append([]byte(nil), mem...)
	return mem[32 : 32+len(b) : 32+len(b)+spare], func() bool { return bytes.Equal(mem, orig) }
}

func k04(r *vh.Run) {
	r.Rule("each case encrypts and decrypts strings of 0-5000 bytes under random keys with slices having spare capacity between canaries, compares with crypto/cipher, and decrypts ciphertexts of every malformed kind; concurrent cases share one object; non-trivial when the input has spare capacity or is malformed")
	type aesI interface {
		EncrypterCbc([]byte) ([]byte, error)
		DecrypterCbc([]byte) ([]byte, error)
	}
	one := func(c *vh.Case, o aesI, iv, key string, n, spare int, seed uint64) {
		plain := content(seed, int(seed%4), n)
		in, intact := caged(plain, spare)
		ct, err := o.EncrypterCbc(in)
		want := refCBC(iv, key, pad(plain), true)
		if err != nil || !bytes.Equal(ct, want) {
			c.Violate("ciphertext", "encryption of %d bytes: %d bytes, error %v, equal to AES-256-CBC/PKCS#7 %v", n, len(ct), err, bytes.Equal(ct, want))
		}
		if !intact() {
			c.Violate("input-modified", "encryption of %d bytes (spare capacity %d) changed the caller's memory", n, spare)
		}
		cin, cintact := caged(want, spare)
		pt, err := o.DecrypterCbc(cin)
		if err != nil || !bytes.Equal(pt, plain) {
			c.Violate("roundtrip", "decryption of an encryption of %d bytes: %d bytes, error %v", n, len(pt), err)
		}
		if !cintact() {
			c.Violate("input-modified", "decryption of %d bytes changed the caller's memory", len(want))
		}
		// results belong to the caller
		for i := range pt {
			pt[i] = 0
		}
		for i := range ct {
			ct[i] = 0
		}
		if !intact() || !cintact() {
			c.Violate("result-aliases-input", "writing to a result changed the input (%d bytes, spare %d)", n, spare)
		}
	}
	r.Cases("cbc", r.N(6000, 100000), 4, func(c *vh.Case) {
		iv, key := string(content(c.R.Uint64(), 0, c.R.IntN(40))), string(content(c.R.Uint64(), 1, c.R.IntN(60)))
		o := keystore.NewAes(iv, key)
		n := c.R.IntN(70)
		if c.R.IntN(8) == 0 {
			n = c.R.IntN(5000)
		}
		spare := []int{0, 1, 15, 16, 17, 100}[c.R.IntN(6)]
		one(c, o, iv, key, n, spare, c.R.Uint64())
		// the same, with nil
		if n == 0 {
			if ct, err := o.EncrypterCbc(nil); err != nil || !bytes.Equal(ct, refCBC(iv, key, pad(nil), true)) {
				c.Violate("ciphertext", "encryption of nil: %x, %v", ct, err)
			}
		}
		p := content(c.R.Uint64(), 1, n)
		ct, err := keystore.AesEncrypter(append([]byte(nil), p...), key)
		if err != nil || !bytes.Equal(ct, refCBC(key, key, pad(p), true)) {
			c.Violate("ciphertext", "AesEncrypter of %d bytes differs from AES-256-CBC", n)
		}
		if q, err := keystore.AesDecrypter(ct, key); err != nil || !bytes.Equal(p, q) {
			c.Violate("roundtrip", "AesDecrypter of %d bytes: %v", n, err)
		}
		c.Eval(1)
		c.Observe("roundtrips", 2)
		if spare > 0 {
			c.Observe("inputs_with_spare_capacity", 1)
		}
		c.Distinct(vh.Hash(iv, key, n, spare))
		if c.I < 2 {
			c.Sample(map[string]any{"bytes": n, "spare_capacity": spare})
		}
	})
	r.Cases("big", r.N(5, 40), 1, func(c *vh.Case) { // many megabytes
		n := []int{1<<20 - 1, 1 << 20, 5<<20 + 7, 17<<20 + 1, 34 << 20}[c.I%5]
		o := keystore.NewAes("iv", "key")
		p := content(c.R.Uint64(), 1, n)
		want := refCBC("iv", "key", pad(p), true)
		ct, err := o.EncrypterCbc(append([]byte(nil), p...))
		if err != nil || !bytes.Equal(ct, want) {
			c.Violate("ciphertext", "encryption of %d bytes: %d bytes, error %v, equal to AES-256-CBC/PKCS#7 %v", n, len(ct), err, bytes.Equal(ct, want))
			return
		}
		if q, err := o.DecrypterCbc(want); err != nil || !bytes.Equal(p, q) {
			c.Violate("roundtrip", "decryption of an encryption of %d bytes: %d bytes, error %v", n, len(q), err)
		}
		c.Eval(1)
		c.Max("largest_input", n)
	})
	r.Cases("long-keys", r.N(200, 3000), 4, func(c *vh.Case) { // keys and ivs that differ only far behind
		n := []int{32, 33, 64, 1000, 4096, 4097, 70000, 300000}[c.R.IntN(8)]
		iv, key := string(content(c.R.Uint64(), 0, n)), string(content(c.R.Uint64(), 1, n))
		p := content(c.R.Uint64(), 1, 1+c.R.IntN(50))
		for i := 0; i < 3; i++ {
			v, k := iv, key
			if i == 1 {
				k = k[:n-1] + string(k[n-1]^1)
			} else if i == 2 {
				v = v[:n-1] + string(v[n-1]^1)
			}
			o := keystore.NewAes(v, k)
			ct, err := o.EncrypterCbc(append([]byte(nil), p...))
			if err != nil || !bytes.Equal(ct, refCBC(v, k, pad(p), true)) {
				c.Violate("ciphertext", "key and iv of %d bytes, variant %d: differs from AES-256-CBC under their digests (error %v)", n, i, err)
			}
			if q, err := o.DecrypterCbc(ct); err != nil || !bytes.Equal(p, q) {
				c.Violate("roundtrip", "key and iv of %d bytes, variant %d: %v", n, i, err)
			}
		}
		ct, err := keystore.AesEncrypter(append([]byte(nil), p...), key)
		if err != nil || !bytes.Equal(ct, refCBC(key, key, pad(p), true)) {
			c.Violate("ciphertext", "AesEncrypter with a key of %d bytes differs from AES-256-CBC (error %v)", n, err)
		}
		c.Eval(1)
		c.Max("longest_key", n)
		c.Distinct(vh.Hash(c.Name(), n))
	})
	r.Cases("malformed", r.N(8000, 150000), 4, func(c *vh.Case) {
		iv, key := "iv", string(content(c.R.Uint64(), 1, 5))
		o := keystore.NewAes(iv, key)
		var ct []byte
		kind := c.R.IntN(6)
		mustFail := true
		blocks := c.R.IntN(4)
		switch kind {
		case 0:
			ct = content(c.R.Uint64(), 0, 16*blocks+1+c.R.IntN(15))
		case 1:
			ct = nil
			if c.R.IntN(2) == 0 {
				ct = []byte{}
			}
		case 2, 3, 4: // bad padding inside well-formed blocks
			p := content(c.R.Uint64(), 0, 16*(blocks+1))
			last := byte([]int{0, 17, 255, 16 + c.R.IntN(240), 2 + c.R.IntN(15)}[c.R.IntN(5)])
			n := int(last)
			if n > 0 && n <= 16 {
				for i := 0; i < n; i++ {
					p[len(p)-1-i] = last
				}
				p[len(p)-2-c.R.IntN(n-1)] ^= byte(1 + c.R.IntN(255))
			}
			p[len(p)-1] = last
			ct = refCBC(iv, key, p, true)
		case 5: // an altered or cut ciphertext: the result is decided by the reference
			ct = refCBC(iv, key, pad(content(c.R.Uint64(), 1, c.R.IntN(40))), true)
			if c.R.IntN(2) == 0 {
				ct[c.R.IntN(len(ct))] ^= byte(1 + c.R.IntN(255))
			} else {
				ct = ct[:16*c.R.IntN(len(ct)/16+1)]
			}
			if len(ct) > 0 {
				p := refCBC(iv, key, ct, false)
				n := int(p[len(p)-1])
				mustFail = n == 0 || n > 16 || !bytes.HasSuffix(p, bytes.Repeat([]byte{byte(n)}, n))
				if !mustFail {
					got, err := o.DecrypterCbc(ct)
					if err != nil || !bytes.Equal(got, p[:len(p)-n]) {
						c.Violate("roundtrip", "well padded ciphertext: %x, %v", got, err)
					}
				}
			}
		}
		in, intact := caged(ct, c.R.IntN(3)*8)
		if ct == nil {
			in = nil
		}
		var got []byte
		var err error
		if p := vh.Try(func() {
			if c.R.IntN(4) == 0 {
				o2 := keystore.NewAes(iv, key)
				got, err = o2.DecrypterCbc(in)
			} else {
				got, err = o.DecrypterCbc(in)
			}
		}); p != "" {
			c.Violate("panic", "decryption of a malformed ciphertext of %d bytes panics: %s", len(ct), p)
		} else if mustFail && err == nil {
			c.Violate("malformed-accepted", "malformed ciphertext of %d bytes (kind %d) decrypted to %d bytes without error", len(ct), kind, len(got))
		}
		if !intact() {
			c.Violate("input-modified", "decryption of a malformed ciphertext changed the caller's memory")
		}
		c.Eval(1)
		c.Observe("malformed_ciphertexts", 1)
		c.Distinct(vh.Hash("bad", ct, key))
	})
	r.Cases("shared", r.N(400, 6000), 4, func(c *vh.Case) {
		o := keystore.NewAes("a", "b")
		shared := content(3, 1, 33)
		seeds := c.R.Uint64()
		c.Par(2+c.R.IntN(6), func(g int) {
			for i := 0; i < 6; i++ {
				one(c, o, "a", "b", (g*7+i*13)%90, i%3*8, seeds+uint64(g*100+i))
				if ct, err := o.EncrypterCbc(shared[:20]); err != nil || !bytes.Equal(ct, refCBC("a", "b", pad(shared[:20]), true)) {
					c.Violate("ciphertext", "encryption of a slice shared by goroutines differs")
				}
				spin(1)
			}
		})
		c.Eval(1)
		c.Observe("shared_object_cases", 1)
		c.Distinct(vh.Hash("shared", seeds))
	})
}

type keyPair struct {
	name      string
	pub, priv []byte
	key       *rsa.PrivateKey
}

func k05(r *vh.Run) {
	r.Rule("each case encrypts a message of 0 to k-11 bytes with the built-in pair, key files and key bytes (1024- and 2048-bit keys), decrypts it, and tries damaged keys, keys of other kinds, overlong messages and altered ciphertexts, comparing with crypto/rsa; non-trivial per distinct message or fault")
	var pairs []keyPair
	for _, bits := range []int{1024, 2048} {
		k, err := rsa.GenerateKey(crand.Reader, bits)
		if err != nil {
			r.Inconclusive("key generation: %v", err)
			return
		}
		pk, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		pairs = append(pairs, keyPair{name: "generated", key: k,
			pub:  pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pk}),
			priv: pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})})
	}
	ek, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	ecPub, _ := x509.MarshalPKIXPublicKey(&ek.PublicKey)
	ecPriv, _ := x509.MarshalECPrivateKey(ek)
	pkcs8, _ := x509.MarshalPKCS8PrivateKey(ek)
	wrongPub := map[string][]byte{
		"empty": nil, "text": []byte("not a key"), "no end line": pairs[0].pub[:60],
		"EC key":     pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: ecPub}),
		"private":    pairs[0].priv,
		"bad base64": bytes.Replace(pairs[0].pub, []byte("MI"), []byte("!!"), 1),
		"bad DER":    pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: []byte{1, 2, 3}}),
		"empty DER":  pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: nil}),
		"PKCS1":      pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: x509.MarshalPKCS1PublicKey(&pairs[0].key.PublicKey)}),
	}
	wrongPriv := map[string][]byte{
		"empty": nil, "text": []byte("not a key"), "no end line": pairs[0].priv[:60],
		"EC key":    pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: ecPriv}),
		"EC PKCS8":  pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: pkcs8}),
		"public":    pairs[0].pub,
		"bad DER":   pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: []byte{1, 2, 3}}),
		"empty DER": pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: nil}),
	}
	names := func(m map[string][]byte) (out []string) {
		for k := range m {
			out = append(out, k)
		}
		for i := range out { // fixed order
			for j := i + 1; j < len(out); j++ {
				if out[j] < out[i] {
					out[i], out[j] = out[j], out[i]
				}
			}
		}
		return
	}
	pubNames, privNames := names(wrongPub), names(wrongPriv)
	d, err := os.MkdirTemp(r.Tmp, "rsa")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	for i, p := range pairs {
		os.WriteFile(filepath.Join(d, string(rune('a'+i))+".pub"), p.pub, 0o600)
		os.WriteFile(filepath.Join(d, string(rune('a'+i))+".key"), p.priv, 0o600)
	}
	for i, n := range pubNames {
		os.WriteFile(filepath.Join(d, string(rune('A'+i))+".pub"), wrongPub[n], 0o600)
	}
	for i, n := range privNames {
		os.WriteFile(filepath.Join(d, string(rune('A'+i))+".key"), wrongPriv[n], 0o600)
	}
	os.Mkdir(filepath.Join(d, "dir"), 0o700)
	call := func(c *vh.Case, what string, f func() ([]byte, error)) (out []byte, err error, ok bool) {
		if p := vh.Try(func() { out, err = f() }); p != "" {
			c.Violate("panic", "%s panics: %s", what, p)
			return nil, nil, false
		}
		return out, err, true
	}
	mustFail := func(c *vh.Case, what string, f func() ([]byte, error)) {
		out, err, ok := call(c, what, f)
		if ok && err == nil {
			c.Violate("silent-failure", "%s: %d bytes and no error", what, len(out))
		}
		c.Observe("failures_provoked", 1)
		c.Distinct(vh.Hash("fail", what))
	}
	r.SeqCases("rsa", r.N(1500, 15000), 4, func(c *vh.Case) {
		k := c.R.IntN(len(pairs) + 1) // the last is the built-in pair
		limit := 128 - 11
		var p keyPair
		pub, priv := "", ""
		if k < len(pairs) {
			p = pairs[k]
			limit = p.key.Size() - 11
			pub, priv = filepath.Join(d, string(rune('a'+k))+".pub"), filepath.Join(d, string(rune('a'+k))+".key")
		}
		n := c.R.IntN(limit + 1)
		if c.R.IntN(4) == 0 {
			n = []int{0, 1, limit - 1, limit}[c.R.IntN(4)]
		}
		msg := content(c.R.Uint64(), 0, n)
		orig := append([]byte(nil), msg...)
		enc := func(m []byte) ([]byte, error) { return keystore.RsaEncrypt(m, pub) }
		dec := func(ct []byte) ([]byte, error) { return keystore.RsaDecrypt(ct, priv) }
		byBytes := k < len(pairs) && c.R.IntN(2) == 0
		if byBytes {
			enc = func(m []byte) ([]byte, error) { return keystore.RsaEncryptByBytes(m, p.pub) }
		}
		if k < len(pairs) && c.R.IntN(2) == 0 {
			dec = func(ct []byte) ([]byte, error) { return keystore.RsaDecryptByBytes(ct, p.priv) }
		}
		ct, err, ok := call(c, "encryption", func() ([]byte, error) { return enc(msg) })
		if !ok {
			return
		}
		if err != nil || len(ct) != limit+11 {
			c.Violate("encrypt", "encryption of %d bytes: %d bytes, %v", n, len(ct), err)
			return
		}
		if !bytes.Equal(msg, orig) {
			c.Violate("input-modified", "encryption modified its message")
		}
		if p.key != nil {
			if m, err := rsa.DecryptPKCS1v15(nil, p.key, ct); err != nil || !bytes.Equal(m, msg) {
				c.Violate("encrypt", "crypto/rsa cannot decrypt the result: %v", err)
			}
		}
		pt, err, ok := call(c, "decryption", func() ([]byte, error) { return dec(ct) })
		if ok && (err != nil || !bytes.Equal(pt, msg)) {
			c.Violate("roundtrip", "decryption of an encryption of %d bytes: %d bytes, %v", n, len(pt), err)
		}
		c.Observe("roundtrips", 1)
		c.Distinct(vh.Hash("msg", msg, k))
		switch c.R.IntN(6) {
		case 0:
			mustFail(c, "encryption of an overlong message", func() ([]byte, error) { return enc(make([]byte, limit+1+c.R.IntN(300))) })
		case 1:
			i := c.R.IntN(len(pubNames))
			mustFail(c, "encryption with key bytes: "+pubNames[i], func() ([]byte, error) { return keystore.RsaEncryptByBytes(msg, wrongPub[pubNames[i]]) })
			mustFail(c, "encryption with a key file: "+pubNames[i], func() ([]byte, error) {
				return keystore.RsaEncrypt(msg, filepath.Join(d, string(rune('A'+i))+".pub"))
			})
		case 2:
			i := c.R.IntN(len(privNames))
			mustFail(c, "decryption with key bytes: "+privNames[i], func() ([]byte, error) { return keystore.RsaDecryptByBytes(ct, wrongPriv[privNames[i]]) })
			mustFail(c, "decryption with a key file: "+privNames[i], func() ([]byte, error) {
				return keystore.RsaDecrypt(ct, filepath.Join(d, string(rune('A'+i))+".key"))
			})
		case 3:
			mustFail(c, "encryption with a missing key file", func() ([]byte, error) { return keystore.RsaEncrypt(msg, filepath.Join(d, "none")) })
			mustFail(c, "decryption with a missing key file", func() ([]byte, error) { return keystore.RsaDecrypt(ct, filepath.Join(d, "none")) })
			mustFail(c, "encryption with a directory as key file", func() ([]byte, error) { return keystore.RsaEncrypt(msg, filepath.Join(d, "dir")) })
			mustFail(c, "decryption with a directory as key file", func() ([]byte, error) { return keystore.RsaDecrypt(ct, filepath.Join(d, "dir")) })
		case 4:
			mustFail(c, "decryption of a cut ciphertext", func() ([]byte, error) { return dec(ct[:len(ct)-1-c.R.IntN(len(ct)-1)]) })
			mustFail(c, "decryption of an extended ciphertext", func() ([]byte, error) { return dec(append(append([]byte(nil), ct...), 1)) })
			mustFail(c, "decryption of nothing", func() ([]byte, error) { return dec(nil) })
		case 5:
			// an altered ciphertext decrypts to what crypto/rsa makes of it, which is almost always an error
			if p.key == nil {
				break
			}
			bad := append([]byte(nil), ct...)
			bad[c.R.IntN(len(bad))] ^= byte(1 + c.R.IntN(255))
			want, werr := rsa.DecryptPKCS1v15(nil, p.key, bad)
			got, err, ok := call(c, "decryption of an altered ciphertext", func() ([]byte, error) { return dec(bad) })
			if ok && ((err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want)) {
				c.Violate("silent-failure", "decryption of an altered ciphertext: %d bytes, error %v; crypto/rsa says %v", len(got), err, werr)
			}
			c.Observe("altered_ciphertexts", 1)
		}
		// a damaged copy of the key
		if p.key != nil && c.R.IntN(3) == 0 {
			blk, _ := pem.Decode(p.priv)
			der := append([]byte(nil), blk.Bytes...)
			der = der[:c.R.IntN(len(der))]
			mustFail(c, "decryption with a cut private key", func() ([]byte, error) {
				return keystore.RsaDecryptByBytes(ct, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: der}))
			})
			blk, _ = pem.Decode(p.pub)
			der = append([]byte(nil), blk.Bytes...)
			der = der[:c.R.IntN(len(der))]
			mustFail(c, "encryption with a cut public key", func() ([]byte, error) {
				return keystore.RsaEncryptByBytes(msg, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
			})
		}
		c.Eval(1)
		if c.I < 2 {
			c.Sample(map[string]any{"key": k, "message_bytes": n, "ciphertext_bytes": len(ct)})
		}
	})
}
