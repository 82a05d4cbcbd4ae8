// Writes an OPVault described on standard input into the directory given.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func rnd(n int) []byte { b := make([]byte, n); rand.Read(b); return b }

func cbc(key, iv, plain []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, plain)
	return out
}

func mac(key, data []byte) []byte { h := hmac.New(sha256.New, key); h.Write(data); return h.Sum(nil) }

func opdata(key, mk, plain []byte) []byte {
	var b bytes.Buffer
	b.WriteString("opdata01")
	binary.Write(&b, binary.LittleEndian, uint64(len(plain)))
	iv := rnd(16)
	b.Write(iv)
	b.Write(cbc(key, iv, append(rnd(16-len(plain)%16), plain...)))
	b.Write(mac(mk, b.Bytes()))
	return b.Bytes()
}

// PBKDF2-HMAC-SHA512, one iteration per round given, 64 bytes (one block).
func derive(password string, salt []byte, iter int) []byte {
	h := hmac.New(sha512.New, []byte(password))
	h.Write(append(append([]byte{}, salt...), 0, 0, 0, 1))
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < iter; i++ {
		h = hmac.New(sha512.New, []byte(password))
		h.Write(u)
		u = h.Sum(nil)
		for k := range out {
			out[k] ^= u[k]
		}
	}
	return out
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func main() {
	var v struct {
		Password string
		Items    []struct {
			Uid, Category     string
			Created, Updated  int64
			Trashed           *bool
			Overview, Details json.RawMessage
			Band              int
		}
	}
	if err := json.NewDecoder(os.Stdin).Decode(&v); err != nil {
		panic(err)
	}
	dir := filepath.Join(os.Args[1], "default")
	os.MkdirAll(dir, 0755)
	salt := rnd(16)
	d := derive(v.Password, salt, 1000)
	m, o := rnd(256), rnd(64)
	p, _ := json.Marshal(map[string]any{"salt": b64(salt), "iterations": 1000, "masterKey": b64(opdata(d[:32], d[32:], m)), "overviewKey": b64(opdata(d[:32], d[32:], o)), "profileName": "default", "uuid": "2B894A18997C4638BACC55F2D56A4890"})
	os.WriteFile(filepath.Join(dir, "profile.js"), []byte("var profile="+string(p)+";"), 0644)
	hm, ho := sha512.Sum512(m), sha512.Sum512(o)
	bands := map[int][]string{}
	for _, it := range v.Items {
		ik, iv := rnd(64), rnd(16)
		k := append(append([]byte{}, iv...), cbc(hm[:32], iv, ik)...)
		k = append(k, mac(hm[32:], k)...)
		e := map[string]any{"uuid": it.Uid, "category": it.Category, "created": it.Created, "updated": it.Updated, "tx": it.Updated, "k": b64(k), "hmac": b64(rnd(32)),
			"o": b64(opdata(ho[:32], ho[32:], it.Overview)), "d": b64(opdata(ik[:32], ik[32:], it.Details))}
		if it.Trashed != nil {
			e["trashed"] = *it.Trashed
		}
		j, _ := json.Marshal(e)
		bands[it.Band] = append(bands[it.Band], fmt.Sprintf("%q:%s", it.Uid, j))
	}
	for n, l := range bands {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("band_%X.js", n)), []byte("ld({"+strings.Join(l, ",")+"});"), 0644)
	}
}
