package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

// Independent implementation of the OPVault format (encoder only).

type detRand struct {
	seed string
	n    int
	buf  []byte
}

func (r *detRand) bytes(n int) []byte {
	var out []byte
	for len(out) < n {
		if len(r.buf) == 0 {
			h := sha256.Sum256([]byte(r.seed + "/" + strconv.Itoa(r.n)))
			r.n++
			r.buf = h[:]
		}
		k := n - len(out)
		if k > len(r.buf) {
			k = len(r.buf)
		}
		out = append(out, r.buf[:k]...)
		r.buf = r.buf[k:]
	}
	return out
}

type VKeys struct {
	Salt                   []byte
	Iter                   int
	DK, DM, MK, MM, OK, OM []byte
	MasterBlob, OverBlob   []byte
}

func cbc(key, iv, plain []byte) []byte {
	b, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, plain)
	return out
}

func mac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func opdata(r *detRand, key, mk, plain []byte) []byte {
	pad := 16 - len(plain)%16
	var b bytes.Buffer
	b.WriteString("opdata01")
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(plain)))
	b.Write(l[:])
	iv := r.bytes(16)
	b.Write(iv)
	b.Write(cbc(key, iv, append(r.bytes(pad), plain...)))
	b.Write(mac(mk, b.Bytes()))
	return b.Bytes()
}

func newKeys(r *detRand, password string, salt []byte, iter int) *VKeys {
	k := &VKeys{Salt: salt, Iter: iter}
	d, err := pbkdf2.Key(sha512.New, password, salt, iter, 64)
	must(err)
	k.DK, k.DM = d[:32], d[32:]
	m := r.bytes(256)
	o := r.bytes(64)
	k.MasterBlob = opdata(r, k.DK, k.DM, m)
	k.OverBlob = opdata(r, k.DK, k.DM, o)
	hm := sha512.Sum512(m)
	ho := sha512.Sum512(o)
	k.MK, k.MM = append([]byte(nil), hm[:32]...), append([]byte(nil), hm[32:]...)
	k.OK, k.OM = append([]byte(nil), ho[:32]...), append([]byte(nil), ho[32:]...)
	return k
}

// VItem: an item before encryption. Overview and Details are JSON documents.
type VItem struct {
	Uid      string `json:"uid"`
	Category string `json:"category"`
	Created  int64  `json:"created"`
	Updated  int64  `json:"updated"`
	Trashed  any    `json:"trashed"` // nil (absent), false, true
	Overview any    `json:"overview"`
	Details  any    `json:"details"`
	Band     int    `json:"band"`
	Extra    obj    `json:"extra,omitempty"` // more keys of the band entry (folder, fave)
	// raw replacements of the encrypted parts
	O, D, K []byte `json:"-"`
}

type VVault struct {
	Password string
	Salt     []byte
	Iter     int
	Items    []VItem
	Bands    map[int]string // extra bands: number -> "empty"
	Seed     string
	Keys     *VKeys
}

func jsonDoc(x any) []byte {
	if s, ok := x.(json.RawMessage); ok {
		return s
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(x))
	return bytes.TrimRight(b.Bytes(), "\n")
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// seal encrypts the item and returns the JSON object of the band file.
func (v *VVault) seal(it *VItem) map[string]any {
	r := &detRand{seed: v.Seed + "/" + it.Uid}
	k := v.Keys
	ikeys := r.bytes(64)
	iv := r.bytes(16)
	kb := append(append([]byte(nil), iv...), cbc(k.MK, iv, ikeys)...)
	kb = append(kb, mac(k.MM, kb)...)
	o := opdata(r, k.OK, k.OM, jsonDoc(it.Overview))
	d := opdata(r, ikeys[:32], ikeys[32:], jsonDoc(it.Details))
	if it.K != nil {
		kb = it.K
	}
	if it.O != nil {
		o = it.O
	}
	if it.D != nil {
		d = it.D
	}
	m := map[string]any{"uuid": it.Uid, "category": it.Category, "created": it.Created, "updated": it.Updated,
		"tx": it.Updated, "k": b64(kb), "o": b64(o), "d": b64(d)}
	for n, x := range it.Extra {
		m[n] = x
	}
	if it.Trashed != nil {
		m["trashed"] = it.Trashed
	}
	keys := []string{}
	for n := range m {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	h := hmac.New(sha256.New, k.OM)
	for _, n := range keys {
		s := fmt.Sprint(m[n])
		if m[n] == true {
			s = "1"
		} else if m[n] == false {
			s = "0"
		}
		h.Write([]byte(n + s))
	}
	m["hmac"] = b64(h.Sum(nil))
	return m
}

func (v *VVault) prepare() {
	if v.Keys == nil {
		if v.Salt == nil {
			v.Salt = (&detRand{seed: "salt" + v.Seed}).bytes(16)
		}
		if v.Iter == 0 {
			v.Iter = 1
		}
		v.Keys = newKeys(&detRand{seed: "keys" + v.Seed}, v.Password, v.Salt, v.Iter)
	}
}

func (v *VVault) profile(master, over, salt []byte) []byte {
	p := map[string]any{"lastUpdatedBy": "Dropbox", "updatedAt": 1370323483, "profileName": "default", "salt": b64(salt),
		"passwordHint": "hint", "masterKey": b64(master), "iterations": v.Iter, "uuid": "2B894A18997C4638BACC55F2D56A4890",
		"overviewKey": b64(over), "createdAt": 1373753414}
	return append(append([]byte("var profile="), jsonDoc(p)...), ';')
}

const hexDigits = "0123456789ABCDEF"

func bandName(n int) string { return "band_" + string(hexDigits[n]) + ".js" }

// write creates the vault directory.
func (v *VVault) write(dir string) {
	v.prepare()
	d := filepath.Join(dir, "default")
	must(os.MkdirAll(d, 0755))
	must(os.WriteFile(filepath.Join(d, "profile.js"), v.profile(v.Keys.MasterBlob, v.Keys.OverBlob, v.Salt), 0644))
	v.writeBands(dir)
}

func (v *VVault) writeBands(dir string) {
	d := filepath.Join(dir, "default")
	for n := 0; n < 16; n++ {
		os.Remove(filepath.Join(d, bandName(n)))
	}
	bands := map[int]map[string]any{}
	for n := range v.Bands {
		bands[n] = map[string]any{}
	}
	for i := range v.Items {
		it := &v.Items[i]
		if bands[it.Band] == nil {
			bands[it.Band] = map[string]any{}
		}
		bands[it.Band][it.Uid] = v.seal(it)
	}
	for n, m := range bands {
		must(os.WriteFile(filepath.Join(d, bandName(n)), append(append([]byte("ld("), jsonDoc(m)...), ");"...), 0644))
	}
}

func uid(n int) string {
	h := sha256.Sum256([]byte("uid" + strconv.Itoa(n)))
	s := ""
	for _, b := range h[:16] {
		s += fmt.Sprintf("%02X", b)
	}
	return s
}

func unb64(x any) []byte {
	b, err := base64.StdEncoding.DecodeString(x.(string))
	must(err)
	return b
}
