package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"encoding/hex"
	"fmt"
)

const newBinary = "#!NEW BINARY 9.9.9\nsome more bytes \x00\x01\x02\xff of the new one\n"

type tarEntry struct {
	Name string
	Data string
	Type byte // 0: regular
	Mode int64
	Link string
}

// tarOf encodes the entries byte by byte (GNU long names), so that names which a tar library
// refuses to write can be served too.
func tarOf(es ...tarEntry) []byte {
	var b bytes.Buffer
	pad := func() {
		for b.Len()%512 != 0 {
			b.WriteByte(0)
		}
	}
	head := func(name, link string, typ byte, mode int64, size int) {
		h := make([]byte, 512)
		copy(h[0:100], name)
		copy(h[100:], fmt.Sprintf("%07o\x00", mode&07777))
		copy(h[108:], "0001750\x000001750\x00")
		copy(h[124:], fmt.Sprintf("%011o\x00", size))
		copy(h[136:], fmt.Sprintf("%011o\x00", 1600000000))
		h[156] = typ
		copy(h[157:257], link)
		copy(h[257:], "ustar  \x00")
		copy(h[148:156], "        ")
		sum := 0
		for _, c := range h {
			sum += int(c)
		}
		copy(h[148:], fmt.Sprintf("%06o\x00 ", sum))
		b.Write(h)
	}
	for _, e := range es {
		if e.Type == 0 {
			e.Type = tar.TypeReg
		}
		if e.Mode == 0 {
			e.Mode = 0755
		}
		if len(e.Name) > 100 {
			head("././@LongLink", "", 'L', 0644, len(e.Name)+1)
			b.WriteString(e.Name + "\x00")
			pad()
		}
		if len(e.Link) > 100 {
			head("././@LongLink", "", 'K', 0644, len(e.Link)+1)
			b.WriteString(e.Link + "\x00")
			pad()
		}
		size := 0
		if e.Type == tar.TypeReg {
			size = len(e.Data)
		}
		head(e.Name, e.Link, e.Type, e.Mode, size)
		b.WriteString(e.Data[:size])
		pad()
	}
	b.Write(make([]byte, 1024))
	return b.Bytes()
}

func gz(b []byte) []byte {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(b)
	must(w.Close())
	return z.Bytes()
}

func tarball(es ...tarEntry) []byte { return gz(tarOf(es...)) }

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}
