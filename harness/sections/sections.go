// Package sections states the properties of the custom section reader.
package sections

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
)

var header = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}

// leb is v in LEB128, in at least n bytes.
func leb(v uint32, n int) []byte {
	var b []byte
	for v >= 0x80 || len(b)+1 < n {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

type section struct {
	name string
	data []byte
}

// ascii is an arbitrary valid string.
func ascii(name string, max int) string {
	s := sv.String(name, max)
	for i := 0; i < max; i++ {
		if i < len(s) {
			sv.Assume(s[i] < 0x80)
		}
	}
	return s
}

// Modules reads well-formed modules.
//
//sv:harness prop=C70 time=60
//sv:bound 2 sections (3 in the thorough tier), each a custom section with one of two wanted names, an unwanted name or any ASCII name of up to 2 bytes, or another section of any kind; contents of up to 3 arbitrary bytes; sizes in 1, 2 or 5 bytes
func Modules() {
	n := 2
	if sv.Deep() {
		n = 3
	}
	wide := []int{1, 2, 5}[sv.Choose("wide", 3)]
	mod := append([]byte{}, header...)
	want := map[string][]byte{}
	for i := sv.Choose("sections", n+1); i > 0; i-- {
		body := sv.Bytes("body", 3)
		kind := sv.Choose("kind", 5)
		name := ""
		switch kind {
		case 0:
			name = "ops"
		case 1:
			name = "é"
		case 2:
			name = "opsx"
		case 3:
			name = ascii("name", 2)
		}
		var content []byte
		if kind < 4 {
			content = append(leb(uint32(len(name)), wide), name...)
			mod = append(mod, 0)
		} else {
			id := sv.U8("id")
			sv.Assume(id != 0)
			mod = append(mod, id)
		}
		if kind == 0 || kind == 1 {
			want[name] = body
		}
		content = append(content, body...)
		mod = append(mod, leb(uint32(len(content)), wide)...)
		mod = append(mod, content...)
	}
	cp := append([]byte{}, mod...)
	got, err := customsections.Read(mod, "ops", "é", "missing")
	sv.Assert(err == nil, "error")
	sv.Assert(len(got) == len(want), "count")
	for name, body := range want {
		s := got[name]
		sv.Assert(s != nil && s.Name == name, "name")
		sv.SameBytes(s.Data, body, "data")
		sv.Reach("wanted")
	}
	sv.SameBytes(mod, cp, "touched")
	sv.Reach("module")
}

// Wanted reads a section by a name.
//
//sv:harness prop=C70 time=60
//sv:bound any wanted ASCII name and any name in the module of up to 3 bytes; contents of up to 70000 bytes
func Wanted() {
	w, name := ascii("wanted", 3), ascii("name", 3)
	data := sv.Bytes("data", 70000)
	mod := append([]byte{}, header...)
	size := uint32(1 + len(name) + len(data))
	mod = append(mod, 0, byte(size)|0x80, byte(size>>7)|0x80, byte(size>>14))
	mod = append(mod, byte(len(name)))
	mod = append(mod, name...)
	mod = append(mod, data...)
	mod = append(mod, 1, 0)
	got, err := customsections.Read(mod, w)
	sv.Assert(err == nil, "error")
	if w == name {
		sv.Assert(len(got) == 1 && got[name] != nil && got[name].Name == name, "found")
		sv.SameBytes(got[name].Data, data, "data")
		sv.Reach("found")
	} else {
		sv.Assert(len(got) == 0, "unwanted")
		sv.Reach("unwanted")
	}
}

// number decodes a LEB128 number of 32 bits.
func number(b []byte) (v uint32, rest []byte, ok bool) {
	for i := 0; i < 5 && i < len(b); i++ {
		if i == 4 && b[i] > 15 {
			return 0, nil, false
		}
		v |= uint32(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, b[i+1:], true
		}
	}
	return 0, nil, false
}

// Arbitrary reads arbitrary bytes.
//
//sv:harness prop=C70 time=60 dtime=400 conc=300
//sv:bound any 8 bytes; and any 7 bytes (9 in the thorough tier) after a correct header; names are ASCII
func Arbitrary() {
	if sv.Bool("any") {
		b := sv.Bytes("b", 8)
		sv.AllocLimit(1 << 13)
		_, err := customsections.Read(b, "a")
		sv.AllocLimit(0)
		good := len(b) == 8
		for i := range header {
			good = good && b[i] == header[i]
		}
		sv.Assert((err == nil) == good, "header")
		sv.Reach("header")
		return
	}
	max := 7
	if sv.Deep() {
		max = 9
	}
	b := sv.Bytes("b", max)
	want := map[string][]byte{}
	ok := true
	for rest := b; ok && len(rest) > 0; {
		id := rest[0]
		var n uint32
		n, rest, ok = number(rest[1:])
		if !ok || uint64(n) > uint64(len(rest)) {
			ok = false
			break
		}
		content := rest[:n]
		rest = rest[n:]
		if id != 0 {
			continue
		}
		k, body, good := number(content)
		if !good || uint64(k) > uint64(len(body)) {
			ok = false
			break
		}
		for i := uint32(0); i < k; i++ {
			sv.Assume(body[i] < 0x80)
		}
		if k == 1 && body[0] == 'a' {
			want["a"] = body[1:]
		}
		if k == 0 {
			want[""] = body
		}
	}
	sv.AllocLimit(1 << 13)
	got, err := customsections.Read(append(append([]byte{}, header...), b...), "a", "")
	sv.AllocLimit(0)
	sv.Assert((err == nil) == ok, "accepted")
	if err != nil {
		sv.Reach("rejected")
		return
	}
	sv.Assert(len(got) == len(want), "count")
	for name, body := range want {
		s := got[name]
		sv.Assert(s != nil && s.Name == name, "name")
		sv.SameBytes(s.Data, body, "data")
	}
	sv.Reach("accepted")
}

// Names reads names that are or are not valid UTF-8.
//
//sv:harness prop=C70 time=60
//sv:bound any name of up to 2 bytes, and 3 and 4 bytes with the given lead byte
func Names() {
	var name []byte
	valid := true
	cont := func(c byte) bool { return c >= 0x80 && c < 0xc0 }
	switch sv.Choose("form", 4) {
	case 0:
		name = sv.BytesN("c", 1)
		valid = name[0] < 0x80
	case 1:
		name = sv.BytesN("c", 2)
		valid = sv.Or(sv.And(name[0] < 0x80, name[1] < 0x80), sv.And(sv.And(name[0] >= 0xc2, name[0] < 0xe0), cont(name[1])))
	case 2:
		c := sv.BytesN("c", 2)
		name = append([]byte{0xe2}, c...)
		valid = sv.And(cont(c[0]), cont(c[1]))
	case 3:
		c := sv.BytesN("c", 3)
		name = append([]byte{0xf1}, c...)
		valid = sv.And(cont(c[0]), sv.And(cont(c[1]), cont(c[2])))
	}
	mod := append(append([]byte{}, header...), 0, byte(len(name)+1), byte(len(name)))
	mod = append(mod, name...)
	_, err := customsections.Read(mod, "x")
	sv.Assert((err == nil) == valid, "valid")
	sv.Reach("name")
}

// Truncated cuts a module off.
//
//sv:harness prop=C70
//sv:bound a module with two sections of arbitrary contents of 3 bytes cut anywhere
func Truncated() {
	mod := append([]byte{}, header...)
	mod = append(mod, 0, 5, 1, 'a')
	mod = append(mod, sv.BytesN("data", 3)...)
	mod = append(mod, 1, 3)
	mod = append(mod, sv.BytesN("more", 3)...)
	n := sv.Choose("length", len(mod)+1)
	got, err := customsections.Read(mod[:n], "a")
	whole := n == 8 || n == 15 || n == len(mod)
	sv.Assert((err == nil) == whole, "error")
	if whole && n > 8 {
		sv.Assert(len(got) == 1, "kept")
	}
	sv.Reach("cut")
}
