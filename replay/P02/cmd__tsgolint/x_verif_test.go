package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"strings"
	"testing"
)

func TestReplayFraming(t *testing.T) {
	mk := func(n int) headlessMessagePayloadError { return headlessMessagePayloadError{Error: strings.Repeat("x", n)} }
	type c struct {
		t headlessMessageType
		p any
	}
	var cases []c
	for _, n := range []int{0, 1, 100, 115, 116, 117, 200, 243, 244, 245, 246, 255, 256, 257, 1000, 4000, 4083, 4084, 4085, 4096, 32767, 65523, 65524, 65525, 65535, 65536, 70000, 1 << 20, 1<<24 - 13, 1<<24 - 12, 1<<24 - 11, 1 << 24} {
		cases = append(cases, c{headlessMessageTypeError, mk(n)}, c{headlessMessageTypeDiagnostic, mk(n)})
	}
	path := "/a\xffb.ts"
	cases = append(cases,
		c{headlessMessageTypeTiming, headlessTimingPayload{}},
		c{headlessMessageTypeTiming, headlessTimingPayload{Rules: []headlessRuleTiming{{"r", 1, 2}}}},
		c{headlessMessageTypeDiagnostic, headlessDiagnostic{}},
		c{headlessMessageTypeDiagnostic, headlessDiagnostic{FilePath: &path}},
		c{headlessMessageTypeError, mk(0)},
		c{headlessMessageTypeError, headlessMessagePayloadError{Error: "é\xfe\xff\n\r\n\x00\""}},
	)
	var all bytes.Buffer
	for _, c := range cases {
		var b bytes.Buffer
		if err := writeMessage(&b, c.t, c.p); err != nil {
			t.Fatalf("writeMessage(%d, %.80q) failed: %v", c.t, c.p, err)
		}
		check(t, c.t, b.Bytes(), c.p)
		if err := writeMessage(&all, c.t, c.p); err != nil {
			t.Fatal(err)
		}
	}
	// back to back on one stream
	rest := all.Bytes()
	for i, c := range cases {
		if len(rest) < 5 {
			t.Fatalf("stream ends before frame %d", i)
		}
		n := int(binary.LittleEndian.Uint32(rest))
		if len(rest) < 5+n {
			t.Fatalf("frame %d claims %d bytes, %d are left", i, n, len(rest)-5)
		}
		check(t, c.t, rest[:5+n], c.p)
		rest = rest[5+n:]
	}
	if len(rest) != 0 {
		t.Fatalf("%d bytes after the last frame", len(rest))
	}
	var b bytes.Buffer
	if err := writeMessage(&b, headlessMessageTypeError, make(chan int)); err == nil || b.Len() != 0 {
		t.Fatalf("unencodable payload: error %v, %d bytes written", err, b.Len())
	}
}

func check(t *testing.T, mt headlessMessageType, f []byte, p any) {
	if len(f) < 5 || int(binary.LittleEndian.Uint32(f)) != len(f)-5 {
		t.Fatalf("frame of %.60q: %d bytes, header % x", p, len(f), f[:min(5, len(f))])
	}
	if f[4] != byte(mt) {
		t.Fatalf("frame type %d, want %d", f[4], mt)
	}
	if !json.Valid(f[5:]) {
		t.Fatalf("payload of %.60q is not one JSON value: %.120q", p, f[5:])
	}
	if e, ok := p.(headlessMessagePayloadError); ok {
		var g struct {
			Error string `json:"error"`
		}
		if err := json.Unmarshal(f[5:], &g); err != nil || g.Error != strings.ToValidUTF8(e.Error, "�") && len(g.Error) < len(e.Error) {
			t.Fatalf("payload %.80q for %.80q: %v", f[5:], e.Error, err)
		}
	}
}
