//gover:file P02
package main

import (
	"io"

	"github.com/go-json-experiment/json"
	"github.com/go-json-experiment/json/jsontext"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// ghostOut records every byte handed to an io.Writer, in order.
var ghostOut string

//gover:stub (io.Writer).Write
func stub_Write(w io.Writer, p []byte) (int, error) {
	ghostOut += string(p)
	return vs.Any[int]("n"), vs.Any[error]("err")
}

//gover:prove P02 nopanic
func verify_WriteMessage(w io.Writer, t headlessMessageType, payload any) {
	vs.Assume(w != nil)
	vs.Assume(ghostOut == "")
	err := writeMessage(w, t, payload)
	body := vs.UF[[]byte]("json.text", payload)
	vs.Assert("fails only for payloads without a JSON form", (err != nil) == vs.UF[bool]("json.unencodable", payload))
	vs.Assert("nothing is written on failure", vs.Imp(err != nil, ghostOut == ""))
	if err == nil {
		n := len(body)
		vs.Assume(n < 1<<32)
		vs.Assert("frame size", len(ghostOut) == 5+n)
		vs.Assert("length prefix is little endian", vs.Byte(ghostOut, 0)+256*vs.Byte(ghostOut, 1)+65536*vs.Byte(ghostOut, 2)+16777216*vs.Byte(ghostOut, 3) == n)
		vs.Assert("type byte", vs.Byte(ghostOut, 4) == int(t))
		vs.Assert("payload bytes", ghostOut[5:] == string(body))
	}
}

// JSON text of a Go value: the value's JSON form, unless it has none, or holds
// text that is not valid UTF-8 and the caller did not allow that.
//
//gover:stub github.com/go-json-experiment/json.Marshal for=verify_WriteMessage
func stub_Marshal(in any, opts ...json.Options) ([]byte, error) {
	lenient := vs.Exists(func(i int) bool {
		return 0 <= i && i < len(opts) && opts[i] == jsontext.AllowInvalidUTF8(true)
	})
	if vs.UF[bool]("json.unencodable", in) || (vs.UF[bool]("json.invalidUTF8", in) && !lenient) {
		e := vs.Any[error]("json.error")
		vs.Assume(e != nil)
		return nil, e
	}
	return vs.UF[[]byte]("json.text", in), nil
}

//gover:stub github.com/go-json-experiment/json/jsontext.AllowInvalidUTF8 for=verify_WriteMessage
func stub_AllowInvalidUTF8(v bool) jsontext.Options {
	return vs.UF[jsontext.Options]("jsontext.AllowInvalidUTF8", v)
}
