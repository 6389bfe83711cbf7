package main

import (
	"bytes"
	"encoding/json"
	"io"
	"strings"
)

// encoding/json beyond Marshal and Unmarshal, as far as whole values go.

type jsonEnc struct {
	w              iface
	raw            bool
	prefix, indent string
}

type jsonDec struct {
	r             iface
	read, numbers bool
	buf           []value
}

func addJSONStream() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }
	in("encoding/json.NewEncoder", func(fr *frame, a []value) value {
		c := new(value)
		*c = structure{}
		fr.p.side[c] = &jsonEnc{w: a[0].(iface)}
		return c
	})
	enc := func(fr *frame, v value) *jsonEnc {
		e, ok := fr.p.side[v.(*value)].(*jsonEnc)
		if !ok {
			unsupported("json.Encoder built outside the engine")
		}
		return e
	}
	in("(*encoding/json.Encoder).SetEscapeHTML", func(fr *frame, a []value) value {
		enc(fr, a[0]).raw = !fr.p.truth(a[1])
		return nil
	})
	in("(*encoding/json.Encoder).SetIndent", func(fr *frame, a []value) value {
		e := enc(fr, a[0])
		e.prefix, e.indent = a[1].(string), a[2].(string)
		return nil
	})
	in("(*encoding/json.Encoder).Encode", func(fr *frame, a []value) value {
		p, e := fr.p, enc(fr, a[0])
		var text []value
		if h, ok := p.toHost(a[1].(iface)); ok {
			var b bytes.Buffer
			n := json.NewEncoder(&b)
			n.SetEscapeHTML(!e.raw)
			n.SetIndent(e.prefix, e.indent)
			if err := n.Encode(h); err != nil {
				return p.newError(fr, err.Error())
			}
			text = strBytes(b.String())
		} else {
			r := jsonMarshal(fr, a[1:]).(tuple)
			if r[1].(iface).t != nil {
				return r[1]
			}
			text = append(append([]value(nil), r[0].([]value)...), int64('\n'))
		}
		return p.writeTo(fr, e.w, mkStr(text)).(tuple)[1]
	})
	in("encoding/json.MarshalIndent", func(fr *frame, a []value) value {
		if h, ok := fr.p.toHost(a[0].(iface)); ok {
			b, err := json.MarshalIndent(h, a[1].(string), a[2].(string))
			if err != nil {
				return tuple{[]value(nil), fr.p.newError(fr, err.Error())}
			}
			return tuple{strBytes(string(b)), iface{}}
		}
		return jsonMarshal(fr, a[:1])
	})
	in("encoding/json.Valid", func(fr *frame, a []value) value {
		b := a[0].([]value)
		if _, ok := blobOf(b); ok {
			return true
		}
		s, ok := mkStr(b).(string)
		if !ok {
			unsupported("json.Valid of symbolic text")
		}
		return json.Valid([]byte(s))
	})
	in("encoding/json.NewDecoder", func(fr *frame, a []value) value {
		c := new(value)
		*c = structure{}
		fr.p.side[c] = &jsonDec{r: a[0].(iface)}
		return c
	})
	dec := func(fr *frame, v value) *jsonDec {
		d, ok := fr.p.side[v.(*value)].(*jsonDec)
		if !ok {
			unsupported("json.Decoder built outside the engine")
		}
		if !d.read {
			r := fr.p.call(fr, fr.g, fr.p.w.ex.pkgs["io"].Func("ReadAll"), []value{d.r}).(tuple)
			if r[1].(iface).t != nil {
				unsupported("json.Decoder over a failing reader")
			}
			d.read, d.buf = true, r[0].([]value)
		}
		return d
	}
	in("(*encoding/json.Decoder).UseNumber", func(fr *frame, a []value) value { dec(fr, a[0]).numbers = true; return nil })
	in("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *frame, a []value) value { return nil })
	in("(*encoding/json.Decoder).More", func(fr *frame, a []value) value {
		d := dec(fr, a[0])
		if _, ok := blobOf(d.buf); ok {
			return true
		}
		s, ok := mkStr(d.buf).(string)
		if !ok {
			unsupported("json.Decoder over symbolic text")
		}
		return strings.TrimSpace(s) != ""
	})
	in("(*encoding/json.Decoder).Decode", func(fr *frame, a []value) value {
		p, d := fr.p, dec(fr, a[0])
		if _, ok := blobOf(d.buf); ok {
			b := d.buf
			d.buf = nil
			return jsonDecode(fr, []value{b, a[1]}, d.numbers)
		}
		s, ok := mkStr(d.buf).(string)
		if !ok {
			unsupported("json.Decoder over symbolic text")
		}
		n := json.NewDecoder(strings.NewReader(s))
		var raw json.RawMessage
		if err := n.Decode(&raw); err != nil {
			if err == io.EOF {
				return *p.global(p.w.ex.pkgs["io"].Var("EOF"))
			}
			return p.newError(fr, err.Error())
		}
		d.buf = strBytes(s[n.InputOffset():])
		return jsonDecode(fr, []value{strBytes(string(raw)), a[1]}, d.numbers)
	})
}
