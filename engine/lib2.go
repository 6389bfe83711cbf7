package main

// Still more of the standard library: open files, hashes, scanning, types as
// package context compares them, JSON texts that are made compact.

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"go/types"
	"hash/crc32"
	"strconv"
	"strings"
)

type openFile struct {
	data []value
	pos  int
	name value
}

func init() {
	in := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- hashes of known bytes
	known := func(v value, what string) []byte {
		b, _ := v.([]value)
		s, ok := mkStr(b).(string)
		if !ok {
			unsupported(what + " of symbolic bytes")
		}
		return []byte(s)
	}
	arr := func(b []byte) value {
		out := make(array, len(b))
		for i, x := range b {
			out[i] = int64(x)
		}
		return out
	}
	in("crypto/md5.Sum", func(fr *frame, a []value) value { h := md5.Sum(known(a[0], "md5")); return arr(h[:]) })
	in("crypto/sha1.Sum", func(fr *frame, a []value) value { h := sha1.Sum(known(a[0], "sha1")); return arr(h[:]) })
	in("crypto/sha256.Sum256", func(fr *frame, a []value) value { h := sha256.Sum256(known(a[0], "sha256")); return arr(h[:]) })
	in("crypto/sha512.Sum512", func(fr *frame, a []value) value { h := sha512.Sum512(known(a[0], "sha512")); return arr(h[:]) })
	in("hash/crc32.ChecksumIEEE", func(fr *frame, a []value) value {
		return int64(crc32.ChecksumIEEE(known(a[0], "crc32")))
	})

	// ---- runtime
	in("runtime.NumCPU", func(fr *frame, a []value) value { return int64(4) })

	// ---- the environment is empty
	in("os.Getenv", func(fr *frame, a []value) value { return "" })
	in("os.LookupEnv", func(fr *frame, a []value) value { return tuple{"", false} })
	in("os.TempDir", func(fr *frame, a []value) value { return "/tmp" })
	in("os.Getpid", func(fr *frame, a []value) value { return int64(2) })

	// ---- types in package context
	in("internal/reflectlite.TypeOf", func(fr *frame, a []value) value {
		pk := fr.p.w.ex.pkgs["internal/reflectlite"]
		c := new(value)
		*c = a[0]
		return iface{pk.Pkg.Scope().Lookup("rtype").Type(), structure{c}}
	})
	in("(internal/reflectlite.rtype).Comparable", func(fr *frame, a []value) value {
		x := (*a[0].(structure)[0].(*value)).(iface)
		return x.t != nil && types.Comparable(x.t)
	})
	in("(internal/reflectlite.rtype).String", func(fr *frame, a []value) value {
		x := (*a[0].(structure)[0].(*value)).(iface)
		return typeStr(x.t)
	})

	// ---- texts
	in("encoding/json.Compact", func(fr *frame, a []value) value {
		src := a[1].([]value)
		var out value
		if s, ok := mkStr(src).(string); ok {
			var b bytes.Buffer
			if err := json.Compact(&b, []byte(s)); err != nil {
				return fr.p.newError(fr, err.Error())
			}
			out = b.String()
		} else if _, ok := blobOf(src); ok {
			out = mkStr(src) // written by Marshal, so there is no space in it
		} else {
			unsupported("json.Compact of symbolic text")
		}
		w := fr.p.w.method(types.NewPointer(fr.p.w.ex.pkgs["bytes"].Pkg.Scope().Lookup("Buffer").Type()), nil, "Write")
		fr.p.call(fr, fr.g, w, []value{a[0], strBytes(out)})
		return iface{}
	})
	in("(time.Time).Format", func(fr *frame, a []value) value { return fr.p.opaqueStr("time", timeOf(a[0])) })
	in("(time.Time).String", func(fr *frame, a []value) value { return fr.p.opaqueStr("time", timeOf(a[0])) })
	scan := func(f func(text string, into []interface{}) (int, error), ptrs func(a []value) []value) intrinsic {
		return func(fr *frame, a []value) value {
			s, ok := a[0].(string)
			if !ok {
				unsupported("scanning symbolic text")
			}
			var into []interface{}
			var cells []*value
			for _, v := range ptrs(a) {
				x := v.(iface)
				pt, ok := x.t.Underlying().(*types.Pointer)
				if !ok {
					unsupported("scanning into %s", x.t)
				}
				switch pt.Elem().Underlying().(*types.Basic).Kind() {
				case types.Int, types.Int64:
					into = append(into, new(int64))
				case types.String:
					into = append(into, new(string))
				case types.Float64:
					into = append(into, new(float64))
				default:
					unsupported("scanning into %s", x.t)
				}
				cells = append(cells, x.v.(*value))
			}
			n, err := f(s, into)
			for i, p := range into {
				if i >= n {
					break
				}
				switch p := p.(type) {
				case *int64:
					*cells[i] = *p
				case *string:
					*cells[i] = *p
				case *float64:
					*cells[i] = *p
				}
			}
			if err != nil {
				return tuple{int64(n), fr.p.newError(fr, err.Error())}
			}
			return tuple{int64(n), iface{}}
		}
	}
	in("fmt.Sscan", scan(func(s string, into []interface{}) (int, error) { return fmt.Sscan(s, into...) }, func(a []value) []value { return a[1].([]value) }))
	in("fmt.Sscanln", scan(func(s string, into []interface{}) (int, error) { return fmt.Sscanln(s, into...) }, func(a []value) []value { return a[1].([]value) }))
	in("fmt.Sscanf", func(fr *frame, a []value) value {
		format, ok := a[1].(string)
		if !ok {
			unsupported("scanning with a symbolic format")
		}
		return scan(func(s string, into []interface{}) (int, error) { return fmt.Sscanf(s, format, into...) }, func(a []value) []value { return a[2].([]value) })(fr, a)
	})

	num := func(fr *frame, a []value) (value, bool) {
		if t, ok := a[0].(string); ok {
			f, err := strconv.ParseFloat(t, 64)
			return f, err == nil
		}
		if t, ok := a[0].(*sstr); ok && len(t.b) == 1 {
			if o, ok := t.b[0].(*opaque); ok && o.what == "number text" {
				return o.v, true
			}
		}
		unsupported("value of a number text")
		return nil, false
	}
	in("(encoding/json.Number).String", func(fr *frame, a []value) value { return a[0] })
	in("(encoding/json.Number).Float64", func(fr *frame, a []value) value {
		f, ok := num(fr, a)
		if !ok {
			return tuple{float64(0), fr.p.newError(fr, "strconv.ParseFloat: parsing number")}
		}
		return tuple{f, iface{}}
	})
	in("(encoding/json.Number).Int64", func(fr *frame, a []value) value {
		t, ok := a[0].(string)
		if !ok {
			unsupported("integer of a number text")
		}
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			return tuple{n, fr.p.newError(fr, err.Error())}
		}
		return tuple{n, iface{}}
	})

	// ---- readers of texts that are not known are read at once
	readAll := func(fr *frame, a []value) (value, bool) {
		r := a[0].(iface)
		if r.t == nil || typeStr(r.t) != "*strings.Reader" {
			return nil, false
		}
		st := (*r.v.(*value)).(structure)
		s, ok := st[0].(*sstr)
		if !ok || st[1] != int64(0) || !hasOpaque(s.bytes()) {
			return nil, false
		}
		b := append([]value(nil), s.bytes()...)
		st[0] = ""
		return tuple{b, iface{}}, true
	}
	// text of unknown length is written as bytes, which have a number
	softIntrinsics["(*bytes.Buffer).WriteString"] = writeStringAsBytes
	softIntrinsics["(*bufio.Writer).WriteString"] = writeStringAsBytes
	softIntrinsics["io.ReadAll"] = readAll
	softIntrinsics["io/ioutil.ReadAll"] = readAll

	// ---- files
	open := func(fr *frame, a []value) value {
		text, ok := fr.p.file(a[0])
		if !ok {
			return tuple{(*value)(nil), fr.p.newError(fr, concat("open ", concat(a[0], ": no such file or directory")))}
		}
		c := new(value)
		*c = structure{}
		fr.p.side[c] = &openFile{data: strBytes(text), name: a[0]}
		return tuple{c, iface{}}
	}
	in("os.Open", open)
	in("os.OpenFile", func(fr *frame, a []value) value {
		if fr.p.concInt(a[1]) != 0 {
			unsupported("os.OpenFile to write")
		}
		return open(fr, a)
	})
	of := func(fr *frame, v value) *openFile {
		c, _ := v.(*value)
		if c == nil {
			unsupported("use of a nil file")
		}
		f, ok := fr.p.side[c].(*openFile)
		if !ok {
			unsupported("file that was not opened")
		}
		return f
	}
	in("(*os.File).Close", func(fr *frame, a []value) value { return iface{} })
	in("(*os.File).Name", func(fr *frame, a []value) value { return of(fr, a[0]).name })
	in("(*os.File).Read", func(fr *frame, a []value) value {
		f, b := of(fr, a[0]), a[1].([]value)
		if f.pos >= len(f.data) && len(b) > 0 {
			return tuple{int64(0), *fr.p.global(fr.p.w.ex.pkgs["io"].Var("EOF"))}
		}
		n := copy(b, f.data[f.pos:])
		f.pos += n
		return tuple{int64(n), iface{}}
	})
	write := func(fr *frame, a []value) value {
		c, _ := a[0].(*value)
		if c == nil {
			unsupported("use of a nil file")
		}
		if _, ok := fr.p.side[c].(*openFile); ok {
			unsupported("writing to a file")
		}
		s := a[1]
		if b, ok := s.([]value); ok {
			s = mkStr(b)
		}
		if c == fr.p.stderr {
			return tuple{int64(len(strBytes(s))), iface{}}
		}
		return fr.p.stdoutWrite(fr, s)
	}
	in("(*os.File).Write", write)
	in("(*os.File).WriteString", write)
	in("(*os.File).Sync", func(fr *frame, a []value) value { return iface{} })
	info := func(fr *frame, name value, data []value) value {
		pk := fr.p.w.ex.pkgs["os"]
		t := pk.Pkg.Scope().Lookup("fileStat").Type()
		st := zero(t).(structure)
		for i, u := 0, t.Underlying().(*types.Struct); i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "name":
				st[i] = name
			case "size":
				st[i] = int64(len(data))
			case "mode":
				st[i] = int64(0644)
			}
		}
		c := new(value)
		*c = st
		return tuple{iface{types.NewPointer(t), c}, iface{}}
	}
	stat := func(fr *frame, a []value) value {
		text, ok := fr.p.file(a[0])
		if !ok {
			return tuple{iface{}, fr.p.newError(fr, concat("stat ", concat(a[0], ": no such file or directory")))}
		}
		return info(fr, a[0], strBytes(text))
	}
	in("os.Stat", stat)
	in("os.Lstat", stat)
	in("(*os.File).Stat", func(fr *frame, a []value) value { f := of(fr, a[0]); return info(fr, f.name, f.data) })
	in("os.IsNotExist", func(fr *frame, a []value) value {
		e := a[0].(iface)
		if e.t == nil {
			return false
		}
		s, ok := fr.p.call(fr, fr.g, fr.p.w.method(e.t, nil, "Error"), []value{e.v}).(string)
		return ok && strings.HasSuffix(s, "no such file or directory")
	})
}

func writeStringAsBytes(fr *frame, a []value) (value, bool) {
	s, ok := a[1].(*sstr)
	if !ok {
		return nil, false
	}
	for _, b := range s.b {
		if _, ok := b.(*opaque); ok {
			fn := fr.p.w.method(fr.fi.fn.Signature.Recv().Type(), nil, "Write")
			return fr.p.call(fr, fr.g, fn, []value{a[0], append([]value(nil), s.b...)}), true
		}
	}
	return nil, false
}
