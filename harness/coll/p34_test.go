package coll

import (
	"bytes"
	"errors"
	"math"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/xbinary"
	"pgregory.net/rapid"
)

func genUint(t *rapid.T) uint64 {
	if rapid.Bool().Draw(t, "edge") {
		s := rapid.IntRange(0, 64).Draw(t, "shift")
		v := uint64(0)
		if s < 64 {
			v = 1 << s
		}
		return v + uint64(rapid.IntRange(-1, 1).Draw(t, "delta"))
	}
	return rapid.Uint64().Draw(t, "v")
}

func genBytes(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 5, 126, 127, 128, 129, 16383, 16384}).Draw(t, "len")
	b := make([]byte, n)
	x := rapid.Byte().Draw(t, "fill")
	for i := range b {
		b[i] = x + byte(i*7)
	}
	return b
}

type codec struct {
	name string
	size int
	enc  func(buf []byte) (int, error)
	// dec checks the value and whether it is a copy
	dec   func(buf []byte) (n int, equal bool, err error)
	write func(w *xbinary.ObjectsWriter) (int, error)
}

func genCodec(t *rapid.T) codec {
	switch rapid.SampledFrom([]string{"byte", "u16", "u32", "u64", "uint", "bytes", "string"}).Draw(t, "codec") {
	case "byte":
		v := byte(genUint(t))
		return codec{"byte", 1, func(b []byte) (int, error) { return xbinary.MarshalByte(v, b) },
			func(b []byte) (int, bool, error) { n, r, e := xbinary.UnmarshalByte(b); return n, r == v, e },
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteByte(v) }}
	case "u16":
		v := uint16(genUint(t))
		return codec{"u16", 2, func(b []byte) (int, error) { return xbinary.MarshalUint16(v, b) },
			func(b []byte) (int, bool, error) { n, r, e := xbinary.UnmarshalUint16(b); return n, r == v, e },
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteUint16(v) }}
	case "u32":
		v := uint32(genUint(t))
		return codec{"u32", 4, func(b []byte) (int, error) { return xbinary.MarshalUint32(v, b) },
			func(b []byte) (int, bool, error) { n, r, e := xbinary.UnmarshalUint32(b); return n, r == v, e },
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteUint32(v) }}
	case "u64":
		v := genUint(t)
		return codec{"u64", 8, func(b []byte) (int, error) { return xbinary.MarshalUint64(v, b) },
			func(b []byte) (int, bool, error) { n, r, e := xbinary.UnmarshalUint64(b); return n, r == v, e },
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteUint64(v) }}
	case "uint":
		v := uint(genUint(t))
		return codec{"uint", xbinary.WritableUintSize(uint64(v)), func(b []byte) (int, error) { return xbinary.MarshalUint(v, b) },
			func(b []byte) (int, bool, error) { n, r, e := xbinary.UnmarshalUint(b); return n, r == v, e },
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteUint(v) }}
	case "bytes":
		v, newBuf := genBytes(t), rapid.Bool().Draw(t, "newBuf")
		return codec{"bytes", xbinary.WritebleBytesSize(v), func(b []byte) (int, error) { return xbinary.MarshalBytes(v, b) },
			func(b []byte) (int, bool, error) {
				n, r, e := xbinary.UnmarshalBytes(b, newBuf)
				if e == nil && newBuf && len(r) > 0 {
					old := bytes.Clone(b)
					for i := range r {
						r[i] ^= 0x55
					}
					if !bytes.Equal(old, b) {
						return n, false, errors.New("the copy aliases the buffer")
					}
					for i := range r {
						r[i] ^= 0x55
					}
				}
				return n, bytes.Equal(r, v), e
			},
			func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteBytes(v) }}
	}
	v, newBuf := string(genBytes(t)), rapid.Bool().Draw(t, "newBuf")
	return codec{"string", xbinary.WritableStringSize(v), func(b []byte) (int, error) { return xbinary.MarshalString(v, b) },
		func(b []byte) (int, bool, error) {
			n, r, e := xbinary.UnmarshalString(b, newBuf)
			if e == nil && newBuf {
				for i := range b {
					b[i] ^= 0x55
				}
				eq := r == v
				for i := range b {
					b[i] ^= 0x55
				}
				return n, eq, nil
			}
			return n, r == v, e
		},
		func(w *xbinary.ObjectsWriter) (int, error) { return w.WriteString(v) }}
}

// TestRoundTrip: P34 - sequences of values in one buffer
func TestRoundTrip(t *testing.T) {
	ev.Check(t, "at least two values in a sequence", func(t *rapid.T) {
		var cs []codec
		total := 0
		names := ""
		for n := rapid.IntRange(1, 5).Draw(t, "values"); n > 0; n-- {
			c := genCodec(t)
			cs = append(cs, c)
			total += c.size
			names += " " + c.name
		}
		const guard = 0xA5
		buf := bytes.Repeat([]byte{guard}, total+8)
		var out bytes.Buffer
		ow := &xbinary.ObjectsWriter{Writer: &out}
		pos := 0
		for i, c := range cs {
			// too small buffers
			short := rapid.IntRange(0, c.size-1).Draw(t, "short")
			if n, err := c.enc(make([]byte, short)); err == nil {
				t.Fatalf("value #%d (%s) of %d bytes is encoded into %d bytes: %d", i, c.name, c.size, short, n)
			}
			n, err := c.enc(buf[pos : total : total+8])
			if err != nil || n != c.size {
				t.Fatalf("value #%d (%s): encoded %d bytes, announced %d: %v", i, c.name, n, c.size, err)
			}
			if n, err := c.write(ow); err != nil || n != c.size {
				t.Fatalf("value #%d (%s): written %d bytes, announced %d: %v", i, c.name, n, c.size, err)
			}
			pos += n
			for j := pos; j < len(buf); j++ {
				if buf[j] != guard {
					t.Fatalf("value #%d (%s): the byte %d after the value is touched", i, c.name, j-pos)
				}
			}
		}
		if !bytes.Equal(out.Bytes(), buf[:total]) {
			t.Fatalf("written and marshaled bytes are different: %x and %x", out.Bytes(), buf[:total])
		}
		pos = 0
		for i, c := range cs {
			if n, _, err := c.dec(buf[pos : pos+rapid.IntRange(0, c.size-1).Draw(t, "cut")]); err == nil {
				t.Fatalf("value #%d (%s): the truncated value is decoded from %d bytes", i, c.name, n)
			}
			n, eq, err := c.dec(buf[pos:total])
			if err != nil || n != c.size || !eq {
				t.Fatalf("value #%d (%s): decoded %d bytes of %d, equal=%t: %v", i, c.name, n, c.size, eq, err)
			}
			pos += n
		}
		ev.Case(t, len(cs) > 1, "%s: %.60x", names, buf[:total])
	})
}

// refUvarint is the reference of variable-length integers: ok is false if the bytes are truncated or the value doesn't fit
func refUvarint(b []byte) (n int, v uint64, ok bool) {
	for i, c := range b {
		x := uint64(c & 127)
		if i < 10 && i*7 < 64 {
			if i == 9 && x > 1 {
				return 0, 0, false
			}
			v |= x << (7 * i)
		} else if x != 0 {
			return 0, 0, false
		}
		if c < 128 {
			return i + 1, v, true
		}
	}
	return 0, 0, false
}

// TestMalformed: P34 - any bytes
func TestMalformed(t *testing.T) {
	ev.Check(t, "the first byte of the input starts a multi-byte integer", func(t *rapid.T) {
		var in []byte
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			in = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
		case 1: // a long integer
			in = bytes.Repeat([]byte{rapid.SampledFrom([]byte{0x80, 0xff, 0x81}).Draw(t, "rep")}, rapid.IntRange(0, 12).Draw(t, "n"))
			in = append(in, rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "tail")...)
		default: // a huge or wrong length and some bytes
			l := rapid.SampledFrom([]uint64{0, 1, 5, 20, math.MaxInt32, math.MaxInt64 - 12, math.MaxInt64 - 9, math.MaxInt64 - 8, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 9, math.MaxUint64}).Draw(t, "len")
			l += uint64(rapid.IntRange(0, 2).Draw(t, "add"))
			for l > 127 {
				in = append(in, byte(l)|128)
				l >>= 7
			}
			in = append(in, byte(l))
			in = append(in, rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "body")...)
		}
		in = in[:len(in):len(in)]
		orig := bytes.Clone(in)
		fail := func(f string, a ...any) { t.Helper(); t.Fatalf("input %x: "+f, append([]any{orig}, a...)...) }

		n, v, err := xbinary.UnmarshalUint(in)
		rn, rv, ok := refUvarint(in)
		if ok && rn <= 10 {
			if err != nil || n != rn || uint64(v) != rv {
				fail("UnmarshalUint returns %d %d %v, expected %d %d", n, v, err, rn, rv)
			}
		} else if err == nil && (!ok || n != rn || uint64(v) != rv) {
			fail("UnmarshalUint returns %d %d, expected an error", n, v)
		}
		newBuf := rapid.Bool().Draw(t, "newBuf")
		bn, bv, err := xbinary.UnmarshalBytes(in, newBuf)
		if ok && rn <= 10 && rv <= uint64(len(in)-rn) {
			if err != nil || bn != rn+int(rv) || !bytes.Equal(bv, in[rn:rn+int(rv)]) {
				fail("UnmarshalBytes returns %d %x %v", bn, bv, err)
			}
		} else if err == nil && (!ok || rv > uint64(len(in)-rn)) {
			fail("UnmarshalBytes returns %d %x, expected an error", bn, bv)
		}
		sn, sv, serr := xbinary.UnmarshalString(in, newBuf)
		if (serr == nil) != (err == nil) || err == nil && (sn != bn || sv != string(bv)) {
			fail("UnmarshalString returns %d %q %v, UnmarshalBytes %d %q %v", sn, sv, serr, bn, bv, err)
		}
		for _, f := range []struct {
			sz  int
			dec func() (int, uint64, error)
		}{
			{1, func() (int, uint64, error) { n, v, e := xbinary.UnmarshalByte(in); return n, uint64(v), e }},
			{2, func() (int, uint64, error) { n, v, e := xbinary.UnmarshalUint16(in); return n, uint64(v), e }},
			{4, func() (int, uint64, error) { n, v, e := xbinary.UnmarshalUint32(in); return n, uint64(v), e }},
			{8, func() (int, uint64, error) { return xbinary.UnmarshalUint64(in) }},
		} {
			n, v, err := f.dec()
			if len(in) < f.sz {
				if err == nil {
					fail("%d bytes integer is read", f.sz)
				}
				continue
			}
			var want uint64
			for _, c := range in[:f.sz] {
				want = want<<8 | uint64(c)
			}
			if err != nil || n != f.sz || v != want {
				fail("%d bytes integer: %d %d %v, expected %d", f.sz, n, v, err, want)
			}
		}
		if !bytes.Equal(in, orig) {
			fail("the input is changed: %x", in)
		}
		ev.Case(t, len(in) > 0 && in[0] > 127, "%x", orig)
	})
}
