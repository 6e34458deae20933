package coll

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/cast"
	"github.com/solarisdb/solaris/golibs/container"
	"github.com/solarisdb/solaris/golibs/strutil"
	"pgregory.net/rapid"
)

func genInts(t *rapid.T, name string) []int {
	if rapid.IntRange(0, 9).Draw(t, name+"Nil") == 0 {
		return nil
	}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 49, 50, 51, 64, 65, 100, 127, 200}).Draw(t, name+"Len")
	if n > 8 {
		// a long one
		k := rapid.IntRange(1, 250).Draw(t, name+"Mod")
		res := make([]int, n)
		for i := range res {
			res[i] = i * 7 % k
		}
		return res
	}
	return rapid.SliceOfN(rapid.IntRange(0, 5), n, n).Draw(t, name)
}

func set(s []int) map[int]bool {
	m := map[int]bool{}
	for _, v := range s {
		m[v] = true
	}
	return m
}

func sorted(s []int) []int {
	s = slices.Clone(s)
	sort.Ints(s)
	return s
}

func dups(s []int) bool { return len(set(s)) != len(s) }

// TestSlices: P42
func TestSlices(t *testing.T) {
	ev.Check(t, "the first slice has duplicates or at least 50 elements", func(t *rapid.T) {
		a, b := genInts(t, "a"), genInts(t, "b")
		a0, b0 := slices.Clone(a), slices.Clone(b)
		fail := func(f string, args ...any) {
			t.Helper()
			t.Fatalf("a=%v b=%v: %s", a0, b0, fmt.Sprintf(f, args...))
		}
		same := func(what string) {
			t.Helper()
			if !slices.Equal(a, a0) || !slices.Equal(b, b0) {
				fail("%s changed the arguments: %v %v", what, a, b)
			}
		}
		v := rapid.IntRange(-1, 6).Draw(t, "v")
		want := slices.Index(a, v)
		if got := container.IndexOf(a, v); got != want {
			fail("IndexOf(%d)=%d", v, got)
		}
		if got := container.IndexOfAny(a, v, func(x, y int) bool { return x == y }); got != want {
			fail("IndexOfAny(%d)=%d", v, got)
		}
		sa, sb := set(a), set(b)
		m := container.MergeSlicesUnique(a, b)
		all := map[int]bool{}
		common, onlyA, onlyB := map[int]bool{}, map[int]bool{}, map[int]bool{}
		for x := range sa {
			all[x] = true
			if sb[x] {
				common[x] = true
			} else {
				onlyA[x] = true
			}
		}
		for x := range sb {
			all[x] = true
			if !sa[x] {
				onlyB[x] = true
			}
		}
		if dups(m) || !reflect.DeepEqual(set(m), all) {
			fail("MergeSlicesUnique: %v", m)
		}
		if m = container.MergeSlicesUnique[int](); len(m) != 0 {
			fail("MergeSlicesUnique(): %v", m)
		}
		u1, u2 := container.SliceExcludeOverlaps(a, b)
		if dups(u1) || !reflect.DeepEqual(set(u1), onlyA) || !reflect.DeepEqual(set(u2), onlyB) {
			fail("SliceExcludeOverlaps: %v %v", u1, u2)
		}
		u1, cm := container.SliceExludeUniqueS2(a, b)
		if dups(u1) || dups(cm) || !reflect.DeepEqual(set(u1), onlyA) || !reflect.DeepEqual(set(cm), common) {
			fail("SliceExludeUniqueS2: %v %v", u1, cm)
		}
		same("the set functions")
		c := container.SliceCopy(a)
		if !slices.Equal(a, c) {
			fail("SliceCopy: %v", c)
		}
		for i := range c {
			c[i] = -1
		}
		same("the changed copy")

		// in place ones
		full := append(append([]int{-7}, a...), -8, -9) // with guards
		part := full[1 : 1+len(a)]
		if len(a) > 0 {
			i := rapid.IntRange(0, len(a)-1).Draw(t, "idx")
			r := container.SliceRemoveIdx(part, i)
			if !slices.Equal(sorted(r), sorted(append(slices.Clone(a[:i]), a[i+1:]...))) {
				fail("SliceRemoveIdx(%d): %v", i, r)
			}
			if full[0] != -7 || full[1+len(a)] != -8 {
				fail("SliceRemoveIdx: elements around are changed")
			}
			copy(part, a)
		}
		r := container.SliceReverse(part)
		for i := range a {
			if len(r) != len(a) || r[i] != a[len(a)-1-i] || part[i] != r[i] {
				fail("SliceReverse: %v", r)
			}
		}
		container.SliceFill(part, v)
		for i := range part {
			if part[i] != v {
				fail("SliceFill: %v", part)
			}
		}
		if full[0] != -7 || full[1+len(a)] != -8 || full[2+len(a)] != -9 {
			fail("elements around are changed: %v", full)
		}
		same("the in place functions over the copy")
		ev.Case(t, dups(a) || len(a) >= 50, "%.100v %.100v", fmt.Sprint(a), fmt.Sprint(b))
	})
}

// TestMaps: P42
func TestMaps(t *testing.T) {
	ev.Check(t, "the map has at least two entries", func(t *rapid.T) {
		var m map[string]int
		if rapid.IntRange(0, 9).Draw(t, "nil") > 0 {
			m = rapid.MapOfN(rapid.StringMatching(`[a-c]{0,3}`), rapid.IntRange(0, 3), 0, 8).Draw(t, "m")
		}
		c := container.CopyMap(m)
		if (c == nil) != (m == nil) || len(c) != len(m) {
			t.Fatalf("CopyMap(%v)=%v", m, c)
		}
		var keys []string
		var vals []int
		for k, v := range m {
			keys = append(keys, k)
			vals = append(vals, v)
			if cv, ok := c[k]; !ok || cv != v {
				t.Fatalf("CopyMap(%v)=%v", m, c)
			}
		}
		if m != nil {
			c["new"] = 1
			if _, ok := m["new"]; ok {
				t.Fatalf("CopyMap(%v) is not a copy", m)
			}
		}
		gk, gv := container.Keys(m), container.Values(m)
		sort.Strings(keys)
		sort.Strings(gk)
		if !slices.Equal(gk, keys) || !slices.Equal(sorted(gv), sorted(vals)) || len(m) == 0 && (gk != nil || gv != nil) {
			t.Fatalf("map %v: keys %v, values %v", m, gk, gv)
		}
		k, v, ok := container.GetFirst(m)
		if ok != (len(m) > 0) || ok && m[k] != v || !ok && (k != "" || v != 0) {
			t.Fatalf("GetFirst(%v)=%v %v %v", m, k, v, ok)
		}
		if _, has := m[k]; ok && !has {
			t.Fatalf("GetFirst(%v)=%v", m, k)
		}
		ev.Case(t, len(m) > 1, "%v", m)
	})
}

// TestStrings: P42
func TestStrings(t *testing.T) {
	ev.Check(t, "at least three strings with duplicates, or a truncated one", func(t *rapid.T) {
		ss := rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b", "c", "aa", "d"}), 0, 9).Draw(t, "ss")
		orig := slices.Clone(ss)
		seen := map[string]bool{}
		var want []string
		for _, s := range ss {
			if !seen[s] {
				seen[s] = true
				want = append(want, s)
			}
		}
		guarded := append(slices.Clone(ss), "guard")
		if got := strutil.RemoveDups(guarded[:len(ss)]); !slices.Equal(got, want) || guarded[len(ss)] != "guard" {
			t.Fatalf("RemoveDups(%v)=%v", orig, got)
		}
		sw := slices.Clone(ss)
		for i := 0; i+1 < len(sw); i += 2 {
			sw[i], sw[i+1] = sw[i+1], sw[i]
		}
		if got := strutil.SwapEvenOdd(slices.Clone(ss)); !slices.Equal(got, sw) {
			t.Fatalf("SwapEvenOdd(%v)=%v", orig, got)
		}
		s := rapid.StringN(0, 12, 30).Draw(t, "s")
		mx := rapid.IntRange(3, 20).Draw(t, "max")
		got := strutil.TruncateWithEllipses(s, mx)
		if len(s) <= mx {
			if got != s {
				t.Fatalf("TruncateWithEllipses(%q, %d)=%q", s, mx, got)
			}
		} else if len(got) > mx || !strings.HasSuffix(got, "...") || !strings.HasPrefix(s, got[:len(got)-3]) || len(got) < mx-3 {
			t.Fatalf("TruncateWithEllipses(%q, %d)=%q", s, mx, got)
		}
		ln := rapid.IntRange(0, 130).Draw(t, "ln")
		abc := rapid.SampledFrom([]string{"a", "ab", "0123456789", "xyz-+="}).Draw(t, "abc")
		if r := strutil.GetRandomString(ln, abc); len(r) != ln || strings.Trim(r, abc) != "" {
			t.Fatalf("GetRandomString(%d, %q)=%q", ln, abc, r)
		}
		if r := strutil.RandomString(ln); len(r) != ln || ln > 20 && r == strutil.RandomString(ln) {
			t.Fatalf("RandomString(%d)=%q", ln, r)
		}
		// casts
		if string(cast.StringToByteArray(s)) != s || len(cast.StringToByteArray(s)) != len(s) || cast.ByteArrayToString([]byte(s)) != s {
			t.Fatalf("the string %q is cast to %q", s, cast.StringToByteArray(s))
		}
		if p := cast.StringPtr(s); *p != s || cast.String(p, "def") != s || cast.String(nil, s) != s {
			t.Fatalf("cast.String of %q", s)
		}
		n := rapid.Int().Draw(t, "n")
		if p := cast.IntPtr(n); *p != n || cast.Int(p, 1) != n || cast.Int(nil, n) != n {
			t.Fatalf("cast.Int of %d", n)
		}
		if p := cast.Int64Ptr(int64(n)); *p != int64(n) || cast.Int64(p, 1) != int64(n) || cast.Int64(nil, int64(n)) != int64(n) {
			t.Fatalf("cast.Int64 of %d", n)
		}
		for _, bl := range []bool{false, true} {
			if p := cast.BoolPtr(bl); *p != bl || cast.Bool(p, !bl) != bl || cast.Bool(nil, bl) != bl {
				t.Fatalf("cast.Bool of %t", bl)
			}
		}
		ev.Case(t, len(ss) > 2 && len(want) < len(ss) || len(s) > mx, "%q %q %d", orig, s, mx)
	})
}

// TestHash: P42
func TestHash(t *testing.T) {
	ev.Check(t, "every case", func(t *rapid.T) {
		data := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "data")
		d0 := bytes.Clone(data)
		want := sha256.Sum256(data)
		h, err := strutil.NewSha256ForData(data)
		if err != nil || !bytes.Equal(h.Bytes(), want[:]) || !bytes.Equal(data, d0) {
			t.Fatalf("NewSha256ForData(%x): %v %v", data, h, err)
		}
		buf := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "buf")
		b0 := bytes.Clone(buf)
		h2, err := strutil.CreateHash(buf)
		if err != nil {
			t.Fatal(err)
		}
		str := h2.String()
		buf[rapid.IntRange(0, 31).Draw(t, "changed")] ^= 0xff
		if !bytes.Equal(h2.Bytes(), b0) || h2.String() != str {
			t.Fatalf("the hash of %x became %x after changing the buffer it was created from", b0, h2.Bytes())
		}
		h3, err := strutil.ParseHash(str)
		if err != nil || !bytes.Equal(h3.Bytes(), b0) || h3.String() != str {
			t.Fatalf("ParseHash(%s): %v %v", str, h3, err)
		}
		sum := sha256.Sum256(append(append([]byte{}, want[:]...), b0...))
		if s := strutil.SumHashes(h, h2); !bytes.Equal(s.Bytes(), sum[:]) {
			t.Fatalf("SumHashes of %x and %x is %x", want, b0, s.Bytes())
		}
		for _, bad := range []int{0, 1, 31, 33, 64} {
			if _, err := strutil.CreateHash(make([]byte, bad)); err == nil {
				t.Fatalf("CreateHash of %d bytes", bad)
			}
		}
		cut := str[:rapid.IntRange(0, len(str)-1).Draw(t, "cut")]
		if _, err := strutil.ParseHash(cut); err == nil {
			t.Fatalf("ParseHash of %q", cut)
		}
		if r := strutil.RandomHash(); len(r.Bytes()) != 32 || r.String() == strutil.RandomHash().String() {
			t.Fatalf("RandomHash %v", r)
		}
		// bits of the value as letters, the lowest ones first
		bits := rapid.IntRange(1, 8).Draw(t, "bits")
		abet := "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-+"[:rapid.SampledFrom([]int{1, 2, 10, 32, 64}).Draw(t, "abet")]
		bit := func(i int) int {
			if i/8 >= len(data) {
				return 0
			}
			return int(data[i/8]>>(i%8)) & 1
		}
		var exp []byte
		for i := 0; i < len(data)*8; i += bits {
			v := 0
			for j := 0; j < bits; j++ {
				v |= bit(i+j) << j
			}
			exp = append(exp, abet[v%len(abet)])
		}
		if got := strutil.Bytes2String(data, abet, bits); got != string(exp) {
			t.Fatalf("Bytes2String(%x, %q, %d)=%q, expected %q", data, abet, bits, got, exp)
		}
		ev.Case(t, true, "%x", d0)
	})
}
