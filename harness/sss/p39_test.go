package sss

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	serr "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"pgregory.net/rapid"

	"solverif/ev"
)

func nullLog() *log.Logger { return log.New(io.Discard, "", 0) }

type model map[string][]byte

func (m model) list(path string) []string {
	set := map[string]bool{}
	for k := range m {
		if strings.HasPrefix(k, path) {
			rest := k[len(path):]
			if i := strings.Index(rest, "/"); i >= 0 {
				rest = rest[:i+1]
			}
			set[path+rest] = true
		}
	}
	res := make([]string, 0)
	for k := range set {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

var comps = []string{"a", "b", "ab", "A", "a.b", ".", "..", "...", ".a", "a b", "%41", "%2F", "%", "a+b", "+", "é", "日本", "?x", "a?", "#y", "a&b", "<t>", "\"q'", "a\\b", "a;b",
	"a=b", "*", "~", " a", "a ", "0", "bucket1", "&amp;", "a:b", "@", "!", "$", "(", "[x]", "^", "`", "{", "|", "'", ",", "a  b", "\u00a0", "𝒳", "-"}

func genKey(t *rapid.T, pool []string, lbl string) string {
	n := rapid.IntRange(1, 3).Draw(t, lbl+"depth")
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + rapid.SampledFrom(pool).Draw(t, lbl)
	}
	return s
}

func genPool(t *rapid.T) []string {
	// keys of a few components, so that the keys of a case meet
	return rapid.SliceOfNDistinct(rapid.SampledFrom(comps), 1, 4, rapid.ID[string]).Draw(t, "components")
}

// keys which don't follow the conventions
var wrongKeys = []string{"", "/", "a", "a/", "/a/", "a/b", "/a/b/", "/a//b"}
var wrongPaths = []string{"", "a", "/a", "a/", "/a/b", "/a//", "//b/"}

func genBody(t *rapid.T, lbl string) []byte {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 10, 100, 1000, 4096, 70000}).Draw(t, lbl+"Size")
	if n > 0 {
		n = rapid.IntRange(max(n/2, 1), n).Draw(t, lbl+"Len")
	}
	if rapid.IntRange(0, 99).Draw(t, lbl+"Big") == 99 {
		n = rapid.IntRange(1<<20, 12<<20).Draw(t, lbl+"BigLen")
	}
	seed := rapid.IntRange(0, 1<<20).Draw(t, lbl)
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 1)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}

type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) {
	if len(b) > 7 {
		b = b[:(len(b)+1)/2]
	}
	return p.r.Read(b)
}

var errRead = errors.New("the reader is broken")

type failing struct {
	r io.Reader
}

func (f failing) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = errRead
	}
	return n, err
}

// failing, but seekable
type failingSeeker struct {
	*bytes.Reader
}

func (f failingSeeker) Read(b []byte) (int, error) {
	left := f.Reader.Len() - int(f.Reader.Size()+1)/2 // the second half cannot be read
	if left <= 0 {
		return 0, errRead
	}
	return f.Reader.Read(b[:min(len(b), left)])
}

// reader makes a reader of the body of the kind
func reader(t failer, kind string, body []byte, dir string) (io.Reader, func()) {
	switch kind {
	case "bytes":
		return bytes.NewReader(body), func() {}
	case "buffer":
		return bytes.NewBuffer(append([]byte{}, body...)), func() {}
	case "string":
		return strings.NewReader(string(body)), func() {}
	case "plain":
		return plain{bytes.NewReader(body)}, func() {}
	case "offset":
		r := bytes.NewReader(append([]byte("skipped"), body...))
		_, _ = r.Seek(7, io.SeekStart)
		return r, func() {}
	case "file", "fileOffset":
		fn := filepath.Join(dir, "body")
		pre := ""
		if kind == "fileOffset" {
			pre = "abc"
		}
		if err := os.WriteFile(fn, append([]byte(pre), body...), 0644); err != nil {
			t.Fatalf("EV-ENV: %v", err)
		}
		f, err := os.Open(fn)
		if err != nil {
			t.Fatalf("EV-ENV: %v", err)
		}
		_, _ = f.Seek(int64(len(pre)), io.SeekStart)
		return f, func() { _ = f.Close() }
	case "multi":
		return io.MultiReader(bytes.NewReader(body[:len(body)/2]), bytes.NewReader(body[len(body)/2:])), func() {}
	case "failing":
		return failing{bytes.NewReader(body)}, func() {}
	case "failingSeeker":
		return failingSeeker{bytes.NewReader(append(append([]byte{}, body...), 1, 2))}, func() {}
	}
	panic(kind)
}

type failer interface {
	Name() string
	Fatalf(format string, args ...any)
	Logf(format string, args ...any)
}

var goodKinds = []string{"bytes", "buffer", "string", "plain", "offset", "file", "fileOffset", "multi"}
var allKinds = append([]string{"failing", "failingSeeker"}, goodKinds...)

// storages returns the storages to test, the clean-up is to be called after it
func storages(maxPage int) (map[string]sss.Storage, *bucket, func()) {
	s, b, done := newS3(maxPage)
	return map[string]sss.Storage{"inmem": inmem.NewStorage(), "s3": s}, b, done
}

var names = []string{"inmem", "s3"}

func get(st sss.Storage, key string) ([]byte, error) {
	r, err := st.Get(ev.Ctx(), key)
	if err != nil {
		if r != nil {
			return nil, fmt.Errorf("a reader and an error %w", err)
		}
		return nil, err
	}
	b, err := io.ReadAll(r)
	if err != nil {
		_ = r.Close()
		return nil, fmt.Errorf("reading: %w", err)
	}
	return b, r.Close()
}

func checkList(t failer, name string, st sss.Storage, path string, m model) {
	res, err := st.List(ev.Ctx(), path)
	if err != nil {
		t.Fatalf("%s: List(%q) failed: %v", name, path, err)
	}
	res = append([]string{}, res...)
	sort.Strings(res)
	if exp := m.list(path); strings.Join(res, "\n") != strings.Join(exp, "\n") {
		t.Fatalf("%s: List(%q) returned\n%q, but must\n%q", name, path, res, exp)
	}
}

func checkAll(t failer, name string, st sss.Storage, m model, keys []string) {
	for _, k := range keys {
		got, err := get(st, k)
		exp, ok := m[k]
		if !ok {
			if !serr.Is(err, serr.ErrNotExist) {
				t.Fatalf("%s: Get(%q) of a missing object returned %d bytes, err=%v", name, k, len(got), err)
			}
			continue
		}
		if err != nil || !bytes.Equal(got, exp) {
			t.Fatalf("%s: Get(%q) returned %d bytes, err=%v, but the object has %d bytes", name, k, len(got), err, len(exp))
		}
	}
}

func pathsOf(keys []string) []string {
	set := map[string]bool{"/": true}
	for _, k := range keys {
		for i := 1; i < len(k); i++ {
			if k[i] == '/' {
				set[k[:i+1]] = true
			}
		}
		set[k+"/"] = true
	}
	var res []string
	for p := range set {
		res = append(res, p)
	}
	sort.Strings(res)
	return res
}

func (m model) has(key string) bool {
	_, ok := m[key]
	return ok
}

// knownDelete is the known finding: the in-memory storage reports a missing object on deleting it
func knownDelete(name string, err error, exists bool) bool {
	return name == "inmem" && !exists && serr.Is(err, serr.ErrNotExist)
}

func TestModel(t *testing.T) {
	ev.Check(t, "an object is replaced or deleted while others are there", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		sts, _, done := storages(rapid.SampledFrom([]int{1, 2, 3, 1000}).Draw(t, "serverPage"))
		defer done()
		pool := genPool(t)
		m := model{}
		used := map[string]bool{}
		nontriv := false
		type open struct {
			name string
			r    io.ReadCloser
			exp  []byte
			key  string
		}
		var opened []open
		nops := rapid.IntRange(1, 14).Draw(t, "ops")
		desc := ""
		for i := 0; i < nops; i++ {
			op := rapid.SampledFrom([]string{"put", "put", "put", "put", "get", "list", "delete", "delete", "open", "wrong", "wrongPath", "cancelled"}).Draw(t, "op")
			key := genKey(t, pool, "key")
			used[key] = true
			switch op {
			case "put":
				body := genBody(t, "body")
				kind := rapid.SampledFrom(allKinds).Draw(t, "reader")
				desc += fmt.Sprintf(" put(%s,%d,%s)", key, len(body), kind)
				for _, n := range names {
					arg := append([]byte{}, body...)
					r, cl := reader(t, kind, arg, dir)
					err := sts[n].Put(ev.Ctx(), key, r)
					cl()
					for j := range arg {
						arg[j] ^= 0x55 // the buffer belongs to the caller
					}
					if strings.HasPrefix(kind, "failing") {
						if err == nil {
							t.Fatalf("%s: Put(%q) reported no error for a broken reader", n, key)
						}
						continue
					}
					if err != nil {
						t.Fatalf("%s: Put(%q) from the reader '%s' failed: %v", n, key, kind, err)
					}
				}
				if !strings.HasPrefix(kind, "failing") {
					nontriv = nontriv || len(m) > 1 && m[key] != nil
					m[key] = body
				}
			case "get":
				desc += " get(" + key + ")"
				for _, n := range names {
					checkAll(t, n, sts[n], m, []string{key})
				}
			case "list":
				path := "/"
				if rapid.Bool().Draw(t, "sub") {
					path = key + "/"
				}
				desc += " list(" + path + ")"
				for _, n := range names {
					checkList(t, n, sts[n], path, m)
				}
			case "delete":
				desc += " del(" + key + ")"
				nontriv = nontriv || len(m) > 1 && m[key] != nil
				for _, n := range names {
					if err := sts[n].Delete(ev.Ctx(), key); err != nil && !knownDelete(n, err, m.has(key)) {
						t.Fatalf("%s: Delete(%q) (exists: %v) failed: %v", n, key, m[key] != nil, err)
					}
				}
				delete(m, key)
			case "open":
				if _, ok := m[key]; !ok {
					continue
				}
				desc += " open(" + key + ")"
				for _, n := range names {
					r, err := sts[n].Get(ev.Ctx(), key)
					if err != nil {
						t.Fatalf("%s: Get(%q) failed: %v", n, key, err)
					}
					opened = append(opened, open{n, r, m[key], key})
				}
			case "wrong":
				k := rapid.SampledFrom(wrongKeys).Draw(t, "wrong")
				desc += " wrong(" + k + ")"
				for _, n := range names {
					if err := sts[n].Put(ev.Ctx(), k, strings.NewReader("wrong")); err == nil {
						t.Fatalf("%s: Put(%q) of a wrong key is not rejected", n, k)
					}
					if b, err := get(sts[n], k); err == nil || serr.Is(err, serr.ErrNotExist) {
						t.Fatalf("%s: Get(%q) of a wrong key is not rejected: %q %v", n, k, b, err)
					}
					if err := sts[n].Delete(ev.Ctx(), k); err == nil {
						t.Fatalf("%s: Delete(%q) of a wrong key is not rejected", n, k)
					}
				}
			case "wrongPath":
				k := rapid.SampledFrom(wrongPaths).Draw(t, "wrong")
				desc += " wrongPath(" + k + ")"
				for _, n := range names {
					if l, err := sts[n].List(ev.Ctx(), k); err == nil {
						t.Fatalf("%s: List(%q) of a wrong path is not rejected: %q", n, k, l)
					}
				}
			case "cancelled":
				// the in-memory one does everything at once
				ctx, cancel := context.WithCancel(ev.Ctx())
				cancel()
				desc += " cancelled(" + key + ")"
				if err := sts["s3"].Put(ctx, key, strings.NewReader("cancelled")); err == nil {
					t.Fatalf("s3: Put(%q) with a cancelled context reported no error", key)
				}
			}
		}
		keys := make([]string, 0)
		for k := range used {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, n := range names {
			checkAll(t, n, sts[n], m, keys)
			for _, p := range pathsOf(keys) {
				checkList(t, n, sts[n], p, m)
			}
		}
		for _, o := range opened {
			b, err := io.ReadAll(o.r)
			if err != nil || !bytes.Equal(b, o.exp) {
				t.Fatalf("%s: the object %q, opened before the following operations, is read as %d bytes, err=%v, but it had %d", o.name, o.key, len(b), err, len(o.exp))
			}
			if err := o.r.Close(); err != nil {
				t.Fatalf("%s: closing %q: %v", o.name, o.key, err)
			}
		}
		ev.Case(t, nontriv, "%s", desc)
	})
}

// TestMany lists big folders
func TestMany(t *testing.T) {
	ev.Check(t, "a listing of more than one page", func(t *rapid.T) {
		page := rapid.SampledFrom([]int{1, 3, 10, 50, 99, 100, 1000}).Draw(t, "serverPage")
		sts, b, done := storages(page)
		defer done()
		m := model{}
		pool := genPool(t)
		nf := rapid.IntRange(1, 3).Draw(t, "folders")
		for f := 0; f < nf; f++ {
			base := ""
			if f > 0 {
				base = genKey(t, pool, "folder")
			}
			n := rapid.SampledFrom([]int{0, 1, 2, 99, 100, 101, 130, 199, 200, 201, 350}).Draw(t, "objects")
			sub := rapid.IntRange(0, 3).Draw(t, "subs") // one of .. is a sub-folder of one or two objects
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%s/%d", base, i)
				if sub > 0 && i%(sub+1) == 0 {
					m[k+"/x"] = []byte{1}
					if i%3 == 0 {
						m[k+"/y"] = []byte{2}
					}
					if i%4 == 0 {
						m[k] = []byte{4}
					}
					continue
				}
				m[k] = []byte{3}
			}
		}
		var keys []string
		for k, v := range m {
			keys = append(keys, k)
			if err := sts["inmem"].Put(ev.Ctx(), k, bytes.NewReader(v)); err != nil {
				t.Fatalf("Put failed: %v", err)
			}
			b.mu.Lock()
			b.objs[k[1:]] = v
			b.mu.Unlock()
		}
		paths := []string{"/"}
		for _, p := range pathsOf(keys) {
			if len(m.list(p)) > 3 {
				paths = append(paths, p)
			}
		}
		most := 0
		for _, n := range names {
			for _, p := range paths {
				checkList(t, n, sts[n], p, m)
				most = max(most, len(m.list(p)))
			}
		}
		ev.Case(t, most > min(page, 100), "page=%d objects=%d longest list=%d", page, len(m), most)
	})
}

// TestConcurrent runs clients at the same time: everyone works with its own keys and with a common one
func TestConcurrent(t *testing.T) {
	ev.Check(t, "several clients write", func(t *rapid.T) {
		sts, _, done := storages(1000)
		defer done()
		pool := genPool(t)
		nc := rapid.IntRange(2, 4).Draw(t, "clients")
		type op struct {
			op, key string
			body    []byte
		}
		var progs [][]op
		writers := 0
		owner := map[string]int{}
		for c := 0; c < nc; c++ {
			var prog []op
			for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
				o := op{op: rapid.SampledFrom([]string{"put", "put", "get", "delete", "list", "common"}).Draw(t, "op")}
				o.key = genKey(t, pool, "key") + fmt.Sprint(rapid.IntRange(0, 1).Draw(t, "n"), "c", c)
				if o.op == "put" || o.op == "common" {
					o.body = bytes.Repeat([]byte{byte(1 + c*50 + i)}, rapid.IntRange(1, 300).Draw(t, "size"))
				}
				prog = append(prog, o)
				owner[o.key] = c
			}
			for _, o := range prog {
				if o.op == "put" || o.op == "common" {
					writers++
					break
				}
			}
			progs = append(progs, prog)
		}
		commonVals := map[string]bool{}
		for _, p := range progs {
			for _, o := range p {
				if o.op == "common" {
					commonVals[string(o.body)] = true
				}
			}
		}
		for _, n := range names {
			st := sts[n]
			errs := make([]string, nc)
			models := make([]model, nc)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for c := 0; c < nc; c++ {
				wg.Add(1)
				go func(c int) {
					defer wg.Done()
					m := model{}
					models[c] = m
					fail := func(format string, args ...any) { errs[c] = fmt.Sprintf(format, args...) }
					<-start
					for _, o := range progs[c] {
						switch o.op {
						case "put":
							if err := st.Put(ev.Ctx(), o.key, bytes.NewReader(o.body)); err != nil {
								fail("Put(%q) failed: %v", o.key, err)
								return
							}
							m[o.key] = o.body
						case "delete":
							if err := st.Delete(ev.Ctx(), o.key); err != nil && !knownDelete(n, err, m.has(o.key)) {
								fail("Delete(%q) failed: %v", o.key, err)
								return
							}
							delete(m, o.key)
						case "get":
							b, err := get(st, o.key)
							if exp, ok := m[o.key]; ok && (err != nil || !bytes.Equal(b, exp)) || !ok && !serr.Is(err, serr.ErrNotExist) {
								fail("Get(%q) returned %v %v, but %v is there", o.key, b, err, exp)
								return
							}
						case "list":
							path := o.key[:strings.LastIndex(o.key, "/")+1]
							l, err := st.List(ev.Ctx(), path)
							if err != nil {
								fail("List(%q) failed: %v", path, err)
								return
							}
							seen := map[string]bool{}
							for _, k := range l {
								if seen[k] {
									fail("List(%q) returned %q twice", path, k)
									return
								}
								seen[k] = true
							}
							for _, k := range m.list(path) {
								if !seen[k] {
									fail("List(%q) did not return %q, which is there", path, k)
									return
								}
							}
							for k := range seen {
								if ow, ok := owner[k]; ok && ow == c && m[k] == nil {
									fail("List(%q) returned %q, which is not there", path, k)
									return
								}
							}
						case "common":
							if err := st.Put(ev.Ctx(), "/common", bytes.NewReader(o.body)); err != nil {
								fail("Put failed: %v", err)
								return
							}
							b, err := get(st, "/common")
							if err != nil || !commonVals[string(b)] {
								fail("Get of the common object returned %v, err=%v, it has never been written", b, err)
								return
							}
						}
					}
				}(c)
			}
			close(start)
			wg.Wait()
			all := model{}
			for c := range errs {
				if errs[c] != "" {
					t.Fatalf("%s: client %d: %s", n, c, errs[c])
				}
				for k, v := range models[c] {
					all[k] = v
				}
			}
			if len(commonVals) > 0 {
				b, err := get(st, "/common")
				if err != nil || !commonVals[string(b)] {
					t.Fatalf("%s: the common object has %v err=%v", n, b, err)
				}
				all["/common"] = b
			}
			var keys []string
			for k := range owner {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			checkAll(t, n, st, all, keys)
			for _, p := range pathsOf(keys) {
				checkList(t, n, st, p, all)
			}
		}
		ev.Case(t, writers > 1, "%d clients %q", nc, owner)
	})
}

// TestFaults checks that a failure of the server is reported, and is never taken for a result
func TestFaults(t *testing.T) {
	ev.Check(t, "the fault has happened", func(t *rapid.T) {
		st, b, done := newS3(rapid.SampledFrom([]int{1, 2, 1000}).Draw(t, "serverPage"))
		defer done()
		pool := genPool(t)
		m := model{}
		var keys []string
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "objects"); i < n; i++ {
			k := genKey(t, pool, "key")
			body := genBody(t, "body")
			if err := st.Put(ev.Ctx(), k, bytes.NewReader(body)); err != nil {
				t.Fatalf("Put(%q) failed: %v", k, err)
			}
			m[k] = body
			keys = append(keys, k)
		}
		f := &fault{op: rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "LIST"}).Draw(t, "faultOf"), status: rapid.SampledFrom([]int{500, 503, 403, 400, 409}).Draw(t, "status")}
		kinds := []string{"before", "reset"}
		switch f.op {
		case "PUT", "DELETE":
			kinds = append(kinds, "after")
		case "GET":
			kinds = append(kinds, "cut")
		case "LIST":
			kinds = append(kinds, "cut")
			f.skip = rapid.IntRange(0, 2).Draw(t, "skip")
		}
		f.kind = rapid.SampledFrom(kinds).Draw(t, "fault")
		key := rapid.SampledFrom(keys).Draw(t, "addressed")
		if rapid.Bool().Draw(t, "otherKey") {
			key = genKey(t, pool, "key")
		}
		keys = append(keys, key)
		b.setFault(f)
		var err error
		var body []byte
		maybe := false // the addressed object may be in the both states
		switch f.op {
		case "GET":
			var got []byte
			got, err = get(st, key)
			if _, ok := m[key]; !ok && f.kind == "cut" {
				f.fired = false // nothing to cut
				if !serr.Is(err, serr.ErrNotExist) {
					t.Fatalf("Get(%q) of a missing object returned %v", key, err)
				}
			} else if ok && f.kind == "cut" && len(m[key]) == 0 {
				f.fired = false
			} else if f.fired && (err == nil || serr.Is(err, serr.ErrNotExist)) {
				t.Fatalf("Get(%q) returned %d bytes, err=%v, but the server failed: %+v", key, len(got), err, *f)
			}
		case "PUT":
			body = genBody(t, "newBody")
			r, cl := reader(t, rapid.SampledFrom([]string{"bytes", "plain"}).Draw(t, "reader"), body, "")
			err = st.Put(ev.Ctx(), key, r)
			cl()
			maybe = f.kind == "after"
		case "DELETE":
			err = st.Delete(ev.Ctx(), key)
			maybe = f.kind == "after"
		case "LIST":
			var l []string
			l, err = st.List(ev.Ctx(), "/")
			if !f.fired {
				if err != nil {
					t.Fatalf("List failed without a failure: %v", err)
				}
			} else if err == nil {
				t.Fatalf("List returned %q, but the server failed: %+v", l, *f)
			}
		}
		if f.op != "GET" && f.fired && err == nil {
			t.Fatalf("%s(%q) reported no error, but the server failed: %+v", f.op, key, *f)
		}
		b.setFault(nil)
		if maybe {
			if f.op == "PUT" {
				m[key] = body
			} else {
				delete(m, key)
			}
		}
		checkAll(t, "s3", st, m, keys)
		for _, p := range pathsOf(keys) {
			checkList(t, "s3", st, p, m)
		}
		ev.Case(t, f.fired, "%+v of %q, %d objects", *f, key, len(m))
	})
}
