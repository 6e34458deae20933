// The checks of P36: the utilities which work with files and folders
package fsutil

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/solarisdb/solaris/golibs/files"
	"pgregory.net/rapid"
	"solverif/ev"
)

// tree is the model of a folder: a relative name -> the content, nil is a folder
type tree map[string][]byte

func (tr tree) names() []string {
	res := make([]string, 0, len(tr))
	for n := range tr {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

func (tr tree) clone() tree {
	res := tree{}
	for n, c := range tr {
		res[n] = c
	}
	return res
}

// addDirs adds the parents of all the files
func (tr tree) addDirs() tree {
	for _, n := range tr.names() {
		for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
			if c, ok := tr[d]; ok && c != nil {
				panic("a file is a folder: " + d)
			}
			tr[d] = nil
		}
	}
	return tr
}

// onlyFiles keeps the accepted files only
func (tr tree) onlyFiles(accept func(n string) bool) tree {
	res := tree{}
	for n, c := range tr {
		if c != nil && accept(n) {
			res[n] = c
		}
	}
	return res
}

func (tr tree) String() string {
	var sb strings.Builder
	for _, n := range tr.names() {
		if tr[n] == nil {
			fmt.Fprintf(&sb, "%q/ ", n)
			continue
		}
		c := tr[n]
		if len(c) > 12 {
			c = c[:12]
		}
		fmt.Fprintf(&sb, "%q=%q(%d) ", n, c, len(tr[n]))
	}
	return sb.String()
}

func (tr tree) write(dir string) {
	must(os.MkdirAll(dir, 0o755))
	for _, n := range tr.names() {
		p := filepath.Join(dir, n)
		if tr[n] == nil {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, tr[n], 0o644))
	}
}

func readTree(dir string) tree {
	res := tree{}
	es, err := os.ReadDir(dir)
	if err != nil {
		res["error: "+err.Error()] = nil
		return res
	}
	for _, e := range es {
		if e.IsDir() {
			res[e.Name()] = nil
			for n, c := range readTree(filepath.Join(dir, e.Name())) {
				res[e.Name()+"/"+n] = c
			}
			continue
		}
		c, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			res["error: "+err.Error()] = nil
		}
		if c == nil {
			c = []byte{}
		}
		res[e.Name()] = c
	}
	return res
}

func diff(got, exp tree) string {
	for _, n := range exp.names() {
		c, ok := got[n]
		if !ok {
			return fmt.Sprintf("%q is missing", n)
		}
		if (c == nil) != (exp[n] == nil) {
			return fmt.Sprintf("%q: one is a file, another is a folder", n)
		}
		if !bytes.Equal(c, exp[n]) {
			return fmt.Sprintf("%q has a wrong content: %d bytes, must be %d", n, len(c), len(exp[n]))
		}
	}
	for _, n := range got.names() {
		if _, ok := exp[n]; !ok {
			return fmt.Sprintf("%q is not expected", n)
		}
	}
	return ""
}

func must(err error) {
	if err != nil {
		panic("EV-ENV: " + err.Error())
	}
}

var parts = []string{"a", "b", "ab", "abc", "a.b", ".a", "..a", "a..", "...", " ", "a b", "é", "a\\b", "-", "A", "a\xff", "*", "%2e"}

func genContent(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1:
		return []byte{}
	case 2, 3, 4:
		return []byte(rapid.SampledFrom([]string{"a", "b", "ab", "ba", "abc", "a/b", "/a", "\x00", "\x00\x00\x00\x01"}).Draw(t, "text"))
	case 5:
		return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "b"))}, rapid.IntRange(0, 100000).Draw(t, "n"))
	case 6:
		// not compressible
		n := rapid.IntRange(1, 150000).Draw(t, "n")
		if rapid.IntRange(0, 39).Draw(t, "big") == 39 {
			n *= 40
		}
		x := rapid.Uint64().Draw(t, "x") | 1
		res := make([]byte, n)
		for i := range res {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			res[i] = byte(x)
		}
		return res
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
}

func genTree(t *rapid.T, max int) tree {
	tr := tree{}
	n := rapid.IntRange(0, max).Draw(t, "n")
	var dirs = []string{""}
	for i := 0; i < n; i++ {
		d := rapid.SampledFrom(dirs).Draw(t, "dir")
		name := filepath.Join(d, rapid.SampledFrom(parts).Draw(t, "name"))
		if _, ok := tr[name]; ok {
			continue
		}
		if strings.Count(name, "/") < 3 && rapid.IntRange(0, 2).Draw(t, "isDir") == 0 {
			tr[name] = nil
			dirs = append(dirs, name)
			continue
		}
		tr[name] = genContent(t)
	}
	return tr
}

// genSpelling returns a name of the folder base/rel, the current folder is changed to base or to base/rel
func genSpelling(t *rapid.T, label, base, rel string) string {
	p := filepath.Join(base, rel)
	switch rapid.IntRange(0, 9).Draw(t, label) {
	case 0:
		return p + "/"
	case 1:
		return p + "//"
	case 2:
		return rel
	case 3:
		return "./" + rel
	case 4:
		return rel + "/"
	case 5:
		return base + "//" + rel
	case 6:
		return rel + "/../" + filepath.Base(rel)
	case 7:
		return filepath.Join(p, "..") + "/./" + filepath.Base(rel)
	case 8:
		return rel + "/."
	}
	return p
}

// scratch is a folder of the case, which is the current one during the case
func scratch(t *rapid.T) (string, func()) {
	wd, err := os.Getwd()
	must(err)
	dir, err := os.MkdirTemp("", "p36")
	must(err)
	must(os.Chdir(dir))
	return dir, func() {
		must(os.Chdir(wd))
		_ = os.RemoveAll(dir)
	}
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(es)
}

type filter struct {
	name string
	f    func(base string) bool
}

var filters = []filter{
	{"all", nil},
	{"hasA", func(n string) bool { return strings.Contains(n, "a") }},
	{"noDot", func(n string) bool { return !strings.HasPrefix(n, ".") }},
	{"none", func(n string) bool { return false }},
	{"short", func(n string) bool { return len(n) < 2 }},
}

func (f filter) accept(n string) bool {
	return f.f == nil || f.f(filepath.Base(n))
}

// zipNames reads the archive by the standard library
func zipTree(fn string) (tree, error) {
	zr, err := zip.OpenReader(fn)
	if err != nil {
		return nil, err
	}
	defer zr.Close()
	res := tree{}
	for _, f := range zr.File {
		n := strings.TrimPrefix(f.Name, "/")
		if _, ok := res[n]; ok {
			return nil, fmt.Errorf("%q is twice", n)
		}
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		c, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		if c == nil {
			c = []byte{}
		}
		res[n] = c
	}
	return res, nil
}

func TestTrees(t *testing.T) {
	ev.Check(t, "the operation concerns at least one file", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		tr := genTree(t, 12)
		src := rapid.SampledFrom([]string{"src", "x/src", "a b/.src"}).Draw(t, "src")
		tr.write(filepath.Join(base, src))
		srcs := genSpelling(t, "spelling", base, src)
		if rapid.IntRange(0, 7).Draw(t, "chdir") == 0 {
			// the folder is the current one
			must(os.Chdir(filepath.Join(base, src)))
			srcs = rapid.SampledFrom([]string{".", "./", "../" + filepath.Base(src), filepath.Join(base, src)}).Draw(t, "cwdSpelling")
		}
		fds := openFiles()
		op := rapid.SampledFrom([]string{"zip", "zip", "zip", "copy", "copy", "list", "remove"}).Draw(t, "op")
		what := fmt.Sprintf("%s %q %s", op, strings.ReplaceAll(srcs, base, "$B"), tr)
		switch op {
		case "zip":
			f := rapid.SampledFrom(filters).Draw(t, "filter")
			recursive := rapid.IntRange(0, 3).Draw(t, "flat") != 0
			var tf func(string) bool
			if f.f != nil {
				tf = func(p string) bool {
					p2 := p
					if !filepath.IsAbs(p2) {
						wd, _ := os.Getwd()
						p2 = filepath.Join(wd, p2)
					}
					rel, err := filepath.Rel(filepath.Join(base, src), p2)
					if err != nil || tr[rel] == nil {
						t.Fatalf("%s: the filter is asked for %q, which is not a file of the folder", what, p)
					}
					return f.accept(p)
				}
			}
			exp := tr.onlyFiles(func(n string) bool { return f.accept(n) && (recursive || !strings.Contains(n, "/")) })
			zf := filepath.Join(base, "arc.zip")
			if err := files.ZipFolder(srcs, zf, tf, recursive); err != nil {
				t.Fatalf("%s (filter %s, recursive %t): %v", what, f.name, recursive, err)
			}
			zt, err := zipTree(zf)
			if err != nil {
				t.Fatalf("%s: the archive: %v", what, err)
			}
			if d := diff(zt, exp); d != "" {
				t.Fatalf("%s (filter %s, recursive %t): the archive: %s", what, f.name, recursive, d)
			}
			old := tree{}
			if rapid.Bool().Draw(t, "old") {
				// the files which were there before
				old = tree{"old": []byte("old"), "zz/old": []byte("o"), "zz": nil, "emptyOld": nil}
				old.write(filepath.Join(base, "dst/d"))
			}
			must(os.Chdir(base))
			dsts := genSpelling(t, "dst", base, "dst/d")
			if strings.Contains(dsts, "..") {
				must(os.MkdirAll(filepath.Join(base, "dst/d"), 0o755))
			}
			if err := files.UnzipToFolder(zf, dsts); err != nil {
				t.Fatalf("%s: extracting: %v", what, err)
			}
			exp.addDirs()
			for n, c := range old {
				exp[n] = c
			}
			if d := diff(readTree(filepath.Join(base, "dst/d")), exp); d != "" {
				t.Fatalf("%s: extracting to %q: %s", what, dsts, d)
			}
			ev.Case(t, len(exp) > 0, "%s -> %s", what, exp)
		case "copy":
			old := tree{}
			if rapid.Bool().Draw(t, "old") {
				old = tree{"old": []byte("old"), "zz/old": []byte("o"), "zz": nil, "emptyOld": nil}
				for _, n := range tr.names() {
					if tr[n] != nil && rapid.Bool().Draw(t, "overwrite") {
						old[n] = bytes.Repeat([]byte("x"), len(tr[n])+rapid.IntRange(0, 3).Draw(t, "longer"))
					}
				}
				old.write(filepath.Join(base, "dst/d"))
				old.addDirs()
			}
			dsts := filepath.Join(base, "dst/d")
			if rapid.Bool().Draw(t, "slash") {
				dsts += "/"
			}
			if err := files.CopyDir(srcs, dsts); err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			exp := tr.clone()
			for n, c := range old {
				if _, ok := exp[n]; !ok {
					exp[n] = c
				}
			}
			if d := diff(readTree(filepath.Join(base, "dst/d")), exp); d != "" {
				t.Fatalf("%s (old %s): %s", what, old, d)
			}
			ev.Case(t, len(tr) > 0, "%s", what)
		case "list":
			sub := rapid.SampledFrom(append(tr.names(), "", "missing")).Draw(t, "sub")
			got := ""
			p := srcs
			if sub != "" {
				p = strings.TrimSuffix(srcs, "/") + "/" + sub
			}
			for _, fi := range files.ListDir(p) {
				got += fmt.Sprintf("%q dir=%t size=%d\n", fi.Name(), fi.IsDir(), sizeOf(fi))
			}
			exp := ""
			for _, n := range tr.names() {
				d := filepath.Dir(n)
				if d == "." {
					d = ""
				}
				if d != sub {
					continue
				}
				exp += fmt.Sprintf("%q dir=%t size=%d\n", filepath.Base(n), tr[n] == nil, len(tr[n]))
			}
			if sortLines(got) != sortLines(exp) {
				t.Fatalf("%s: the list of %q is\n%s, must be\n%s", what, p, got, exp)
			}
			ev.Case(t, exp != "", "%s %q", what, sub)
		case "remove":
			f := rapid.SampledFrom(filters).Draw(t, "filter")
			exp := tr.clone()
			removeModel(exp, "", f)
			err := files.RemoveFiles(srcs, func(path string, fi os.FileInfo) bool { return f.accept(fi.Name()) })
			if err != nil {
				t.Fatalf("%s (filter %s): %v", what, f.name, err)
			}
			if d := diff(readTree(filepath.Join(base, src)), exp); d != "" {
				t.Fatalf("%s (filter %s): %s", what, f.name, d)
			}
			ev.Case(t, len(exp) < len(tr), "%s %s", what, f.name)
		}
		// the source is as it was
		if op != "remove" {
			if d := diff(readTree(filepath.Join(base, src)), tr); d != "" {
				t.Fatalf("%s: the source is changed: %s", what, d)
			}
		}
		if n := openFiles(); n > fds {
			t.Fatalf("%s: %d files were open before and %d are after", what, fds, n)
		}
	})
}

func sizeOf(fi os.FileInfo) int64 {
	if fi.IsDir() {
		return 0
	}
	return fi.Size()
}

func sortLines(s string) string {
	ss := strings.Split(s, "\n")
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func removeModel(tr tree, dir string, f filter) {
	for _, n := range tr.names() {
		d := filepath.Dir(n)
		if d == "." {
			d = ""
		}
		if d != dir || !f.accept(n) {
			continue
		}
		if tr[n] != nil {
			delete(tr, n)
			continue
		}
		removeModel(tr, n, f)
		empty := true
		for m := range tr {
			if strings.HasPrefix(m, n+"/") {
				empty = false
			}
		}
		if empty {
			delete(tr, n)
		}
	}
}

// TestHash checks that a hash depends on the names and the contents of the files, and on nothing else
func TestHash(t *testing.T) {
	ev.Check(t, "the trees are different", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		tr := genTree(t, 8)
		tr2 := tr.clone()
		kind := mutate(t, tr2)
		recursive := rapid.IntRange(0, 3).Draw(t, "flat") != 0
		tr.write(filepath.Join(base, "one"))
		tr2.write(filepath.Join(base, "x/two"))
		f := rapid.SampledFrom(filters).Draw(t, "filter")
		if rapid.Bool().Draw(t, "noFilter") {
			f = filters[0]
		}
		var tf func(fi os.FileInfo) bool
		if f.f != nil {
			tf = func(fi os.FileInfo) bool { return f.accept(fi.Name()) }
		}
		h1, err1 := files.HashDir(genSpelling(t, "s1", base, "one"), tf, recursive)
		h2, err2 := files.HashDir(genSpelling(t, "s2", base, "x/two"), tf, recursive)
		if err1 != nil || err2 != nil {
			t.Fatalf("hashes of %s and %s: errors %v, %v", tr, tr2, err1, err2)
		}
		if h1 == nil {
			t.Fatalf("no hash for %s", tr)
		}
		in := func(n string) bool { return f.accept(n) && (recursive || !strings.Contains(n, "/")) }
		d := diff(tr.onlyFiles(in), tr2.onlyFiles(in))
		same := h1.String() == h2.String()
		if d != "" && same {
			t.Fatalf("the hashes (filter "+f.name+", recursive %t) of %s and %s are equal: %s", recursive, tr, tr2, d)
		}
		if diff(tr, tr2) == "" && !same {
			t.Fatalf("the hashes (recursive %t) of two copies of %s are different", recursive, tr)
		}
		if !recursive && d == "" && !same {
			t.Fatalf("the hashes (not recursive) of %s and %s are different", tr, tr2)
		}
		ev.Case(t, d != "", "%s: %s and %s", kind, tr, tr2)
	})
}

// mutate makes one or two changes of the tree
func mutate(t *rapid.T, tr tree) string {
	kinds := ""
	for i := rapid.IntRange(0, 2).Draw(t, "changes"); i > 0; i-- {
		var fs, all []string
		for _, n := range tr.names() {
			all = append(all, n)
			if tr[n] != nil {
				fs = append(fs, n)
			}
		}
		kind := rapid.SampledFrom([]string{"content", "byte", "byte", "longer", "rename", "swap", "shift", "merge", "kind", "delete", "add"}).Draw(t, "change")
		if len(fs) == 0 {
			kind = "add"
		}
		kinds += kind + " "
		switch kind {
		case "content":
			tr[rapid.SampledFrom(fs).Draw(t, "f")] = genContent(t)
		case "byte":
			n := rapid.SampledFrom(fs).Draw(t, "f")
			if len(tr[n]) > 0 {
				c := append([]byte{}, tr[n]...)
				c[rapid.OneOf(rapid.IntRange(0, len(c)-1), rapid.Just(len(c)-1)).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				tr[n] = c
			}
		case "longer":
			n := rapid.SampledFrom(fs).Draw(t, "f")
			tr[n] = append(append([]byte{}, tr[n]...), make([]byte, rapid.IntRange(1, 300).Draw(t, "more"))...)
		case "rename":
			n := rapid.SampledFrom(fs).Draw(t, "f")
			m := filepath.Join(filepath.Dir(n), rapid.SampledFrom(parts).Draw(t, "name"))
			if _, ok := tr[m]; !ok {
				tr[m] = tr[n]
				delete(tr, n)
			}
		case "swap":
			a, b := rapid.SampledFrom(fs).Draw(t, "f"), rapid.SampledFrom(fs).Draw(t, "f2")
			tr[a], tr[b] = tr[b], tr[a]
		case "shift":
			// some bytes go from the content to the name
			n := rapid.SampledFrom(fs).Draw(t, "f")
			k := rapid.IntRange(1, 3).Draw(t, "k")
			if len(tr[n]) >= k && !bytes.ContainsAny(tr[n][:k], "\x00/") {
				m := n + string(tr[n][:k])
				if _, ok := tr[m]; !ok {
					tr[m] = append([]byte{}, tr[n][k:]...)
					delete(tr, n)
				}
			}
		case "merge":
			// a file with its name goes to the end of another one
			a, b := rapid.SampledFrom(fs).Draw(t, "f"), rapid.SampledFrom(fs).Draw(t, "f2")
			if a != b {
				sep := rapid.SampledFrom([]string{"/", "", "\x00"}).Draw(t, "sep")
				tr[a] = []byte(string(tr[a]) + sep + b + string(tr[b]))
				delete(tr, b)
			}
		case "kind":
			n := rapid.SampledFrom(fs).Draw(t, "f")
			tr[n] = nil
		case "delete":
			delete(tr, rapid.SampledFrom(fs).Draw(t, "f"))
		case "add":
			n := rapid.SampledFrom(parts).Draw(t, "name")
			if _, ok := tr[n]; !ok {
				tr[n] = genContent(t)
			}
		}
	}
	return kinds
}

// TestArchives extracts the archives with any names. All the names refer to the folder of the case, so that
// nothing real is touched wherever the files are written.
func TestArchives(t *testing.T) {
	ev.Check(t, "the archive has a name which refers out of the folder", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		// dst is 8 levels below the base, a name has up to 6 ".."
		dst := filepath.Join(base, "1/2/3/4/5/6/7/dst")
		out := tree{"1/2/3/4/5/6/7/file": []byte("0"), "1/2/3/file": []byte("1"), "1/file": []byte("2"), "1/2/3/4/5/6/7/dst2/file": []byte("3")}
		out.write(base)
		out.addDirs()
		out["1/2/3/4/5/6/7/dst"] = nil
		out["arc.zip"] = nil
		if rapid.Bool().Draw(t, "exists") {
			must(os.MkdirAll(dst, 0o755))
		}
		zf := filepath.Join(base, "arc.zip")
		f, err := os.Create(zf)
		must(err)
		w := zip.NewWriter(f)
		exp := tree{}
		folders := map[string]bool{}
		clean := true   // no entry may be refused
		escape := false // there is a name out of the folder
		var names []string
		for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
			name := genEntry(t, base)
			c := genContent(t)
			names = append(names, name)
			if strings.HasSuffix(name, "/") {
				_, err := w.Create(name)
				must(err)
				if !safeName(name) {
					escape = true
				}
				folders[filepath.Clean(strings.TrimLeft(name, "/"))] = true
				continue
			}
			e, err := w.CreateHeader(&zip.FileHeader{Name: name, Method: uint16(rapid.SampledFrom([]int{0, 8}).Draw(t, "method"))})
			must(err)
			_, err = e.Write(c)
			must(err)
			if !safeName(name) {
				clean, escape = false, true
				continue
			}
			p := filepath.Clean(strings.TrimLeft(name, "/"))
			if p == "." {
				clean = false
				continue
			}
			if strings.Contains(name, "..") || strings.HasSuffix(name, "/.") {
				// may be refused or not
				clean = false
			}
			exp[p] = c
		}
		must(w.Close())
		must(f.Close())
		// conflicts of files and folders
		for _, a := range exp.names() {
			for _, b := range exp.names() {
				if strings.HasPrefix(b, a+"/") {
					clean = false
				}
			}
			for b := range folders {
				if b == a || strings.HasPrefix(b, a+"/") {
					clean = false
				}
			}
		}
		fds := openFiles()
		err = files.UnzipToFolder(zf, dst)
		if err != nil && clean && !escape {
			t.Fatalf("the archive with %q is not extracted: %v", names, err)
		}
		all := readTree(base)
		inside := tree{}
		for n, c := range all {
			if r, ok := strings.CutPrefix(n, "1/2/3/4/5/6/7/dst/"); ok {
				inside[r] = c
				delete(all, n)
			}
		}
		all["arc.zip"] = nil
		all["1/2/3/4/5/6/7/dst"] = nil
		if d := diff(all, out); d != "" {
			t.Fatalf("the archive with %q: out of the folder: %s", names, d)
		}
		if err == nil {
			if clean {
				if d := diff(inside, exp.addDirs()); d != "" {
					t.Fatalf("the archive with %q: %s", names, d)
				}
			}
		}
		if n := openFiles(); n > fds {
			t.Fatalf("the archive with %q: %d files were open before and %d are after", names, fds, n)
		}
		ev.Case(t, escape, "%q: %v", names, err)
	})
}

// safeName returns whether the name refers to the inside of the folder
func safeName(name string) bool {
	depth := 0
	for _, p := range strings.Split(name, "/") {
		switch p {
		case "", ".":
		case "..":
			depth--
		default:
			depth++
		}
		if depth < 0 {
			return false
		}
	}
	return true
}

func genEntry(t *rapid.T, base string) string {
	switch rapid.IntRange(0, 5).Draw(t, "entry") {
	case 0:
		// an absolute name within the folder of the case
		return base + "/" + rapid.SampledFrom([]string{"evil", "1/file", "1/2/3/4/5/6/7/dst2/file", "1/evil/x"}).Draw(t, "abs")
	case 1:
		return strings.Repeat("../", rapid.IntRange(1, 6).Draw(t, "ups")) + rapid.SampledFrom([]string{"evil", "file", "dst2/file", "x/evil"}).Draw(t, "up")
	}
	n := rapid.IntRange(1, 5).Draw(t, "parts")
	ups := 0
	name := rapid.SampledFrom([]string{"", "", "", "/", "//"}).Draw(t, "lead")
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom([]string{"a", "b", "c", "..", "..", ".", "file", "dst2", "..a", "...", ""}).Draw(t, "part")
		if p == ".." {
			if ups == 6 {
				continue
			}
			ups++
		}
		if i > 0 {
			name += "/"
		}
		name += p
	}
	if strings.Trim(name, "/") == "" {
		return "a"
	}
	return name
}

// TestDamaged extracts damaged archives: the damage is reported, or there is no wrong content
func TestDamaged(t *testing.T) {
	ev.Check(t, "the damage was reported", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		tr := genTree(t, 6)
		tr["f"] = genContent(t)
		tr.write(filepath.Join(base, "src"))
		zf := filepath.Join(base, "arc.zip")
		if err := files.ZipFolder(filepath.Join(base, "src"), zf, nil, true); err != nil {
			t.Fatalf("zip: %v", err)
		}
		b, err := os.ReadFile(zf)
		must(err)
		cut := rapid.IntRange(0, 2).Draw(t, "cut") == 0
		what := ""
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		if cut {
			b = b[:at]
			what = fmt.Sprintf("cut at %d", at)
		} else {
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			what = fmt.Sprintf("damaged at %d of %d", at, len(b))
		}
		must(os.WriteFile(zf, b, 0o644))
		contents := map[string]bool{}
		for _, c := range tr {
			if c != nil {
				contents[string(c)] = true
			}
		}
		fds := openFiles()
		viaCopy := rapid.IntRange(0, 2).Draw(t, "copy") == 0
		var res tree
		if viaCopy {
			// copy the damaged archive to another one
			res = tree{}
			var zi files.ZipIterator
			if zi, err = files.NewZipIterator(zf); err == nil {
				var zw *files.ZipWriter
				zw, err = files.NewZipWriter(filepath.Join(base, "arc2.zip"))
				must(err)
				err = files.ZipCopy(zw, zi, "p")
				if cerr := zw.Close(); cerr != nil {
					t.Fatalf("close: %v", cerr)
				}
				if cerr := zi.Close(); cerr != nil {
					t.Fatalf("close: %v", cerr)
				}
				if err == nil {
					if res, err = zipTree(filepath.Join(base, "arc2.zip")); err != nil {
						t.Fatalf("the archive is %s, the copy of it is broken: %v", what, err)
					}
				}
			}
		} else {
			err = files.UnzipToFolder(zf, filepath.Join(base, "dst"))
			if err == nil {
				res = readTree(filepath.Join(base, "dst"))
			}
		}
		if err == nil {
			if cut {
				t.Fatalf("the archive of %s is %s, it is extracted without errors: %s", tr, what, res)
			}
			for n, c := range res {
				if c != nil && !contents[string(c)] {
					t.Fatalf("the archive of %s is %s, %q has a wrong content: %d bytes (copy: %t)", tr, what, n, len(c), viaCopy)
				}
			}
		}
		if n := openFiles(); n > fds {
			t.Fatalf("the archive is %s: %d files were open before and %d are after", what, fds, n)
		}
		ev.Case(t, err != nil, "%s %s: %v", tr, what, err)
	})
}

// TestNoSpace limits the size of a file: an operation reports the problem, or its result is complete
func TestNoSpace(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	ev.Check(t, "the problem was reported", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		tr := genTree(t, 6)
		tr["f"] = genContent(t)
		src, dst, zf := filepath.Join(base, "src"), filepath.Join(base, "dst"), filepath.Join(base, "arc.zip")
		tr.write(src)
		op := rapid.SampledFrom([]string{"zip", "unzip", "copy", "zipcopy", "write"}).Draw(t, "op")
		if op == "unzip" || op == "zipcopy" {
			if err := files.ZipFolder(src, zf, nil, true); err != nil {
				t.Fatalf("zip: %v", err)
			}
		}
		limit := rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 150000)).Draw(t, "limit")
		fds := openFiles()
		what := fmt.Sprintf("%s of %s, files are limited by %d", op, tr, limit)
		var err error
		withLimit(limit, func() {
			switch op {
			case "zip":
				err = files.ZipFolder(src, zf, nil, true)
			case "unzip":
				err = files.UnzipToFolder(zf, dst)
			case "copy":
				err = files.CopyDir(src, dst)
			case "write":
				err = files.WriteTo(dst, bytes.NewReader(tr["f"]))
			case "zipcopy":
				var zi files.ZipIterator
				zi, err = files.NewZipIterator(zf)
				if err != nil {
					return
				}
				var zw *files.ZipWriter
				if zw, err = files.NewZipWriter(filepath.Join(base, "arc2.zip")); err != nil {
					_ = zi.Close()
					return
				}
				err = files.ZipCopy(zw, zi, "")
				if cerr := zw.Close(); cerr != nil && err == nil {
					err = cerr
				}
				_ = zi.Close()
			}
		})
		if err == nil {
			exp := tr.onlyFiles(func(string) bool { return true })
			var got tree
			var e2 error
			switch op {
			case "zip":
				got, e2 = zipTree(zf)
			case "zipcopy":
				got, e2 = zipTree(filepath.Join(base, "arc2.zip"))
			case "unzip":
				got, exp = readTree(dst), exp.addDirs()
			case "copy":
				got, exp = readTree(dst), tr
			case "write":
				c, rerr := os.ReadFile(dst)
				got, exp, e2 = tree{"f": c}, tree{"f": tr["f"]}, rerr
				if len(c) == 0 && len(tr["f"]) == 0 {
					got = exp
				}
			}
			if e2 != nil {
				t.Fatalf("%s: no error is reported, the result is broken: %v", what, e2)
			}
			if d := diff(got, exp); d != "" {
				t.Fatalf("%s: no error is reported, the result is wrong: %s", what, d)
			}
		}
		if n := openFiles(); n > fds {
			t.Fatalf("%s: %d files were open before and %d are after", what, fds, n)
		}
		ev.Case(t, err != nil, "%s: %v", what, err)
	})
}

func withLimit(n int, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// TestWriter checks writing and merging of archives, and the small helpers
func TestWriter(t *testing.T) {
	ev.Check(t, "the resulting archive has several files", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		fds := openFiles()
		exp := tree{}
		zw, err := files.NewZipWriter("res.zip")
		if err != nil {
			t.Fatalf("NewZipWriter: %v", err)
		}
		var what []string
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			if rapid.Bool().Draw(t, "single") {
				name := rapid.SampledFrom([]string{"a", "b", "p/a", "p/b", "q/a/b"}).Draw(t, "name")
				c := genContent(t)
				w, err := zw.Create(name)
				what = append(what, name)
				if _, ok := exp[name]; ok {
					if !os.IsExist(err) {
						t.Fatalf("%q: the second file with the name %q: %v", what, name, err)
					}
					continue
				}
				if err != nil {
					t.Fatalf("%q: create: %v", what, err)
				}
				if _, err = w.Write(c); err != nil {
					t.Fatalf("%q: write: %v", what, err)
				}
				exp[name] = c
				continue
			}
			// add all the files of another archive
			tr := genTree(t, 5)
			arc := filepath.Join(base, fmt.Sprintf("arc%d.zip", n))
			f, err := os.Create(arc)
			must(err)
			w := zip.NewWriter(f)
			for _, n := range tr.names() {
				if tr[n] == nil {
					_, err = w.Create(n + "/")
					must(err)
					continue
				}
				e, err := w.Create(n)
				must(err)
				_, err = e.Write(tr[n])
				must(err)
			}
			must(w.Close())
			must(f.Close())
			prefix := rapid.SampledFrom([]string{"", "p", "q/a", "r"}).Draw(t, "prefix")
			what = append(what, fmt.Sprintf("%q: %s", prefix, tr))
			dup := false
			add := tree{}
			for n, c := range tr {
				if c == nil {
					continue
				}
				m := filepath.Join(prefix, n)
				if _, ok := exp[m]; ok {
					dup = true
				}
				add[m] = c
			}
			zi, err := files.NewZipIterator(arc)
			if err != nil {
				t.Fatalf("%q: NewZipIterator: %v", what, err)
			}
			if dup {
				// which files are copied depends on their order
				_ = zi.Close()
				continue
			}
			if err = files.ZipCopy(zw, zi, prefix); err != nil {
				t.Fatalf("%q: ZipCopy: %v", what, err)
			}
			if zi.Next() != nil {
				t.Fatalf("%q: a file after the last one", what)
			}
			if err = zi.Close(); err != nil {
				t.Fatalf("%q: close: %v", what, err)
			}
			for n, c := range add {
				exp[n] = c
			}
		}
		if err = zw.Close(); err != nil {
			t.Fatalf("%q: close: %v", what, err)
		}
		got, err := zipTree("res.zip")
		if err != nil {
			t.Fatalf("%q: %v", what, err)
		}
		for n, c := range got {
			if strings.HasSuffix(n, "/") && len(c) == 0 {
				delete(got, n)
			}
		}
		if d := diff(got, exp); d != "" {
			t.Fatalf("%q: %s", what, d)
		}
		if n := openFiles(); n > fds {
			t.Fatalf("%q: %d files were open before and %d are after", what, fds, n)
		}
		ev.Case(t, len(exp) > 1, "%q", what)
	})
}

// TestEnsure checks the helpers which create files and folders
func TestEnsure(t *testing.T) {
	ev.Check(t, "the folder is not empty", func(t *rapid.T) {
		base, done := scratch(t)
		defer done()
		tr := genTree(t, 6)
		dir := filepath.Join(base, "src")
		tr.write(dir)
		must(os.Chdir(dir))
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			n := rapid.SampledFrom(append(tr.names(), parts...)).Draw(t, "name")
			if rapid.Bool().Draw(t, "sub") {
				n = n + "/" + rapid.SampledFrom(parts).Draw(t, "name2")
			}
			p := rapid.SampledFrom([]string{"", "./", dir + "/"}).Draw(t, "spelling") + n
			conflict := false // a file is in the way
			for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
				if tr[d] != nil {
					conflict = true
				}
			}
			c, ok := tr[n]
			switch rapid.SampledFrom([]string{"file", "file", "dir", "empty", "write", "random"}).Draw(t, "op") {
			case "file":
				if conflict || ok && c == nil {
					continue
				}
				if err := files.EnsureFileExists(p); err != nil {
					t.Fatalf("%s: EnsureFileExists(%q): %v", tr, p, err)
				}
				if !ok {
					tr[n] = []byte{}
				}
			case "dir":
				if conflict || c != nil {
					continue
				}
				if err := files.EnsureDirExists(p); err != nil {
					t.Fatalf("%s: EnsureDirExists(%q): %v", tr, p, err)
				}
				tr[n] = nil
			case "empty":
				if !ok || c != nil {
					if res, err := files.IsDirEmpty(p); err == nil && res && !ok {
						t.Fatalf("%s: IsDirEmpty(%q) = true, it does not exist", tr, p)
					}
					continue
				}
				exp := true
				for m := range tr {
					if strings.HasPrefix(m, n+"/") {
						exp = false
					}
				}
				if res, err := files.IsDirEmpty(p); err != nil || res != exp {
					t.Fatalf("%s: IsDirEmpty(%q): %t %v, must be %t", tr, p, res, err, exp)
				}
			case "write":
				if conflict || ok && c == nil || filepath.Dir(n) != "." {
					continue
				}
				cnt := genContent(t)
				if err := files.WriteTo(p, bytes.NewReader(cnt)); err != nil {
					t.Fatalf("%s: WriteTo(%q): %v", tr, p, err)
				}
				tr[n] = cnt
			case "random":
				d, err := files.CreateRandomDir(dir, "p")
				if err != nil || filepath.Dir(d) != dir || !strings.HasPrefix(filepath.Base(d), "p") {
					t.Fatalf("%s: CreateRandomDir: %q, %v", tr, d, err)
				}
				if _, ok := tr[filepath.Base(d)]; ok {
					t.Fatalf("%s: CreateRandomDir: %q existed", tr, d)
				}
				tr[filepath.Base(d)] = nil
				fn, err := files.CreateRandomFileName(dir, "q")
				if err != nil || filepath.Dir(fn) != dir || !strings.HasPrefix(filepath.Base(fn), "q") {
					t.Fatalf("%s: CreateRandomFileName: %q, %v", tr, fn, err)
				}
			}
			tr.addDirs()
			if d := diff(readTree(dir), tr); d != "" {
				t.Fatalf("%q: %s", p, d)
			}
			ev.Case(t, len(tr) > 0, "%q %s", p, tr)
		}
	})
}
