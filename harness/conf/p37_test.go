// The checks of P37: layers of configuration
package conf

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/solarisdb/solaris/golibs/config"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/server"
	"pgregory.net/rapid"
	"solverif/ev"
)

type named string

type deep struct {
	Num   int64
	Text  string   `json:"txt"`
	Flag  *bool    `json:"flg,omitempty"`
	Words []string `yaml:"jsonWords" json:"wds"`
	Dict  map[string]string
	inner int
}

type mid struct {
	Int    int `json:",omitempty"`
	IntPtr *int
	Deep   deep
	DeepP  *deep `json:"deepPtr"`
	F      float64
}

type Top struct {
	Bool    bool
	Int     int `json:"number"`
	Byte    uint8
	Str     string
	StrP    *string `json:"strptr" yaml:"x"`
	Name    named
	F       float64
	Strs    []string
	Ints    []int `json:"numbers"`
	Map     map[string]int
	When    time.Time
	WhenP   *time.Time
	MidV    mid
	MidP    *mid `yaml:"json" json:"middle"`
	secret  string
	PtrBool *bool
	Dur     time.Duration
}

// leaf is a field which may be set
type leaf struct {
	path []string // the names of the fields
	idx  [][]int  // their indexes
	json []string // the names in the JSON and YAML files
	typ  reflect.Type
	full bool // a whole structure
}

var (
	timeT = reflect.TypeOf(time.Time{})
	durT  = reflect.TypeOf(time.Duration(0))
)

func elem(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Pointer {
		return t.Elem()
	}
	return t
}

func leaves(t reflect.Type, pre leaf) []leaf {
	var res []leaf
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		j, _, _ := strings.Cut(f.Tag.Get("json"), ",")
		if j == "" {
			j = f.Name
		}
		l := leaf{
			path: append(append([]string{}, pre.path...), f.Name),
			idx:  append(append([][]int{}, pre.idx...), f.Index),
			json: append(append([]string{}, pre.json...), j),
			typ:  f.Type,
		}
		if e := elem(f.Type); e.Kind() == reflect.Struct && e != timeT {
			res = append(res, leaves(e, l)...)
			l.full = true
		}
		res = append(res, l)
	}
	return res
}

// set sets the field of the value, creating everything on the way
func (l leaf) set(root reflect.Value, v reflect.Value, merge bool) {
	for i, idx := range l.idx {
		if root.Kind() == reflect.Pointer {
			if root.IsNil() {
				root.Set(reflect.New(root.Type().Elem()))
			}
			root = root.Elem()
		}
		root = root.FieldByIndex(idx)
		if i == len(l.idx)-1 {
			if merge && root.Kind() == reflect.Map && !root.IsNil() {
				// a file adds the keys to the map
				m := reflect.MakeMap(root.Type())
				for _, k := range root.MapKeys() {
					m.SetMapIndex(k, root.MapIndex(k))
				}
				for _, k := range v.MapKeys() {
					m.SetMapIndex(k, v.MapIndex(k))
				}
				v = m
			}
			root.Set(clone(v))
		}
	}
}

// clone makes a deep copy by the JSON-independent way
func clone(v reflect.Value) reflect.Value {
	res := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			res.Set(reflect.New(v.Type().Elem()))
			res.Elem().Set(clone(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			res.Set(reflect.MakeSlice(v.Type(), 0, v.Len()))
			for i := 0; i < v.Len(); i++ {
				res.Set(reflect.Append(res, clone(v.Index(i))))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			res.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				res.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		res.Set(v)
		if v.Type() != timeT {
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					res.Field(i).Set(clone(v.Field(i)))
				}
			}
		}
	default:
		res.Set(v)
	}
	return res
}

var texts = []string{"a", "hello world", "1", "-1.5", "true", "", " x ", "a\"b", "\"", "a\\n", "tab\tnew\nline", "\a\x1b\x00\u007f", "é世\U0001F600", "a,b", "{}", "[1]", "{\"a\": 1}", "#x", "a: b", "- a",
	"~", "<&>", "\u2028", "null", "'", "0x10", "1e3", "2020-01-01", "%s", "\u0085", "yes"}

// genValue makes a value of the type
func genValue(t *rapid.T, tp reflect.Type, depth int) reflect.Value {
	v := reflect.New(tp).Elem()
	switch {
	case tp == timeT:
		v.Set(reflect.ValueOf(time.Unix(rapid.Int64Range(0, 4e9).Draw(t, "sec"), rapid.SampledFrom([]int64{0, 1, 999999999, 5e8}).Draw(t, "ns")).UTC()))
		return v
	case tp.Kind() == reflect.Pointer:
		v.Set(reflect.New(tp.Elem()))
		v.Elem().Set(genValue(t, tp.Elem(), depth))
		return v
	}
	switch tp.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Int, reflect.Int64:
		v.SetInt(rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(-(1<<53), 1<<53), rapid.Just(int64(0))).Draw(t, "i"))
	case reflect.Uint8:
		v.SetUint(uint64(rapid.IntRange(0, 255).Draw(t, "u")))
	case reflect.Float64:
		v.SetFloat(rapid.SampledFrom([]float64{0, 1, -1, 0.5, 1e-9, 1e21, -123.456, 3}).Draw(t, "f"))
	case reflect.String:
		v.SetString(rapid.OneOf(rapid.SampledFrom(texts), rapid.StringN(0, 8, -1)).Draw(t, "s"))
	case reflect.Slice:
		n := rapid.IntRange(0, 3).Draw(t, "len")
		v.Set(reflect.MakeSlice(tp, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(genValue(t, tp.Elem(), depth+1))
		}
	case reflect.Map:
		n := rapid.IntRange(0, 3).Draw(t, "len")
		v.Set(reflect.MakeMap(tp))
		for i := 0; i < n; i++ {
			v.SetMapIndex(reflect.ValueOf(rapid.SampledFrom([]string{"a", "A", "b", "key", "x y", "é"}).Draw(t, "k")), genValue(t, tp.Elem(), depth+1))
		}
	case reflect.Struct:
		for _, l := range leaves(tp, leaf{}) {
			if !l.full && rapid.IntRange(0, 2).Draw(t, "has") == 0 {
				l.set(v, genValue(t, l.typ, depth+1), false)
			}
		}
	default:
		panic(tp.String())
	}
	return v
}

func text(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic("EV-ENV: " + err.Error())
	}
	return string(b)
}

func show(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func mixCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(t, "up") {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// node is an element of a file
type node struct {
	kids  []string
	names map[string]*node
	leaf  *reflect.Value
}

type assignment struct {
	l leaf
	v reflect.Value
}

func tree(as []assignment) *node {
	root := &node{names: map[string]*node{}}
	for i := range as {
		n := root
		for _, j := range as[i].l.json {
			k, ok := n.names[j]
			if !ok {
				k = &node{names: map[string]*node{}}
				n.names[j] = k
				n.kids = append(n.kids, j)
			}
			n = k
		}
		n.leaf = &as[i].v
	}
	return root
}

func (n *node) json(t *rapid.T, noise bool) string {
	if n.leaf != nil {
		return text(*n.leaf)
	}
	var parts []string
	for _, k := range n.kids {
		parts = append(parts, text(reflect.ValueOf(mixCase(t, k)))+rapid.SampledFrom([]string{":", ": "}).Draw(t, "colon")+n.names[k].json(t, noise))
	}
	if noise && rapid.IntRange(0, 4).Draw(t, "noise") == 0 {
		parts = append(parts, `"unknownField": {"a": [1, 2]}`)
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

func (n *node) yaml(t *rapid.T, indent string, sb *strings.Builder) {
	for _, k := range n.kids {
		key := mixCase(t, k)
		kid := n.names[k]
		if kid.leaf != nil {
			fmt.Fprintf(sb, "%s%s: %s\n", indent, key, yamlValue(t, *kid.leaf))
			continue
		}
		fmt.Fprintf(sb, "%s%s:\n", indent, key)
		kid.yaml(t, indent+"  ", sb)
	}
	if rapid.IntRange(0, 5).Draw(t, "comment") == 0 {
		fmt.Fprintf(sb, "%s# a comment\n", indent)
	}
}

// yamlValue is the value in YAML: JSON is a part of it, almost
func yamlValue(t *rapid.T, v reflect.Value) string {
	s := text(v)
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r < 0x7f || unicode.IsLetter(r) && rapid.Bool().Draw(t, "raw"):
			sb.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			fmt.Fprintf(&sb, "\\U%08x", r)
		}
	}
	return sb.String()
}

func file(t *rapid.T, dir string, as []assignment) (string, string) {
	var cnt, ext string
	if rapid.Bool().Draw(t, "yaml") {
		ext = rapid.SampledFrom([]string{".yaml", ".yaml", ".YAML", ".Yaml"}).Draw(t, "ext")
		var sb strings.Builder
		if rapid.Bool().Draw(t, "header") {
			sb.WriteString("---\n")
		}
		if len(as) == 0 {
			sb.WriteString("{}\n")
		}
		tree(as).yaml(t, "", &sb)
		cnt = sb.String()
	} else {
		ext = rapid.SampledFrom([]string{".json", ".json", ".JSON", ".Json"}).Draw(t, "ext")
		cnt = tree(as).json(t, true)
	}
	fn := filepath.Join(dir, rapid.SampledFrom([]string{"cfg", "a.b", "cfg.json", "cfg.yaml", "x y"}).Draw(t, "name")+ext)
	if err := os.WriteFile(fn, []byte(cnt), 0o644); err != nil {
		panic("EV-ENV: " + err.Error())
	}
	return fn, cnt
}

// pick takes some of the leaves, none of them is a part of another one
func pick(t *rapid.T, all []leaf, max int, full bool) []leaf {
	var res []leaf
	for n := rapid.IntRange(0, max).Draw(t, "leaves"); n > 0; n-- {
		l := rapid.SampledFrom(all).Draw(t, "leaf")
		if l.full && !full {
			continue
		}
		ok := true
		for _, o := range res {
			a, b := strings.Join(o.path, ".")+".", strings.Join(l.path, ".")+"."
			if strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
				ok = false
			}
		}
		if ok {
			res = append(res, l)
		}
	}
	return res
}

// plain returns the value of a variable
func plain(t *rapid.T, v reflect.Value) string {
	e := v
	if e.Kind() == reflect.Pointer {
		e = e.Elem()
	}
	if e.Kind() == reflect.String {
		s := e.String()
		q := strings.Trim(s, " ")
		if rapid.Bool().Draw(t, "plain") && s != "" && !(len(q) > 1 && q[0] == '"' && q[len(q)-1] == '"') && !strings.Contains(s, "\x00") {
			return s
		}
	}
	s := strings.ReplaceAll(text(v), "\x00", "\\u0000")
	if rapid.IntRange(0, 3).Draw(t, "pad") == 0 {
		s = rapid.SampledFrom([]string{" ", "", "   "}).Draw(t, "before") + s + rapid.SampledFrom([]string{" ", ""}).Draw(t, "after")
	}
	return s
}

// variables makes the variables for the assignments
func variables(t *rapid.T, as []assignment, prefix, sep string) map[string]string {
	res := map[string]string{}
	for _, a := range as {
		key := prefix
		if prefix != "" {
			key += sep
		}
		for i := range a.l.path {
			n := a.l.path[i]
			if rapid.Bool().Draw(t, "alias") {
				n = a.l.json[i]
			}
			if i > 0 {
				key += sep
			}
			key += n
		}
		res[mixCase(t, key)] = plain(t, a.v)
	}
	// what means nothing
	if rapid.Bool().Draw(t, "noise") {
		p := prefix
		if p != "" {
			p += sep
		}
		for k, v := range map[string]string{
			p + "NoSuchField":                           "1",
			p + "MidP" + sep + "NoSuch":                 "{}",
			p + "MidP" + sep + "DeepP" + sep + "NoSuch": "1",
			p + "GrpcTransport" + sep + "NoSuch":        "1",
			p + "MidV" + sep + "NoSuch":                 "{}",
			p + "Int" + sep + "Sub":                     "7",
			p + "DB" + sep + "Sub" + sep + "x":          "7",
			p + "secret" + sep + "x":                    "1",
		} {
			res[k] = v
		}
		if prefix != "" {
			res[prefix+"Int"] = "77"
			res[prefix+"X"+sep+"Int"] = "78"
			res["X"+prefix+sep+"Int"] = "79"
			res[prefix] = "80"
		}
		for _, l := range []string{"Str", "Bool", "MidP", "HttpPort"} {
			if _, ok := res[strings.ToUpper(p+l)]; !ok && !hasKey(res, p+l) {
				res[p+l] = "" // an empty value sets nothing
			}
		}
	}
	return res
}

func hasKey(m map[string]string, key string) bool {
	for k := range m {
		if strings.HasPrefix(strings.ToUpper(k), strings.ToUpper(key)) {
			return true
		}
	}
	return false
}

func setenv(vars map[string]string) func() {
	for k, v := range vars {
		if err := os.Setenv(k, v); err != nil {
			panic("EV-ENV: " + err.Error())
		}
	}
	return func() {
		for k := range vars {
			_ = os.Unsetenv(k)
		}
	}
}

func catch(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

func describe(as []assignment) string {
	var parts []string
	for _, a := range as {
		parts = append(parts, strings.Join(a.l.path, ".")+"="+text(a.v))
	}
	sort.Strings(parts)
	return "{" + strings.Join(parts, ", ") + "}"
}

// values generates the values for the leaves
func values(t *rapid.T, ls []leaf) []assignment {
	var res []assignment
	for _, l := range ls {
		res = append(res, assignment{l, genValue(t, l.typ, 0)})
	}
	return res
}

// setsInOther returns whether the value is set in another value
func setsInOther(v reflect.Value) bool {
	return !v.IsZero()
}

// TestLayers applies layers one by one and compares the value with the one made field by field
func TestLayers(t *testing.T) {
	all := leaves(reflect.TypeOf(Top{}), leaf{})
	ev.Check(t, "at least two layers set a field, one of them is in a structure behind a pointer", func(t *rapid.T) {
		dir, done := ev.Dir(t)
		defer done()
		var want Top
		root := reflect.ValueOf(&want).Elem()
		for _, a := range values(t, pick(t, all, 6, false)) {
			a.l.set(root, a.v, false)
		}
		start := clone(root).Interface().(Top)
		e := config.NewEnricher(start)
		trace := []string{"start " + show(want)}
		nlayers, behind := 0, false
		for n := rapid.IntRange(1, 4).Draw(t, "layers"); n > 0; n-- {
			kind := rapid.SampledFrom([]string{"other", "other", "file", "file", "env", "env", "kv", "secrets", "bad"}).Draw(t, "layer")
			full := kind == "env" || kind == "kv" || kind == "secrets"
			as := values(t, pick(t, all, 6, full))
			what := kind + " " + describe(as)
			switch kind {
			case "other":
				var o Top
				ov := reflect.ValueOf(&o).Elem()
				for _, a := range as {
					a.l.set(ov, a.v, false)
				}
				o.secret = "secret"
				trace = append(trace, what)
				oe := config.NewEnricher(o)
				if err := e.ApplyOther(oe); err != nil {
					t.Fatalf("%s: %v", strings.Join(trace, "\n"), err)
				}
				for _, a := range as {
					if setsInOther(a.v) {
						a.l.set(root, a.v, false)
					} else if len(a.l.path) > 1 {
						// the structures on the way are not empty pointers in the other value
						touch(root, ov, a.l)
					}
				}
			case "file":
				fn, cnt := file(t, dir, as)
				what = filepath.Base(fn) + " " + cnt
				trace = append(trace, what)
				var err error
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					if strings.EqualFold(filepath.Ext(fn), ".json") {
						err = e.LoadFromJSONFile(fn)
					} else {
						err = e.LoadFromYAMLFile(fn)
					}
				default:
					err = e.LoadFromFile(fn)
				}
				if err != nil {
					t.Fatalf("%s: %v", strings.Join(trace, "\n"), err)
				}
				for _, a := range as {
					a.l.set(root, a.v, true)
				}
			case "env", "kv":
				prefix := rapid.SampledFrom([]string{"VERIFCFG", "verifCfg", "VERIF_CFG", "VerifCfg2", "MIDP", "midV", "Deep", "DeepP"}).Draw(t, "prefix")
				sep := rapid.SampledFrom([]string{"_", ".", "__", "-", "x_X"}).Draw(t, "sep")
				if kind == "kv" && rapid.Bool().Draw(t, "noPrefix") {
					prefix = ""
				}
				vars := variables(t, as, prefix, sep)
				what = fmt.Sprintf("%s prefix=%q sep=%q %q", kind, prefix, sep, vars)
				trace = append(trace, what)
				if kind == "kv" {
					e.ApplyKeyValues(prefix, sep, vars)
				} else {
					restore := setenv(vars)
					err := func() error {
						defer restore()
						return e.ApplyEnvVariables(prefix, sep)
					}()
					if err != nil {
						t.Fatalf("%s: %v", strings.Join(trace, "\n"), err)
					}
				}
				for _, a := range as {
					a.l.set(root, a.v, false)
				}
			case "secrets":
				vars := variables(t, as, "", "_")
				b, _ := json.Marshal(vars)
				fn := filepath.Join(dir, "secrets")
				if err := os.WriteFile(fn, b, 0o644); err != nil {
					panic("EV-ENV: " + err.Error())
				}
				trace = append(trace, fmt.Sprintf("secrets %s", b))
				if err := config.LoadJSONAndApply(e, fn); err != nil {
					t.Fatalf("%s: %v", strings.Join(trace, "\n"), err)
				}
				for _, a := range as {
					a.l.set(root, a.v, false)
				}
			case "bad":
				trace = append(trace, bad(t, dir, e, all))
				as = nil
			}
			got := e.Value()
			if len(as) > 0 {
				nlayers++
			}
			for _, a := range as {
				behind = behind || a.l.path[0] == "MidP" && len(a.l.path) > 1
			}
			want.secret = got.secret // whatever it is
			if !reflect.DeepEqual(got, want) {
				t.Fatalf("%s\nthe value is\n%s, must be\n%s", strings.Join(trace, "\n"), show(got), show(want))
			}
			if got.secret != "" {
				t.Fatalf("%s\nan unexported field is changed", strings.Join(trace, "\n"))
			}
		}
		ev.Case(t, nlayers > 1 && behind, "%s", strings.Join(trace, " | "))
	})
}

// touch creates the structures, which are on the way to the leaf, if they are not zeroes in the other value
func touch(root, other reflect.Value, l leaf) {
	for _, idx := range l.idx[:len(l.idx)-1] {
		root, other = root.FieldByIndex(idx), other.FieldByIndex(idx)
		if root.Kind() == reflect.Pointer {
			if other.IsNil() {
				return
			}
			if root.IsNil() {
				root.Set(reflect.New(root.Type().Elem()))
			}
			root, other = root.Elem(), other.Elem()
		}
	}
}

// bad makes something malformed and checks that it is reported and not applied
func bad(t *rapid.T, dir string, e config.Enricher[Top], all []leaf) string {
	write := func(name, cnt string) string {
		fn := filepath.Join(dir, name)
		if err := os.WriteFile(fn, []byte(cnt), 0o644); err != nil {
			panic("EV-ENV: " + err.Error())
		}
		return fn
	}
	before := show(e.Value())
	kind := rapid.SampledFrom([]string{"cut", "cutYaml", "missing", "ext", "secrets", "missingSecrets", "noname", "variable"}).Draw(t, "bad")
	var err error
	panicked := false
	what := kind
	switch kind {
	case "cut":
		as := values(t, pick(t, all, 4, false))
		cnt := tree(as).json(t, false)
		cnt = cnt[:rapid.IntRange(0, len(cnt)-1).Draw(t, "cut")]
		what += " " + cnt
		err = e.LoadFromFile(write("bad.json", cnt))
	case "cutYaml":
		cnt := rapid.SampledFrom([]string{"a: [1, 2", "\tmidv:\n\t\tint: 5", "int: {", "- 1\n- 2", "number: \"abc\"", "Byte: 300", "justtext", "number: [1]"}).Draw(t, "yaml")
		what += " " + cnt
		err = e.LoadFromFile(write("bad.yaml", cnt))
	case "missing":
		err = e.LoadFromFile(filepath.Join(dir, rapid.SampledFrom([]string{"no.yaml", "no.json"}).Draw(t, "name")))
		if err != nil && !errors.Is(err, errors.ErrNotExist) {
			t.Fatalf("a missing file is reported as %v", err)
		}
	case "ext":
		err = e.LoadFromFile(write(rapid.SampledFrom([]string{"cfg", "cfg.txt", "json", "cfg.json5", "cfg.yaml.bak"}).Draw(t, "name"), "{}"))
	case "secrets":
		err = config.LoadJSONAndApply(e, write("secrets", rapid.SampledFrom([]string{"", "{", `{"INT": 1}`, `["INT"]`, "INT=1", `{"INT": "1"`}).Draw(t, "cnt")))
	case "missingSecrets":
		err = config.LoadJSONAndApply(e, rapid.SampledFrom([]string{"", filepath.Join(dir, "nothing")}).Draw(t, "name"))
	case "noname":
		// no file is not an error
		for _, f := range []func(string) error{e.LoadFromFile, e.LoadFromJSONFile, e.LoadFromYAMLFile} {
			if err := f(""); err != nil {
				t.Fatalf("no file: %v", err)
			}
		}
		err = errors.ErrInvalid
	case "variable":
		kv := rapid.SampledFrom([]map[string]string{{"INT": "abc"}, {"BYTE": "256"}, {"BYTE": "-1"}, {"BOOL": "maybe"}, {"STRS": "a, b"}, {"MAP": "{"}, {"MIDP": "5"}, {"INT": "1.5"}, {"INT": "12x"},
			{"MIDV_INT": "x"}, {"MIDP_DEEP_NUM": "5 6"}, {"WHEN": "yesterday"}, {"STR": `"a"b"`}, {"NUMBERS": `["a"]`}}).Draw(t, "var")
		what += fmt.Sprintf(" %q", kv)
		panicked = catch(func() { e.ApplyKeyValues("", "_", kv) }) != nil
		err = errors.ErrInvalid // there is no way to report it, but it must not be applied
	}
	if err == nil && !panicked {
		t.Fatalf("%s is not reported", what)
	}
	if kind != "cutYaml" {
		if after := show(e.Value()); after != before {
			t.Fatalf("%s: the value was\n%s and is\n%s", what, before, after)
		}
	} else if after := show(e.Value()); after != before {
		t.Fatalf("%s: the value was\n%s and is\n%s", what, before, after)
	}
	return "bad " + what
}

// TestServer builds the configuration of the server: the defaults, the file, the variables
func TestServer(t *testing.T) {
	all := leaves(reflect.TypeOf(server.Config{}), leaf{})
	def, err := server.BuildConfig("")
	if err != nil {
		t.Fatalf("EV-FAIL: no file: %v", err)
	}
	if def.HttpPort == 0 || def.GrpcTransport == nil || def.GrpcTransport.Port == 0 || def.DB == nil || def.LocalDBFilePath == "" || def.MaxOpenedLogFiles == 0 {
		t.Fatalf("EV-FAIL: the defaults are %s", show(def))
	}
	ev.Check(t, "a field is set by the file and another one by a variable", func(t *rapid.T) {
		dir, done := ev.Dir(t)
		defer done()
		root := clone(reflect.ValueOf(*def)).Interface().(server.Config)
		want := reflect.ValueOf(&root).Elem()
		fas := values(t, pick(t, all, 6, false))
		eas := values(t, pick(t, all, 4, true))
		fn, cnt := file(t, dir, fas)
		if rapid.IntRange(0, 5).Draw(t, "nofile") == 0 {
			fn, cnt, fas = "", "", nil
		}
		for _, a := range fas {
			if setsInOther(a.v) {
				a.l.set(want, a.v, true)
			}
		}
		vars := variables(t, eas, rapid.SampledFrom([]string{"SOLARIS", "solaris", "Solaris"}).Draw(t, "prefix"), "_")
		for _, a := range eas {
			a.l.set(want, a.v, false)
		}
		restore := setenv(vars)
		got, err := func() (*server.Config, error) {
			defer restore()
			return server.BuildConfig(fn)
		}()
		if err != nil {
			t.Fatalf("%s %q: %v", cnt, vars, err)
		}
		if !reflect.DeepEqual(*got, root) {
			t.Fatalf("file %s\nvariables %q\nthe value is\n%s, must be\n%s", cnt, vars, show(got), show(root))
		}
		if d, err := server.BuildConfig(""); err != nil || !reflect.DeepEqual(d, def) {
			t.Fatalf("the defaults are changed: %v\n%s", err, show(d))
		}
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			bfn := filepath.Join(dir, rapid.SampledFrom([]string{"bad.json", "bad.yaml", "bad"}).Draw(t, "badName"))
			if err := os.WriteFile(bfn, []byte(rapid.SampledFrom([]string{"{", "HttpPort: [", "{\"HttpPort\": \"x\"}", "DB: 5"}).Draw(t, "badCnt")), 0o644); err != nil {
				panic("EV-ENV: " + err.Error())
			}
			if c, err := server.BuildConfig(bfn); err == nil {
				t.Fatalf("a bad file %s is not reported: %s", bfn, show(c))
			}
			if c, err := server.BuildConfig(filepath.Join(dir, "missing.yaml")); err == nil {
				t.Fatalf("a missing file is not reported: %s", show(c))
			}
		}
		ev.Case(t, len(fas) > 0 && len(eas) > 0, "%s %q", cnt, vars)
	})
}
