package base

import (
	stderrors "errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/errors"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// kinds which have gRPC codes
var kinds = []struct {
	name string
	err  error
	code codes.Code
}{
	{"exist", errors.ErrExist, codes.AlreadyExists},
	{"notExist", errors.ErrNotExist, codes.NotFound},
	{"invalid", errors.ErrInvalid, codes.InvalidArgument},
	{"notAuthorized", errors.ErrNotAuthorized, codes.PermissionDenied},
	{"dataLoss", errors.ErrDataLoss, codes.DataLoss},
	{"exhausted", errors.ErrExhausted, codes.ResourceExhausted},
	{"unimplemented", errors.ErrUnimplemented, codes.Unimplemented},
	{"conflict", errors.ErrConflict, codes.FailedPrecondition},
	{"canceled", errors.ErrCanceled, codes.Canceled},
	{"internal", errors.ErrInternal, codes.Internal},
}

var others = map[string]error{"closed": errors.ErrClosed, "communication": errors.ErrCommunication}

type wrapErr struct{ err error }

func (w wrapErr) Error() string { return "wrapped " + w.err.Error() }
func (w wrapErr) Unwrap() error { return w.err }

// listErr cannot be compared
type listErr struct {
	errs []string
	err  error
}

func (l listErr) Error() string { return strings.Join(l.errs, ",") + " " + l.err.Error() }
func (l listErr) Unwrap() error { return l.err }

type sliceErr []string

func (l sliceErr) Error() string { return strings.Join(l, ",") }

type isErr struct{ target error }

func (w isErr) Error() string        { return "custom error" }
func (w isErr) Is(target error) bool { return w.target == target }

type obj struct {
	A string
	B int
	C []string
	D map[string]float64
	E *obj
}

func genText(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "text", "a: b", "not found", "100%s", "\x1b", "json", "é\n", "invalid argument", "rpc error: code = NotFound desc = x", strings.Repeat("long ", 100)}).Draw(t, "text")
}

func genObj(t *rapid.T) *obj {
	o := &obj{A: genText(t) + rapid.StringN(0, 5, 20).Draw(t, "A"), B: rapid.Int().Draw(t, "B")}
	if rapid.Bool().Draw(t, "nested") {
		o.C = rapid.SliceOfN(rapid.SampledFrom([]string{"", "\x1bjson", "\x1b", "x", `"`, "{", "<>&"}), 1, 3).Draw(t, "C")
		o.D = map[string]float64{"x\x1bjson": 1.5}
		o.E = &obj{A: "\x1bjson"}
	}
	return o
}

// TestErrors: P24
func TestErrors(t *testing.T) {
	ev.Check(t, "the error is wrapped at least twice or has an object, and went through at least one hop", func(t *rapid.T) {
		ki := rapid.IntRange(0, len(kinds)+4).Draw(t, "kind")
		var err error
		name := "unknown"
		switch {
		case ki < len(kinds):
			err, name = kinds[ki].err, kinds[ki].name
			switch v := rapid.IntRange(0, 5).Draw(t, "variant"); {
			case v == 0:
				err = isErr{err}
			case v == 1 && name == "notExist":
				_, err = os.Open("/nonexistent/file")
			case v == 1 && name == "exist":
				err = os.Mkdir("/", 0777)
			case v == 2 && name == "notExist":
				err = syscall.ENOENT
			case v == 2 && name == "notAuthorized":
				err = &fs.PathError{Op: "open", Path: "x", Err: syscall.EACCES}
			case v == 3:
				// it comes from another service
				err = status.Error(kinds[ki].code, "remote "+genText(t))
			}
		case ki == len(kinds):
			err = fmt.Errorf("unknown")
		case ki == len(kinds)+1:
			err = io.EOF
		case ki == len(kinds)+3:
			err = sliceErr{"unknown", "error"}
		case ki == len(kinds)+2:
			err, name = errors.ErrClosed, "closed"
		default:
			err, name = errors.ErrCommunication, "communication"
		}
		var o *obj
		trace := []string{name + "=" + err.Error()}
		wraps, hops := 0, 0
		received := false
		check := func() {
			t.Helper()
			if errors.GRPCStatusCode(err) == codes.OK {
				t.Fatalf("%v: the code is OK", trace)
			}
			for _, k := range kinds {
				is := errors.Is(err, k.err)
				want := k.name == name || received && name == "unknown" && k.name == "internal"
				if !want && (name == "closed" || name == "communication") && received && k.name == "internal" {
					continue // these kinds have no codes
				}
				if is != want {
					t.Fatalf("%v: the error %q is %s: %t", trace, err, k.name, is)
				}
				if k.name == name {
					if c := errors.GRPCStatusCode(err); c != k.code {
						t.Fatalf("%v: the code of %q is %s", trace, err, c)
					}
				}
			}
			for n, e := range others {
				if is := errors.Is(err, e); is != (n == name) && !(received && (name == "closed" || name == "communication")) {
					t.Fatalf("%v: the error %q is %s: %t", trace, err, n, is)
				}
			}
			if name == "unknown" {
				if c := errors.GRPCStatusCode(err); c != codes.Internal {
					t.Fatalf("%v: the code of the unknown error is %s", trace, c)
				}
			}
			var got obj
			if ok := errors.ExtractObject(err, &got); ok != (o != nil) || ok && !reflect.DeepEqual(&got, o) {
				t.Fatalf("%v: extracted %t %+v, expected %+v", trace, ok, got, o)
			}
			if errors.ExtractObject(nil, &got) {
				t.Fatal("extracted from nil")
			}
		}
		for n := rapid.IntRange(0, 7).Draw(t, "steps"); n > 0; n-- {
			prev := err
			switch rapid.SampledFrom([]string{"wrap", "wrap", "type", "list", "join", "embed", "hop", "hop"}).Draw(t, "step") {
			case "wrap":
				txt := genText(t)
				err = fmt.Errorf("%s: %w", txt, err)
				trace = append(trace, fmt.Sprintf("wrap %.20q", txt))
				wraps++
			case "type":
				err = wrapErr{err}
				trace = append(trace, "type")
				wraps++
			case "list":
				err = listErr{[]string{"a", "b"}, err}
				trace = append(trace, "list")
				wraps++
			case "join":
				err = stderrors.Join(nil, err, fmt.Errorf("something else"))
				trace = append(trace, "join")
				wraps++
			case "embed":
				if o != nil {
					continue
				}
				x := genObj(t)
				err = errors.EmbedObject(x, err)
				o = x
				trace = append(trace, fmt.Sprintf("embed %+v", *x))
			case "hop":
				w := errors.GRPCWrap(err)
				if w == nil {
					t.Fatalf("%v: no error after GRPCWrap", trace)
				}
				st, ok := status.FromError(w)
				if !ok || st.Code() == codes.OK {
					t.Fatalf("%v: %v is not a status", trace, w)
				}
				if !strings.HasSuffix(errors.FromGRPCErrorMsg(w), msgOf(prev)) {
					t.Fatalf("%v: the message is %q, but it was %q", trace, errors.FromGRPCErrorMsg(w), prev)
				}
				err = status.Error(st.Code(), st.Message())
				received = true
				hops++
				trace = append(trace, "hop")
				if f := errors.FromGRPCError(err); f == nil || name == "unknown" && f != errors.ErrInternal {
					t.Fatalf("%v: FromGRPCError is %v", trace, f)
				}
				if w2 := errors.GRPCWrap(err); status.Code(w2) != st.Code() {
					t.Fatalf("%v: wrapped twice: %v -> %v", trace, w, w2)
				}
			}
			check()
		}
		check()
		if errors.GRPCWrap(nil) != nil || errors.FromGRPCError(nil) != nil || errors.GRPCStatusCode(nil) != codes.OK || errors.FromGRPCErrorMsg(nil) != "" || errors.Is(nil, errors.ErrInternal) {
			t.Fatal("no error becomes an error")
		}
		ev.Label(t, name)
		ev.Case(t, hops > 0 && (wraps > 1 || o != nil), "%.300v", fmt.Sprint(trace))
	})
}

// msgOf is what must be kept by the transport
func msgOf(err error) string {
	if st, ok := status.FromError(err); ok {
		return st.Message()
	}
	return err.Error()
}
