package sss

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	s3st "github.com/solarisdb/solaris/golibs/sss/s3"
)

// a fault of one request
type fault struct {
	op     string // GET, PUT, DELETE, LIST
	skip   int    // the number of the requests of the op, which are served before the faulty one
	kind   string // before, after, reset, cut
	status int
	fired  bool
}

// bucket is a set of objects as S3 keeps it
type bucket struct {
	mu      sync.Mutex
	objs    map[string][]byte
	maxPage int
	fault   *fault
	calls   map[string]int
	bad     []string // the requests a real server would not accept
}

var (
	srvOnce sync.Once
	srv     *httptest.Server
	bmu     sync.Mutex
	buckets = map[string]*bucket{}
	bcount  int
)

type listResult struct {
	XMLName        xml.Name    `xml:"ListBucketResult"`
	Xmlns          string      `xml:"xmlns,attr"`
	Name           string      `xml:"Name"`
	Prefix         string      `xml:"Prefix"`
	Marker         string      `xml:"Marker"`
	NextMarker     string      `xml:"NextMarker,omitempty"`
	MaxKeys        int         `xml:"MaxKeys"`
	Delimiter      string      `xml:"Delimiter,omitempty"`
	IsTruncated    bool        `xml:"IsTruncated"`
	Contents       []listKey   `xml:"Contents"`
	CommonPrefixes []listPrefx `xml:"CommonPrefixes"`
	KeyCount       *int        `xml:"KeyCount,omitempty"`
	Token          string      `xml:"NextContinuationToken,omitempty"`
}
type listKey struct {
	Key  string `xml:"Key"`
	Size int    `xml:"Size"`
}
type listPrefx struct {
	Prefix string `xml:"Prefix"`
}

func sendErr(w http.ResponseWriter, status int, code string) {
	w.Header().Set("Content-Type", "application/xml")
	w.WriteHeader(status)
	fmt.Fprintf(w, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>made by the test</Message><RequestId>1</RequestId></Error>`, code)
}

func serve(w http.ResponseWriter, r *http.Request) {
	p, err := url.PathUnescape(r.URL.EscapedPath())
	if err != nil || !strings.HasPrefix(p, "/") {
		sendErr(w, 400, "InvalidURI")
		return
	}
	name, key, _ := strings.Cut(p[1:], "/")
	bmu.Lock()
	b := buckets[name]
	bmu.Unlock()
	if b == nil {
		sendErr(w, 404, "NoSuchBucket")
		return
	}
	op := r.Method
	if op == http.MethodGet && key == "" {
		op = "LIST"
	}
	var body []byte
	if op == http.MethodPut {
		if body, err = io.ReadAll(r.Body); err != nil {
			sendErr(w, 400, "IncompleteBody")
			return
		}
		if h := r.Header.Get("X-Amz-Content-Sha256"); len(h) == 64 {
			s := sha256.Sum256(body)
			if hex.EncodeToString(s[:]) != h {
				sendErr(w, 400, "XAmzContentSHA256Mismatch")
				return
			}
		}
	}

	b.mu.Lock()
	defer b.mu.Unlock()
	n := b.calls[op]
	b.calls[op]++
	f := b.fault
	// the client's transport sends a request again if an old connection is closed, so the resets go on
	if f != nil && (f.op != op || n < f.skip || n > f.skip && f.kind != "reset") {
		f = nil
	}
	if f != nil {
		f.fired = true
		switch f.kind {
		case "before":
			sendErr(w, f.status, "InternalError")
			return
		case "reset":
			hijackClose(w)
			return
		}
	}
	after := f != nil && f.kind == "after"
	cut := f != nil && f.kind == "cut"

	switch op {
	case http.MethodPut:
		if key == "" {
			sendErr(w, 400, "InvalidURI")
			return
		}
		b.objs[key] = body
		if after {
			sendErr(w, f.status, "InternalError")
			return
		}
		w.Header().Set("ETag", `"x"`)
		w.WriteHeader(200)
	case http.MethodDelete:
		delete(b.objs, key)
		if after {
			sendErr(w, f.status, "InternalError")
			return
		}
		w.WriteHeader(204)
	case http.MethodGet, http.MethodHead:
		val, ok := b.objs[key]
		if !ok {
			sendErr(w, 404, "NoSuchKey")
			return
		}
		// the client may be in no hurry to read it
		b.mu.Unlock()
		defer b.mu.Lock()
		w.Header().Set("Content-Length", strconv.Itoa(len(val)))
		w.WriteHeader(200)
		if op == http.MethodHead {
			return
		}
		if cut {
			_, _ = w.Write(val[:len(val)/2])
			if fl, ok := w.(http.Flusher); ok {
				fl.Flush()
			}
			panic(http.ErrAbortHandler)
		}
		_, _ = w.Write(val)
	case "LIST":
		b.list(w, r, name, cut)
	default:
		b.bad = append(b.bad, r.Method+" "+r.URL.String())
		sendErr(w, 405, "MethodNotAllowed")
	}
}

func hijackClose(w http.ResponseWriter) {
	if hj, ok := w.(http.Hijacker); ok {
		if c, _, err := hj.Hijack(); err == nil {
			_ = c.Close()
			return
		}
	}
	panic(http.ErrAbortHandler)
}

// list serves the both versions of the listing
func (b *bucket) list(w http.ResponseWriter, r *http.Request, name string, cut bool) {
	q := r.URL.Query()
	v2 := q.Get("list-type") == "2"
	prefix, delim, marker := q.Get("prefix"), q.Get("delimiter"), q.Get("marker")
	if v2 {
		marker = q.Get("start-after")
		if t := q.Get("continuation-token"); t != "" {
			marker = strings.TrimPrefix(t, "tok:")
		}
	}
	max := 1000
	if s := q.Get("max-keys"); s != "" {
		m, err := strconv.Atoi(s)
		if err != nil || m < 0 {
			sendErr(w, 400, "InvalidArgument")
			return
		}
		if m < max {
			max = m
		}
	}
	if b.maxPage < max {
		max = b.maxPage
	}
	keys := make([]string, 0, len(b.objs))
	for k := range b.objs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	enc := func(s string) string { return s }
	if q.Get("encoding-type") == "url" {
		enc = url.QueryEscape
	}
	res := listResult{Xmlns: "http://s3.amazonaws.com/doc/2006-03-01/", Name: name, Prefix: enc(prefix), Marker: enc(marker), MaxKeys: max, Delimiter: delim}
	last, cnt := "", 0
	for _, k := range keys {
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		item, isPref := k, false
		if delim != "" {
			if i := strings.Index(k[len(prefix):], delim); i >= 0 {
				item, isPref = k[:len(prefix)+i+len(delim)], true
			}
		}
		if item <= marker || (isPref && item == last) {
			continue
		}
		if cnt == max {
			res.IsTruncated = true
			break
		}
		cnt++
		last = item
		if isPref {
			res.CommonPrefixes = append(res.CommonPrefixes, listPrefx{enc(item)})
		} else {
			res.Contents = append(res.Contents, listKey{enc(item), len(b.objs[k])})
		}
	}
	if res.IsTruncated {
		if v2 {
			res.Token = "tok:" + last
		} else if delim != "" {
			res.NextMarker = enc(last)
		}
	}
	if v2 {
		res.KeyCount = &cnt
	}
	buf, err := xml.Marshal(res)
	if err != nil {
		sendErr(w, 500, "InternalError")
		return
	}
	buf = append([]byte(xml.Header), buf...)
	w.Header().Set("Content-Type", "application/xml")
	w.Header().Set("Content-Length", strconv.Itoa(len(buf)))
	w.WriteHeader(200)
	if cut {
		_, _ = w.Write(buf[:len(buf)/2])
		if fl, ok := w.(http.Flusher); ok {
			fl.Flush()
		}
		panic(http.ErrAbortHandler)
	}
	_, _ = w.Write(buf)
}

// newS3 gives a storage over an empty bucket of the stand-in server
func newS3(maxPage int) (*s3st.Storage, *bucket, func()) {
	srvOnce.Do(func() {
		srv = httptest.NewUnstartedServer(http.HandlerFunc(serve))
		srv.Config.ErrorLog = nullLog()
		srv.Start()
	})
	bmu.Lock()
	bcount++
	name := fmt.Sprintf("bucket%d", bcount)
	b := &bucket{objs: map[string][]byte{}, maxPage: maxPage, calls: map[string]int{}}
	buckets[name] = b
	bmu.Unlock()
	st := &s3st.Storage{AwsConfig: &aws.Config{
		Credentials:      credentials.NewStaticCredentials("username", "password", ""),
		Endpoint:         aws.String(srv.URL),
		Region:           aws.String("us-west-1"),
		DisableSSL:       aws.Bool(true),
		S3ForcePathStyle: aws.Bool(true),
		MaxRetries:       aws.Int(0),
		HTTPClient:       &http.Client{Timeout: 60 * time.Second, Transport: transport},
	}, Bucket: name}
	if err := st.Init(context.Background()); err != nil {
		fmt.Printf("EV-ENV: could not create the client: %v\n", err)
		os.Exit(3)
	}
	return st, b, func() {
		bmu.Lock()
		delete(buckets, name)
		bmu.Unlock()
	}
}

var transport = &http.Transport{MaxIdleConnsPerHost: 16}

func (b *bucket) setFault(f *fault) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.fault = f
	b.calls = map[string]int{}
}

func (b *bucket) object(key string) ([]byte, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	v, ok := b.objs[key[1:]]
	return v, ok
}

// TestStandIn checks that the requests made by the client without the code under test are served as it is expected by the other tests
func TestStandIn(t *testing.T) {
	_, b, done := newS3(2)
	defer done()
	for _, k := range []string{"a", "a/b", "a/c", "b/d/e", "c"} {
		b.objs[k] = []byte(k)
	}
	get := func(q string) string {
		rr := httptest.NewRecorder()
		b.list(rr, httptest.NewRequest("GET", "/x?"+q, nil), "x", false)
		return rr.Body.String()
	}
	s := get("delimiter=%2F&prefix=")
	if !strings.Contains(s, "<NextMarker>a/</NextMarker>") || !strings.Contains(s, "<IsTruncated>true</IsTruncated>") {
		t.Fatalf("EV-ENV: %s", s)
	}
	s = get("delimiter=%2F&prefix=&marker=a/")
	if !strings.Contains(s, "<Key>c</Key>") || !strings.Contains(s, "<IsTruncated>false</IsTruncated>") {
		t.Fatalf("EV-ENV: %s", s)
	}
}
