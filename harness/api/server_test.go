package api

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"solverif/ev"
	"solverif/stack"

	"github.com/gin-gonic/gin"
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/transport"
	svcapi "github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/api/rest"
	sgrpc "github.com/solarisdb/solaris/pkg/grpc"
	shttp "github.com/solarisdb/solaris/pkg/http"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
	ev.Main(m)
}

// guard passes the calls to the service and remembers the panics there, otherwise they would crash the process
type guard struct {
	solaris.UnimplementedServiceServer
	svc *svcapi.Service

	mu     sync.Mutex
	panics []string
}

func (g *guard) rec(method string, req any) {
	if r := recover(); r != nil {
		g.mu.Lock()
		defer g.mu.Unlock()
		g.panics = append(g.panics, fmt.Sprintf("%s(%v): %v\n%s", method, req, r, debug.Stack()))
	}
}

func (g *guard) take() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	res := g.panics
	g.panics = nil
	return res
}

func (g *guard) CreateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	defer g.rec("CreateLog", r)
	return g.svc.CreateLog(ctx, r)
}
func (g *guard) UpdateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	defer g.rec("UpdateLog", r)
	return g.svc.UpdateLog(ctx, r)
}
func (g *guard) QueryLogs(ctx context.Context, r *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	defer g.rec("QueryLogs", r)
	return g.svc.QueryLogs(ctx, r)
}
func (g *guard) DeleteLogs(ctx context.Context, r *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	defer g.rec("DeleteLogs", r)
	return g.svc.DeleteLogs(ctx, r)
}
func (g *guard) AppendRecords(ctx context.Context, r *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	defer g.rec("AppendRecords", r.LogID)
	return g.svc.AppendRecords(ctx, r)
}
func (g *guard) QueryRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
	defer g.rec("QueryRecords", r)
	return g.svc.QueryRecords(ctx, r)
}
func (g *guard) CountRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
	defer g.rec("CountRecords", r)
	return g.svc.CountRecords(ctx, r)
}

// server is the service behind the gRPC and HTTP servers of solaris, they are started once per process. The storages are
// replaced for every case
type server struct {
	svc  *svcapi.Service
	g    *guard
	cl   solaris.ServiceClient
	base string // URL of the REST API
}

var (
	srvOnce sync.Once
	srv     *server
)

func env(format string, args ...any) {
	fmt.Printf("EV-ENV: "+format+"\n", args...)
	os.Exit(3)
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		env("no loopback network: %v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func theServer() *server {
	srvOnce.Do(func() {
		s := &server{svc: svcapi.NewService()}
		s.g = &guard{svc: s.svc}
		ctx := context.Background()
		for i := 0; ; i++ {
			port := freePort()
			gs := sgrpc.NewServer(sgrpc.Config{Transport: transport.Config{Network: "tcp", Address: "127.0.0.1", Port: port},
				RegisterEndpoints: func(gs *grpc.Server) error {
					solaris.RegisterServiceServer(gs, s.g)
					return nil
				}})
			if err := gs.Init(ctx); err == nil {
				cc, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", port), grpc.WithTransportCredentials(insecure.NewCredentials()),
					grpc.WithBlock(), grpc.WithTimeout(20*time.Second), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(256<<20)))
				if err == nil {
					s.cl = solaris.NewServiceClient(cc)
					break
				}
			}
			if i == 20 {
				env("could not start the gRPC server")
			}
		}
		for i := 0; ; i++ {
			port := freePort()
			r := shttp.NewRouter(shttp.Config{HttpAddr: "127.0.0.1", HttpPort: port, RestRegistrar: rest.New(s.svc).RegisterEPs})
			r.PostConstruct()
			if err := r.Init(ctx); err != nil {
				env("could not init the router: %v", err)
			}
			s.base = fmt.Sprintf("http://127.0.0.1:%d/v1", port)
			ok := false
			for k := 0; k < 200 && !ok; k++ {
				if _, body, err := s.http("GET", "/ping", "", nil); err == nil && string(body) == "pong" {
					ok = true
				} else {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if ok {
				break
			}
			r.Shutdown()
			if i == 10 {
				env("could not start the HTTP server")
			}
		}
		srv = s
	})
	return srv
}

func (s *server) use(logs storage.Logs, log storage.Log) {
	s.svc.LogsStorage, s.svc.LogStorage = logs, log
	s.g.take()
}

type (
	mrec struct {
		id      ulid.ULID
		payload []byte
		log     *mlog
	}

	mlog struct {
		id   string
		tags map[string]string
		recs []*mrec
		gone bool
	}

	// world is a real storage under the service, and the model of it
	world struct {
		t     *rapid.T
		s     *server
		cfg   stack.Cfg
		st    *stack.Stack
		clean func()
		logs  []*mlog
		recs  []*mrec // all of them in the order of IDs
		seq   int
	}
)

func newWorld(t *rapid.T, cfg stack.Cfg) *world {
	w := &world{t: t, cfg: cfg, s: theServer()}
	var dir string
	dir, w.clean = ev.Dir(t)
	st, err := stack.Open(dir, cfg, stack.Opts{})
	if err != nil {
		w.clean()
		t.Fatalf("could not open the storage: %v", err)
	}
	w.st = st
	w.s.use(st.Meta, st.Log)
	return w
}

func (w *world) close() {
	w.st.Close()
	w.clean()
}

func (w *world) noPanics() {
	if p := w.s.g.take(); len(p) > 0 {
		w.t.Fatalf("the service panics: %s", p[0])
	}
}

func payload(seq, size int) []byte {
	b := make([]byte, size)
	x := uint32(seq)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func (w *world) createLog(tags map[string]string) *mlog {
	l, err := w.s.cl.CreateLog(ev.Ctx(), &solaris.Log{Tags: tags})
	w.noPanics()
	if err != nil {
		w.t.Fatalf("could not create a log: %v", err)
	}
	ml := &mlog{id: l.ID, tags: tags}
	w.logs = append(w.logs, ml)
	return ml
}

// maxRequest is how many bytes the records of one gRPC request may have: gRPC servers reject messages over 4MB
const maxRequest = 4<<20 - 64<<10

func (w *world) append(l *mlog, sizes ...int) {
	total := 0
	for i, s := range sizes {
		if total += s; total > maxRequest && i > 0 {
			w.append(l, sizes[:i]...)
			w.append(l, sizes[i:]...)
			return
		}
	}
	req := &solaris.AppendRecordsRequest{LogID: l.id, ExpandIDs: true}
	for _, s := range sizes {
		w.seq++
		req.Records = append(req.Records, &solaris.Record{Payload: payload(w.seq, s)})
	}
	res, err := w.s.cl.AppendRecords(ev.Ctx(), req)
	w.noPanics()
	if err != nil {
		w.t.Fatalf("append failed: %v", err)
	}
	if int(res.Added) != len(sizes) || len(res.RecordIDs) != len(sizes) {
		w.t.Fatalf("%d records are added of %d, %d IDs", res.Added, len(sizes), len(res.RecordIDs))
	}
	for i := range sizes {
		id, err := ulid.ParseStrict(res.RecordIDs[i])
		if err != nil {
			w.t.Fatalf("wrong ID %q", res.RecordIDs[i])
		}
		r := &mrec{id: id, payload: req.Records[i].Payload, log: l}
		if n := len(w.recs); n > 0 && w.recs[n-1].id.Compare(id) >= 0 {
			w.t.Fatalf("ID %s is not greater than %s", id, w.recs[n-1].id)
		}
		l.recs = append(l.recs, r)
		w.recs = append(w.recs, r)
	}
}

func inTime(id ulid.ULID) time.Time { return ulid.Time(id.Time()).UTC() }

// step returns the neighbour of the ID
func step(id ulid.ULID, desc bool) ulid.ULID {
	for i := len(id) - 1; i >= 0; i-- {
		if desc {
			id[i]--
			if id[i] != 0xff {
				break
			}
		} else {
			id[i]++
			if id[i] != 0 {
				break
			}
		}
	}
	return id
}

var httpClient = &http.Client{Timeout: 60 * time.Second}

// http makes the HTTP request
func (s *server) http(method, path, contentType string, body []byte) (int, []byte, error) {
	r, err := http.NewRequest(method, s.base+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	if contentType != "" {
		r.Header.Set("Content-Type", contentType)
	}
	resp, err := httpClient.Do(r)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}
