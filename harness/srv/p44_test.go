package srv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"solverif/ev"
	"solverif/pgfake"

	"github.com/ghodss/yaml"
	"github.com/gin-gonic/gin"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/transport"
	"github.com/solarisdb/solaris/pkg/db"
	"github.com/solarisdb/solaris/pkg/server"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/health/grpc_health_v1"
	"pgregory.net/rapid"
)

func init() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
}

// every wait is bounded by the limit
const limit = 30 * time.Second

var lastPort int

// freePort returns a port nobody listens on. It is not one of those the system gives to others
func freePort() int {
	for i := 0; i < portsPerProcess; i++ {
		lastPort = (lastPort + 1) % (portsPerProcess - 1)
		if p := portBase() + 1 + lastPort; portFree(p) {
			return p
		}
	}
	fmt.Println("EV-ENV: no free port")
	os.Exit(3)
	return 0
}

const portsPerProcess = 200

// portBase gives the first one of the ports which are used by this process only: the first port is a lock
var portBase = sync.OnceValue(func() int {
	for i := 0; i < 100; i++ {
		p := 10000 + (os.Getpid()+i)%100*portsPerProcess
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
			portLock = l
			return p
		}
	}
	fmt.Println("EV-ENV: no free range of ports")
	os.Exit(3)
	return 0
})

var portLock net.Listener

func portFree(p int) bool {
	for _, a := range []string{"127.0.0.1", ""} {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", a, p))
		if err != nil {
			return false
		}
		_ = l.Close()
	}
	return true
}

type (
	mrec struct {
		id, payload string
	}
	mlog struct {
		id   string
		tags map[string]string
		recs []mrec
		// flight is what is being added when the server is told to stop
		flight []string
		gone   bool
	}
	world struct {
		t    *rapid.T
		pg   *pgfake.Server
		cfg  server.Config
		logs []*mlog
		n    int

		// bin is the binary of the server, or "", if it is run in the process
		bin    string
		dir    string
		cmd    *exec.Cmd
		cancel func()
		done   chan error
		conn   *grpc.ClientConn
		c      solaris.ServiceClient
	}
)

// start runs the server, it returns when the server listens on both ports, or when it returns
func (w *world) start(cfg server.Config) (err error, running bool) {
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel, w.done = cancel, make(chan error, 1)
	done := w.done
	if w.bin != "" {
		w.startBinary(cfg)
	} else {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Errorf("panic: %v", r)
				}
			}()
			done <- server.Run(ctx, &cfg)
		}()
	}
	up := func(port int) bool {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err == nil {
			_ = c.Close()
		}
		return err == nil
	}
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(time.Millisecond) {
		select {
		case err = <-done:
			cancel()
			return err, false
		default:
		}
		if up(cfg.GrpcTransport.Port) && up(cfg.HttpPort) {
			break
		}
	}
	return nil, true
}

// startBinary starts the server as it is done by a user. The configuration is in the file, some parameters are in the environment
func (w *world) startBinary(cfg server.Config) {
	t := w.t
	gr, dbc, file, env := map[string]any{}, map[string]any{}, map[string]any{}, map[string]string{}
	file["GrpcTransport"], file["DB"] = gr, dbc
	set := func(m map[string]any, path, name string, v any) {
		k := "SOLARIS_" + path + strings.ToUpper(name)
		where := rapid.IntRange(0, 2).Draw(t, "where"+name)
		if where == 0 || v == "" {
			m[name] = v
			return
		}
		env[k] = fmt.Sprint(v)
		if where == 2 {
			// the variable is stronger
			if m[name] = "wrong"; reflect.ValueOf(v).Kind() == reflect.Int {
				m[name] = 1
			}
		}
	}
	gr["Network"] = cfg.GrpcTransport.Network
	set(gr, "GRPCTRANSPORT_", "Address", cfg.GrpcTransport.Address)
	set(gr, "GRPCTRANSPORT_", "Port", cfg.GrpcTransport.Port)
	set(file, "", "HttpPort", cfg.HttpPort)
	set(file, "", "LocalDBFilePath", cfg.LocalDBFilePath)
	set(file, "", "MaxOpenedLogFiles", cfg.MaxOpenedLogFiles)
	for k, v := range map[string]any{"Driver": cfg.DB.Driver, "Username": cfg.DB.Username, "Password": cfg.DB.Password, "DBName": cfg.DB.DBName, "SSLMode": cfg.DB.SSLMode, "MaxConnections": 8} {
		dbc[k] = v
	}
	set(dbc, "DB_", "Host", cfg.DB.Host)
	set(dbc, "DB_", "Port", cfg.DB.Port)
	b, _ := json.Marshal(file)
	name := filepath.Join(w.dir, "config."+rapid.SampledFrom([]string{"json", "yaml"}).Draw(t, "ext"))
	if strings.HasSuffix(name, "yaml") {
		var err error
		if b, err = yaml.JSONToYAML(b); err != nil {
			t.Fatal(err)
		}
	}
	_ = os.WriteFile(name, b, 0644)
	w.cmd = exec.Command(w.bin, "start", "--config", name)
	w.cmd.Dir = w.dir
	w.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + w.dir, "GIN_MODE=release"}
	for k, v := range env {
		w.cmd.Env = append(w.cmd.Env, k+"="+v)
	}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	w.cmd.Stdout, w.cmd.Stderr = &out, &out
	if err := w.cmd.Start(); err != nil {
		fmt.Printf("EV-ENV: %v\n", err)
		os.Exit(3)
	}
	cmd, done := w.cmd, w.done
	go func() {
		err := cmd.Wait()
		if err != nil {
			s := out.String()
			err = fmt.Errorf("%w: %s", err, s[max(0, len(s)-3000):])
		}
		done <- err
	}()
	sig := rapid.SampledFrom([]os.Signal{syscall.SIGTERM, os.Interrupt}).Draw(t, "signal")
	w.cancel = func() { _ = cmd.Process.Signal(sig) }
}

func (w *world) dial() {
	conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", w.cfg.GrpcTransport.Port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		w.t.Fatalf("could not create the client: %v", err)
	}
	w.conn, w.c = conn, solaris.NewServiceClient(conn)
}

func (w *world) ctx() context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	_ = cancel
	return ctx
}

func (w *world) stopped() error {
	select {
	case err := <-w.done:
		return err
	case <-time.After(limit):
		w.t.Fatalf("the server didn't stop in %v after it was told to", limit)
		return nil
	}
}

func (w *world) http(method, path string, body, res any) int {
	var r io.Reader
	if body != nil {
		b, _ := json.Marshal(body)
		r = bytes.NewReader(b)
	}
	rq, _ := http.NewRequestWithContext(w.ctx(), method, fmt.Sprintf("http://127.0.0.1:%d%s", w.cfg.HttpPort, path), r)
	if body != nil {
		rq.Header.Set("Content-Type", "application/json")
	}
	tr := &http.Transport{}
	defer tr.CloseIdleConnections()
	rs, err := (&http.Client{Transport: tr}).Do(rq)
	if err != nil {
		w.t.Fatalf("%s %s: %v", method, path, err)
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		w.t.Fatalf("%s %s: %v", method, path, err)
	}
	if res != nil && rs.StatusCode < 300 {
		if err = json.Unmarshal(b, res); err != nil {
			w.t.Fatalf("%s %s: %v: %q", method, path, err, b)
		}
	}
	return rs.StatusCode
}

// read returns all the records of the log, as the server gives them
func (w *world) read(l *mlog) []mrec {
	var res []mrec
	desc := rapid.Bool().Draw(w.t, "desc")
	if rapid.Bool().Draw(w.t, "rest") {
		page := ""
		for {
			var rs struct {
				Items []struct {
					ID      string `json:"id"`
					LogID   string `json:"logId"`
					Payload []byte `json:"payload"`
				} `json:"items"`
				NextPageID *string `json:"nextPageId"`
			}
			if st := w.http("GET", fmt.Sprintf("/v1/records?logIds=%s&limit=50&desc=%t&startRecordId=%s&fromPageId=%s", l.id, desc, page, page), nil, &rs); st != 200 {
				w.t.Fatalf("reading the log %s: HTTP status %d", l.id, st)
			}
			for _, r := range rs.Items {
				res = append(res, mrec{r.ID, string(r.Payload)})
			}
			if page = ""; rs.NextPageID != nil {
				page = *rs.NextPageID
			}
			if page == "" {
				break
			}
		}
	} else {
		rq := &solaris.QueryRecordsRequest{LogIDs: []string{l.id}, Limit: 50, Descending: desc}
		for {
			rs, err := w.c.QueryRecords(w.ctx(), rq)
			if err != nil {
				w.t.Fatalf("reading the log %s: %v", l.id, err)
			}
			for _, r := range rs.Records {
				res = append(res, mrec{r.ID, string(r.Payload)})
			}
			if rs.NextPageID == "" {
				break
			}
			rq.StartRecordID = rs.NextPageID
		}
	}
	if desc {
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// check compares what the server has with the model
func (w *world) check() {
	for _, l := range w.logs {
		if l.gone {
			rs, err := w.c.QueryLogs(w.ctx(), &solaris.QueryLogsRequest{Condition: fmt.Sprintf("logID = '%s'", l.id), Limit: 10})
			if err != nil || len(rs.Logs) != 0 {
				w.t.Fatalf("the deleted log is returned: %v %v", rs, err)
			}
			continue
		}
		rs, err := w.c.QueryLogs(w.ctx(), &solaris.QueryLogsRequest{Condition: fmt.Sprintf("logID = '%s'", l.id), Limit: 10})
		if err != nil || len(rs.Logs) != 1 || fmt.Sprint(rs.Logs[0].Tags) != fmt.Sprint(l.tags) {
			w.t.Fatalf("the log %+v is not there: %v %v", *l, rs, err)
		}
		recs := w.read(l)
		for i, r := range recs {
			switch {
			case i < len(l.recs):
				if r.payload != l.recs[i].payload || l.recs[i].id != "" && r.id != l.recs[i].id {
					w.t.Fatalf("log %s, record %d: got %q, expected %q", l.id, i, r, l.recs[i])
				}
			case i-len(l.recs) < len(l.flight):
				if r.payload != l.flight[i-len(l.recs)] {
					w.t.Fatalf("log %s, record %d of the interrupted append: got %q, expected %q", l.id, i, r, l.flight[i-len(l.recs)])
				}
			default:
				w.t.Fatalf("log %s: unknown record %d %q", l.id, i, r)
			}
			if i > 0 && recs[i-1].id >= r.id {
				w.t.Fatalf("log %s: the records %q, %q are not in the order", l.id, recs[i-1].id, r.id)
			}
		}
		if len(recs) < len(l.recs) {
			w.t.Fatalf("log %s: only %d records of %d acknowledged are there", l.id, len(recs), len(l.recs))
		}
		l.recs, l.flight = recs, nil
	}
}

func (w *world) payloads(t *rapid.T) []string {
	var res []string
	for n := rapid.IntRange(1, 5).Draw(t, "batch"); n > 0; n-- {
		w.n++
		sz := rapid.SampledFrom([]int{0, 1, 10, 100, 5000, 60000}).Draw(t, "size")
		res = append(res, fmt.Sprintf("%d-%s", w.n, strings.Repeat(string(rune('a'+w.n%26)), sz)))
	}
	return res
}

func request(logID string, ps []string) *solaris.AppendRecordsRequest {
	rq := &solaris.AppendRecordsRequest{LogID: logID}
	for _, p := range ps {
		rq.Records = append(rq.Records, &solaris.Record{Payload: []byte(p)})
	}
	return rq
}

func (w *world) live() []*mlog {
	var res []*mlog
	for _, l := range w.logs {
		if !l.gone {
			res = append(res, l)
		}
	}
	return res
}

func (w *world) createLog() *mlog {
	tags := map[string]string{"n": fmt.Sprint(len(w.logs))}
	l := &mlog{tags: tags}
	if rapid.Bool().Draw(w.t, "rest") {
		var rs struct {
			ID string `json:"id"`
		}
		if st := w.http("POST", "/v1/logs", map[string]any{"tags": tags}, &rs); st >= 300 || rs.ID == "" {
			w.t.Fatalf("creating a log: HTTP status %d, %v", st, rs)
		}
		l.id = rs.ID
	} else {
		rs, err := w.c.CreateLog(w.ctx(), &solaris.Log{Tags: tags})
		if err != nil {
			w.t.Fatalf("creating a log: %v", err)
		}
		l.id = rs.ID
	}
	w.logs = append(w.logs, l)
	return l
}

// TestServer: P44
func TestServer(t *testing.T) { testServer(t, "") }

// TestBinary: P44, the binary of the server started by its command line
func TestBinary(t *testing.T) {
	dir, clean := ev.Dir(t)
	defer clean()
	bin := filepath.Join(dir, "solaris")
	build := exec.Command("go", "build", "-o", bin, "github.com/solarisdb/solaris/cmd/solaris")
	build.Dir = os.Getenv("VERIF_HARNESS") // the test may run in another folder
	out, err := build.CombinedOutput()
	if err != nil {
		fmt.Printf("EV-ENV: %v: %s\n", err, out)
		os.Exit(3)
	}
	testServer(t, bin)
}

func testServer(t *testing.T, bin string) {
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			_ = os.Unsetenv(k)
		}
	}
	ev.Check(t, "the server was stopped while records were being added, and was started again", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		d := pgfake.New()
		defer d.Drop()
		w := &world{t: t, pg: d.Serve(), bin: bin, dir: dir}
		defer w.pg.Close()
		defer func() {
			if w.cmd != nil {
				_ = w.cmd.Process.Kill()
			}
		}()
		idle := 10
		w.cfg = server.Config{
			GrpcTransport:     &transport.Config{Network: "tcp", Address: rapid.SampledFrom([]string{"127.0.0.1", "", "localhost"}).Draw(t, "address")},
			DB:                &db.DBConn{Driver: "postgres", Host: "127.0.0.1", Port: fmt.Sprint(w.pg.Port()), Username: "u", Password: "p", DBName: "solaris", SSLMode: "disable", MaxIdleConnections: &idle},
			LocalDBFilePath:   filepath.Join(dir, rapid.SampledFrom([]string{"data", "a/b/c"}).Draw(t, "path")),
			MaxOpenedLogFiles: rapid.SampledFrom([]int{1, 2, 5, 100}).Draw(t, "files"),
		}
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		interrupted, restarted := false, false
		for round := 0; round < rounds; round++ {
			w.cfg.GrpcTransport.Port, w.cfg.HttpPort = freePort(), freePort()
			err, running := w.start(w.cfg)
			if !running {
				t.Fatalf("the server doesn't start: %v", err)
			}
			w.dial()
			if rs, err := grpc_health_v1.NewHealthClient(w.conn).Check(w.ctx(), &grpc_health_v1.HealthCheckRequest{}); err != nil || rs.Status != grpc_health_v1.HealthCheckResponse_SERVING {
				t.Fatalf("the state of the server is %v %v", rs, err)
			}
			restarted = restarted || interrupted
			w.check()
			for n := rapid.IntRange(1, 6).Draw(t, "ops"); n > 0; n-- {
				live := w.live()
				op := rapid.IntRange(0, 9).Draw(t, "op")
				switch {
				case op < 3 || len(live) == 0:
					w.createLog()
				case op < 8:
					l := rapid.SampledFrom(live).Draw(t, "log")
					ps := w.payloads(t)
					rs, err := w.c.AppendRecords(w.ctx(), request(l.id, ps))
					if err != nil || int(rs.Added) != len(ps) {
						t.Fatalf("adding %d records: %v %v", len(ps), rs, err)
					}
					for _, p := range ps {
						l.recs = append(l.recs, mrec{payload: p})
					}
				case op < 9:
					l := rapid.SampledFrom(live).Draw(t, "log")
					rs, err := w.c.DeleteLogs(w.ctx(), &solaris.DeleteLogsRequest{Condition: fmt.Sprintf("logID = '%s'", l.id)})
					if err != nil || len(rs.DeletedIDs) != 1 {
						t.Fatalf("deleting the log: %v %v", rs, err)
					}
					l.gone = true
				default:
					w.check()
				}
			}
			// the clients which add records when the server is stopped
			var wg sync.WaitGroup
			var returned atomic.Bool
			var acks atomic.Int64
			var late atomic.Value
			live := w.live()
			nc := rapid.IntRange(0, min(3, len(live))).Draw(t, "clients")
			killed := bin != "" && rapid.IntRange(0, 3).Draw(t, "kill") == 0
			if killed {
				// a kill with appends in progress is the matter of P07
				nc = 0
				w.cancel = func() { _ = w.cmd.Process.Kill() }
				restarted = true
			}
			batches := make([][][]string, nc)
			for i := range batches {
				for k := 0; k < 100; k++ {
					batches[i] = append(batches[i], []string{fmt.Sprintf("%d.%d.%d-%s", round, i, k, strings.Repeat("x", (k*37)%3000)), fmt.Sprintf("%d.%d.%d", round, i, k)})
				}
			}
			for i := 0; i < nc; i++ {
				l, bs := live[i], batches[i]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, ps := range bs {
						after := returned.Load()
						rs, err := w.c.AppendRecords(w.ctx(), request(l.id, ps))
						if err != nil {
							l.flight = ps
							return
						}
						if after {
							late.Store(fmt.Sprintf("an append to %s started after the server had stopped was acknowledged", l.id))
						}
						acks.Add(1)
						for k, p := range ps {
							if k < int(rs.Added) {
								l.recs = append(l.recs, mrec{payload: p})
							}
						}
						if int(rs.Added) < len(ps) {
							l.flight = nil
							return
						}
					}
				}()
			}
			// the server is stopped when some of the appends are done
			if nc > 0 {
				stopAt := rapid.Int64Range(0, 20).Draw(t, "stopAt")
				for end := time.Now().Add(limit); acks.Load() < stopAt && time.Now().Before(end); {
					time.Sleep(100 * time.Microsecond)
				}
			}
			w.cancel()
			err = w.stopped()
			returned.Store(true)
			if err != nil && !killed {
				t.Fatalf("the server stopped with %v", err)
			}
			for end := time.Now().Add(limit); w.pg.Conns() > 0; time.Sleep(time.Millisecond) {
				if time.Now().After(end) {
					t.Fatalf("%d connections to the database are left after the server has stopped", w.pg.Conns())
				}
			}
			for _, p := range []int{w.cfg.GrpcTransport.Port, w.cfg.HttpPort} {
				if !portFree(p) {
					t.Fatalf("the port %d is still used after the server has stopped", p)
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			if _, err = w.c.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"late": "x"}}); err == nil {
				t.Fatalf("a request is served after the server has stopped")
			}
			cancel()
			wg.Wait()
			_ = w.conn.Close()
			if s := late.Load(); s != nil {
				t.Fatalf("%s", s)
			}
			for _, l := range live {
				interrupted = interrupted || l.flight != nil
			}
			ev.Label(t, fmt.Sprintf("clients %d", nc))
		}
		ev.Case(t, restarted, "%d rounds, %d logs", rounds, len(w.logs))
	})
}

// TestBadStart: P44, what the server cannot start with is reported
func TestBadStart(t *testing.T) {
	ev.Check(t, "the server could not start", func(t *rapid.T) {
		dir, clean := ev.Dir(t)
		defer clean()
		d := pgfake.New()
		defer d.Drop()
		w := &world{t: t, pg: d.Serve()}
		defer w.pg.Close()
		w.cfg = server.Config{
			GrpcTransport:     &transport.Config{Network: "tcp", Address: "127.0.0.1", Port: freePort()},
			HttpPort:          freePort(),
			DB:                &db.DBConn{Driver: "postgres", Host: "127.0.0.1", Port: fmt.Sprint(w.pg.Port()), Username: "u", Password: "p", DBName: "solaris", SSLMode: "disable"},
			LocalDBFilePath:   filepath.Join(dir, "data"),
			MaxOpenedLogFiles: 10,
		}
		fault := rapid.SampledFrom([]string{"none", "no path", "path of a file", "under a file", "grpc port", "http port", "network", "database", "statement"}).Draw(t, "fault")
		var busy net.Listener
		occupy := func(p int) {
			var err error
			if busy, err = net.Listen("tcp", fmt.Sprintf(":%d", p)); err != nil {
				fmt.Printf("EV-ENV: %v\n", err)
				os.Exit(3)
			}
		}
		free := []int{w.cfg.GrpcTransport.Port, w.cfg.HttpPort}
		var kind error
		cfg := w.cfg
		switch fault {
		case "no path":
			cfg.LocalDBFilePath, kind = "", errors.ErrInvalid
		case "path of a file", "under a file":
			_ = os.WriteFile(cfg.LocalDBFilePath, []byte("x"), 0644)
			if fault == "path of a file" {
				// EnsureDirExists accepts it
				t.Skip()
			}
			cfg.LocalDBFilePath = filepath.Join(cfg.LocalDBFilePath, "x")
		case "grpc port":
			occupy(cfg.GrpcTransport.Port)
			free = free[1:]
		case "http port":
			occupy(cfg.HttpPort)
			free = free[:1]
		case "network":
			tr := *cfg.GrpcTransport
			tr.Network = "nonet"
			cfg.GrpcTransport = &tr
		case "database":
			w.pg.Close()
		}
		ok := fault == "none" || fault == "statement"
		startErr, running := w.start(cfg)
		if running {
			// it may still fail, what must fail has plenty of time for that
			patience := 200 * time.Millisecond
			if !ok {
				patience = limit
			}
			select {
			case startErr = <-w.done:
				running = false
			case <-time.After(patience):
			}
		}
		if running {
			w.cancel()
			if err := w.stopped(); err != nil {
				t.Fatalf("the server stopped with %v", err)
			}
		}
		if busy != nil {
			_ = busy.Close()
		}
		if running != ok {
			t.Fatalf("%s: the server was running: %t, error: %v", fault, running, startErr)
		}
		if kind != nil && !errors.Is(startErr, kind) {
			t.Fatalf("%s: %v", fault, startErr)
		}
		if !running && startErr == nil {
			t.Fatalf("%s: no error is reported", fault)
		}
		for _, p := range free {
			if !portFree(p) {
				t.Fatalf("%s: the port %d is still used", fault, p)
			}
		}
		ev.Label(t, fault)
		ev.Case(t, !running, "%s -> %v", fault, startErr)
	})
}
