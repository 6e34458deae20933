// Package pgfake is a database/sql driver to a stand-in for PostgreSQL (pgsrv.py)
package pgfake

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
)

//go:embed pgsrv.py
var srv string

type engine struct {
	lock sync.Mutex
	in   io.WriteCloser
	out  *bufio.Reader
}

var (
	eng     *engine
	engOnce sync.Once
	dbNo    int
)

func envFail(err error) {
	fmt.Printf("EV-ENV: the stand-in for PostgreSQL failed: %v\n", err)
	os.Exit(3)
}

func start() *engine {
	engOnce.Do(func() {
		e := &engine{}
		cmd := exec.Command("python3", "-c", srv)
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			envFail(err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			envFail(err)
		}
		if err = cmd.Start(); err != nil {
			envFail(err)
		}
		e.in, e.out = in, bufio.NewReaderSize(out, 1<<20)
		eng = e
	})
	return eng
}

func canceled() error {
	return &pq.Error{Code: "57014", Message: "canceling statement"}
}

type response struct {
	Code, Error string
	Cols, Types []string
	Rows        [][]any
	Affected    int64
}

func (e *engine) call(rq map[string]any) *response {
	b, err := json.Marshal(rq)
	if err != nil {
		envFail(err)
	}
	e.lock.Lock()
	defer e.lock.Unlock()
	if _, err = e.in.Write(append(b, '\n')); err != nil {
		envFail(err)
	}
	s, err := e.out.ReadBytes('\n')
	if err != nil {
		envFail(err)
	}
	rs := &response{}
	if err = json.Unmarshal(s, rs); err != nil {
		envFail(err)
	}
	return rs
}

// DB is a database
type DB struct {
	*sqlx.DB
	no  int
	eng *engine
	// Fault is called for every statement. It returns -1, if the statement has to work, 0 if it has to fail
	// at once, or n > 0 if it has to fail after n-1 rows; nothing of a failed statement is applied
	Fault func(sql string) int
	// Faults is the number of the statements failed
	Faults int
}

// New creates an empty database
func New() *DB {
	d := &DB{eng: start()}
	d.eng.lock.Lock()
	dbNo++
	d.no = dbNo
	d.eng.lock.Unlock()
	if rs := d.eng.call(map[string]any{"op": "new", "db": d.no}); rs.Error != "" {
		envFail(fmt.Errorf("%s", rs.Error))
	}
	sdb := sql.OpenDB(connector{d})
	sdb.SetMaxOpenConns(1 << 10)
	d.DB = sqlx.NewDb(sdb, "postgres")
	return d
}

// Drop closes and deletes the database
func (d *DB) Drop() {
	_ = d.DB.Close()
	d.eng.call(map[string]any{"op": "drop", "db": d.no})
}

type (
	connector struct{ d *DB }
	conn      struct{ d *DB }
	stmt      struct {
		c   *conn
		sql string
	}
	rows struct {
		rs       *response
		i        int
		fail     int // the number of the rows before the failure or less than 0
		reported bool
	}
	result int64
	drv    struct{}
)

func (drv) Open(string) (driver.Conn, error)                     { return nil, driver.ErrBadConn }
func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.d}, nil }
func (c connector) Driver() driver.Driver                        { return drv{} }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }
func (c *conn) Close() error                          { return nil }
func (c *conn) tx(op string) error {
	if rs := c.d.eng.call(map[string]any{"op": op, "db": c.d.no}); rs.Error != "" {
		return &pq.Error{Code: pq.ErrorCode(rs.Code), Message: rs.Error}
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c, c.tx("begin") }
func (c *conn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	return c, c.tx("begin")
}
func (c *conn) Commit() error   { return c.tx("commit") }
func (c *conn) Rollback() error { return c.tx("rollback") }

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }

func (s *stmt) run(args []driver.Value) (*response, int, error) {
	fail := -1
	if s.c.d.Fault != nil {
		if fail = s.c.d.Fault(s.sql); fail >= 0 {
			s.c.d.Faults++
		}
	}
	as := [][]any{}
	for _, a := range args {
		switch v := a.(type) {
		case nil:
			as = append(as, []any{"nil", nil})
		case []byte:
			as = append(as, []any{"str", string(v)})
		case string:
			as = append(as, []any{"str", v})
		case int64, bool, float64:
			as = append(as, []any{"val", v})
		case time.Time:
			as = append(as, []any{"time", v.Format(time.RFC3339Nano)})
		default:
			return nil, -1, fmt.Errorf("the type %T is not supported", a)
		}
	}
	rs := s.c.d.eng.call(map[string]any{"op": "run", "db": s.c.d.no, "sql": s.sql, "args": as, "fail": fail >= 0})
	if rs.Error != "" {
		return nil, -1, &pq.Error{Code: pq.ErrorCode(rs.Code), Message: rs.Error}
	}
	return rs, fail, nil
}

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	rs, fail, err := s.run(args)
	if err == nil && fail >= 0 {
		err = canceled()
	}
	if err != nil {
		return nil, err
	}
	return result(rs.Affected), nil
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	rs, fail, err := s.run(args)
	if err != nil {
		return nil, err
	}
	if fail == 0 {
		return nil, canceled()
	}
	return &rows{rs: rs, fail: fail - 1}, nil
}

func (r result) LastInsertId() (int64, error) { return 0, fmt.Errorf("not supported") }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

func (r *rows) Columns() []string { return r.rs.Cols }

// Close reads the rest, as the driver of PostgreSQL does
func (r *rows) Close() error {
	if r.fail >= 0 && !r.reported {
		return canceled()
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	if r.fail >= 0 && (r.i >= r.fail || r.i >= len(r.rs.Rows)) {
		r.reported = true
		return canceled()
	}
	if r.i >= len(r.rs.Rows) {
		return io.EOF
	}
	for i, v := range r.rs.Rows[r.i] {
		switch tp := r.rs.Types[i]; {
		case v == nil:
			dest[i] = nil
		case tp == "bytes":
			dest[i] = []byte(v.(string))
		case tp == "bool":
			dest[i] = v.(float64) != 0
		case tp == "time":
			t, err := time.Parse(time.RFC3339Nano, v.(string))
			if err != nil {
				envFail(err)
			}
			dest[i] = t
		default:
			switch x := v.(type) {
			case float64:
				dest[i] = int64(x)
			default:
				dest[i] = x
			}
		}
	}
	r.i++
	return nil
}
