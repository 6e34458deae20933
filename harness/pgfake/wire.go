package pgfake

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"strings"
	"sync"
)

// Server serves a database by the protocol of PostgreSQL
type Server struct {
	d    *DB
	l    net.Listener
	lock sync.Mutex
	// tx is held by the connection with a transaction and by statements
	tx    sync.Mutex
	conns map[net.Conn]bool
	// Params are the parameters of the last connection
	Params map[string]string
}

// Serve starts serving the database on the loopback
func (d *DB) Serve() *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		envFail(err)
	}
	s := &Server{d: d, l: l, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.lock.Lock()
			s.conns[c] = true
			s.lock.Unlock()
			go func() {
				_ = (&wconn{s: s, c: c, r: bufio.NewReader(c), w: bufio.NewWriter(c), stmts: map[string]string{}}).serve()
				_ = c.Close()
				s.lock.Lock()
				delete(s.conns, c)
				s.lock.Unlock()
			}()
		}
	}()
	return s
}

// Port is the port of the server
func (s *Server) Port() int { return s.l.Addr().(*net.TCPAddr).Port }

// Conns is the number of the open connections
func (s *Server) Conns() int {
	s.lock.Lock()
	defer s.lock.Unlock()
	return len(s.conns)
}

// Close stops the server
func (s *Server) Close() {
	_ = s.l.Close()
	s.lock.Lock()
	defer s.lock.Unlock()
	for c := range s.conns {
		_ = c.Close()
	}
}

type wconn struct {
	s     *Server
	c     net.Conn
	r     *bufio.Reader
	w     *bufio.Writer
	stmts map[string]string
	// the bound portal
	sql    string
	args   []any
	inTx   bool
	failed bool
}

func (c *wconn) msg(tp byte, b []byte) {
	_ = c.w.WriteByte(tp)
	var ln [4]byte
	binary.BigEndian.PutUint32(ln[:], uint32(len(b)+4))
	_, _ = c.w.Write(ln[:])
	_, _ = c.w.Write(b)
}

func (c *wconn) fail(code, text string) {
	c.failed = true
	c.msg('E', []byte("SERROR\x00C"+code+"\x00M"+text+"\x00\x00"))
}

func (c *wconn) ready() error {
	st := "I"
	if c.inTx {
		st = "T"
		if c.failed {
			st = "E"
		}
	}
	c.msg('Z', []byte(st))
	return c.w.Flush()
}

func i16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func i32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (c *wconn) rowDesc(cols, types []string) {
	b := i16(len(cols))
	for i, col := range cols {
		oid := 25
		switch types[i] {
		case "bytes":
			oid = 3802
		case "bool":
			oid = 16
		case "time":
			oid = 1184
		}
		b = append(b, col+"\x00"...)
		b = append(b, i32(0)...)
		b = append(b, i16(0)...)
		b = append(b, i32(oid)...)
		b = append(b, i16(65535)...)
		b = append(b, i32(-1)...)
		b = append(b, i16(0)...)
	}
	c.msg('T', b)
}

// run executes the statement, and sends the rows
func (c *wconn) run(sql string, args []any, desc bool) bool {
	word := strings.ToUpper(strings.Trim(strings.SplitN(strings.TrimSpace(sql)+" ", " ", 2)[0], ";"))
	op := ""
	switch word {
	case "BEGIN":
		if c.inTx {
			break
		}
		c.s.tx.Lock()
		c.inTx, c.failed, op = true, false, "begin"
	case "COMMIT", "ROLLBACK":
		if c.inTx {
			op = strings.ToLower(word)
			if c.failed {
				op, word = "rollback", "ROLLBACK"
			}
		}
	case "", "SET", "DISCARD":
	default:
		if c.inTx && c.failed {
			c.fail("25P02", "current transaction is aborted")
			return false
		}
		if !c.inTx {
			c.s.tx.Lock()
			defer c.s.tx.Unlock()
		}
		if args == nil {
			args = []any{}
		}
		rs := c.s.d.eng.call(map[string]any{"op": "wire", "db": c.s.d.no, "sql": sql, "args": args})
		if rs.Error != "" {
			c.fail(rs.Code, rs.Error)
			return false
		}
		if desc && len(rs.Cols) > 0 {
			c.rowDesc(rs.Cols, rs.Types)
		}
		for _, row := range rs.Rows {
			b := i16(len(row))
			for i, v := range row {
				if v == nil {
					b = append(b, i32(-1)...)
					continue
				}
				var s string
				switch x := v.(type) {
				case float64:
					s = fmt.Sprint(int64(x))
					if rs.Types[i] == "bool" {
						s = map[bool]string{true: "t", false: "f"}[x != 0]
					}
				default:
					s = fmt.Sprint(x)
					if rs.Types[i] == "time" {
						s = strings.Replace(strings.Replace(s, "T", " ", 1), "Z", "+00", 1)
					}
				}
				b = append(b, i32(len(s))...)
				b = append(b, s...)
			}
			c.msg('D', b)
		}
		tag := fmt.Sprintf("%s %d", word, rs.Affected)
		switch word {
		case "SELECT":
			tag = fmt.Sprintf("SELECT %d", len(rs.Rows))
		case "INSERT":
			tag = fmt.Sprintf("INSERT 0 %d", rs.Affected)
		case "CREATE":
			tag = "CREATE TABLE"
		}
		c.msg('C', []byte(tag+"\x00"))
		return true
	}
	if op != "" {
		if rs := c.s.d.eng.call(map[string]any{"op": op, "db": c.s.d.no}); rs.Error != "" {
			envFail(fmt.Errorf("%s: %s", op, rs.Error))
		}
		if op != "begin" {
			c.inTx, c.failed = false, false
			c.s.tx.Unlock()
		}
	}
	c.msg('C', []byte(word+"\x00"))
	return true
}

var paramRE = regexp.MustCompile(`\$(\d+)`)

func cstr(b []byte) (string, []byte) {
	i := strings.IndexByte(string(b), 0)
	return string(b[:i]), b[i+1:]
}

func (c *wconn) read(typed bool) (byte, []byte, error) {
	var tp byte
	var err error
	if typed {
		if tp, err = c.r.ReadByte(); err != nil {
			return 0, nil, err
		}
	}
	var ln [4]byte
	if _, err = io.ReadFull(c.r, ln[:]); err != nil {
		return 0, nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(ln[:])-4)
	_, err = io.ReadFull(c.r, b)
	return tp, b, err
}

func (c *wconn) serve() error {
	defer func() {
		if c.inTx {
			c.s.d.eng.call(map[string]any{"op": "rollback", "db": c.s.d.no})
			c.s.tx.Unlock()
		}
	}()
	_, b, err := c.read(false)
	if err != nil {
		return err
	}
	if code := binary.BigEndian.Uint32(b); code != 196608 {
		return fmt.Errorf("the request %d is not supported", code)
	}
	params := map[string]string{}
	parts := strings.Split(string(b[4:]), "\x00")
	for i := 0; i+1 < len(parts) && parts[i] != ""; i += 2 {
		params[parts[i]] = parts[i+1]
	}
	c.s.lock.Lock()
	c.s.Params = params
	c.s.lock.Unlock()
	c.msg('R', i32(0))
	if err = c.ready(); err != nil {
		return err
	}
	skip := false
	for {
		tp, b, err := c.read(true)
		if err != nil {
			return err
		}
		if skip && tp != 'S' {
			continue
		}
		switch tp {
		case 'X':
			return nil
		case 'Q':
			sql, _ := cstr(b)
			c.run(sql, nil, true)
			err = c.ready()
		case 'P':
			name, r := cstr(b)
			c.stmts[name], _ = cstr(r)
			c.msg('1', nil)
		case 'D':
			name, _ := cstr(b[1:])
			sql := c.stmts[name]
			if b[0] == 'P' {
				sql = c.sql
			} else {
				n := 0
				for _, m := range paramRE.FindAllStringSubmatch(sql, -1) {
					k := 0
					_, _ = fmt.Sscan(m[1], &k)
					n = max(n, k)
				}
				p := i16(n)
				for i := 0; i < n; i++ {
					p = append(p, i32(25)...)
				}
				c.msg('t', p)
			}
			rs := c.s.d.eng.call(map[string]any{"op": "describe", "db": c.s.d.no, "sql": sql})
			switch {
			case rs.Error != "":
				c.fail(rs.Code, rs.Error)
				skip = true
			case len(rs.Cols) == 0:
				c.msg('n', nil)
			default:
				c.rowDesc(rs.Cols, rs.Types)
			}
		case 'B':
			var name string
			_, b = cstr(b)
			name, b = cstr(b)
			c.sql = c.stmts[name]
			nf := int(binary.BigEndian.Uint16(b))
			b = b[2+2*nf:]
			n := int(binary.BigEndian.Uint16(b))
			b = b[2:]
			c.args = nil
			for i := 0; i < n; i++ {
				ln := int(int32(binary.BigEndian.Uint32(b)))
				b = b[4:]
				if ln < 0 {
					c.args = append(c.args, nil)
					continue
				}
				c.args = append(c.args, string(b[:ln]))
				b = b[ln:]
			}
			c.msg('2', nil)
		case 'E':
			skip = !c.run(c.sql, c.args, false)
		case 'C':
			c.msg('3', nil)
		case 'H':
			err = c.w.Flush()
		case 'S':
			skip = false
			err = c.ready()
		default:
			return fmt.Errorf("the message %q is not supported", tp)
		}
		if err != nil {
			return err
		}
	}
}
