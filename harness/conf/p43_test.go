// The checks of P43: the parameters of the database connection
package conf

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/user"
	"strings"
	"testing"
	"time"

	"github.com/lib/pq"
	"github.com/solarisdb/solaris/pkg/db"
	"pgregory.net/rapid"
	"solverif/ev"
)

// seen is what a server of PostgreSQL has got from the driver
type seen struct {
	network, addr string
	ssl           bool
	params        map[string]string
	password      *string
	err           error
}

type dialer struct {
	s    *seen
	done chan struct{}
}

func (d *dialer) Dial(network, addr string) (net.Conn, error) {
	d.s.network, d.s.addr = network, addr
	c, srv := net.Pipe()
	d.done = make(chan struct{})
	go func() {
		defer close(d.done)
		defer srv.Close()
		_ = srv.SetDeadline(time.Now().Add(30 * time.Second))
		d.s.err = d.s.serve(srv)
	}()
	return c, nil
}

func (d *dialer) DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return d.Dial(network, addr)
}

func readMsg(c net.Conn, typed bool) (byte, []byte, error) {
	var tp [1]byte
	if typed {
		if _, err := io.ReadFull(c, tp[:]); err != nil {
			return 0, nil, err
		}
	}
	var ln [4]byte
	if _, err := io.ReadFull(c, ln[:]); err != nil {
		return 0, nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(ln[:])-4)
	_, err := io.ReadFull(c, b)
	return tp[0], b, err
}

// serve is the server's side of the authentication with a clear text password
func (s *seen) serve(c net.Conn) error {
	_, b, err := readMsg(c, false)
	if err != nil {
		return err
	}
	if len(b) == 4 && binary.BigEndian.Uint32(b) == 80877103 { // a request of SSL
		s.ssl = true
		_, err = c.Write([]byte{'N'})
		return err
	}
	s.params = map[string]string{}
	parts := strings.Split(string(b[4:]), "\x00")
	for i := 0; i+1 < len(parts) && parts[i] != ""; i += 2 {
		s.params[parts[i]] = parts[i+1]
	}
	if _, err = c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 3}); err != nil {
		return err
	}
	tp, b, err := readMsg(c, true)
	if err != nil {
		return err
	}
	if tp != 'p' || len(b) == 0 {
		return fmt.Errorf("a message %q instead of the password", tp)
	}
	p := string(b[:len(b)-1])
	s.password = &p
	_, err = c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 0, 'Z', 0, 0, 0, 5, 'I'})
	return err
}

// connect connects by the source name and returns what the server has got
func connect(dsn string) (*seen, error) {
	c, err := pq.NewConnector(dsn)
	if err != nil {
		return nil, err
	}
	s := &seen{}
	d := &dialer{s: s}
	c.Dialer(d)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	conn, err := c.Connect(ctx)
	if d.done == nil {
		return nil, fmt.Errorf("no connection is made: %v", err)
	}
	if err == nil {
		go conn.Close()
	}
	<-d.done
	if s.ssl && errors.Is(err, pq.ErrSSLNotSupported) {
		return s, nil
	}
	if err != nil {
		return nil, err
	}
	return s, s.err
}

// TestDBConn: P43
func TestDBConn(t *testing.T) {
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			_ = os.Unsetenv(k)
		}
	}
	_ = os.Setenv("PGPASSFILE", "/nonexistent/pgpass")
	me, err := user.Current()
	if err != nil {
		fmt.Printf("EV-ENV: %v\n", err)
		os.Exit(3)
	}
	ev.Check(t, "a parameter has a special character, or it is empty", func(t *rapid.T) {
		special := false
		str := func(name string) string {
			s := ""
			switch rapid.IntRange(0, 4).Draw(t, name+"Kind") {
			case 0:
				s = rapid.SampledFrom([]string{"", "postgres", "solaris", "x"}).Draw(t, name)
			case 1:
				s = rapid.String().Draw(t, name)
			default:
				for _, r := range rapid.SliceOfN(rapid.SampledFrom([]string{"a", "B", "7", " ", "'", "\"", "\\", "=", "@", ":", "/", "?", "#", "&", "%", "%41", "+", "é", "\t", "\n", "host=", " dbname=z", "sslmode=require", "$1"}), 0, 6).Draw(t, name) {
					s += r
				}
			}
			s = strings.ReplaceAll(s, "\x00", "0")
			special = special || s == "" || strings.ContainsAny(s, " '\"\\=@:/?#&%+\t\n")
			return s
		}
		c := &db.DBConn{
			Driver:   rapid.SampledFrom([]string{"postgres", "postgresql"}).Draw(t, "driver"),
			Host:     rapid.SampledFrom([]string{"localhost", "127.0.0.1", "db.example.com", "my_host", "::1", "fe80::1", "", "/tmp", "/var/my sockets"}).Draw(t, "host"),
			Port:     rapid.SampledFrom([]string{"5432", "1", "65535", "6000", ""}).Draw(t, "port"),
			Username: str("user"), Password: str("password"), DBName: str("db"),
			SSLMode: rapid.SampledFrom([]string{"disable", "disable", "disable", "disable", "require", "verify-full", ""}).Draw(t, "ssl"),
		}
		var dsn, what string
		if byURL := rapid.Bool().Draw(t, "url"); byURL && !strings.HasPrefix(c.Host, "/") {
			what = "URL " + c.URL()
			var err error
			if dsn, err = pq.ParseURL(c.URL()); err != nil {
				t.Fatalf("%+v: the URL %q is wrong: %v", *c, c.URL(), err)
			}
		} else {
			dsn = c.SourceName()
			what = "DSN " + dsn
		}
		s, err := connect(dsn)
		if err != nil {
			t.Fatalf("%+v: %q: %v", *c, what, err)
		}
		orDef := func(s, def string) string {
			if s == "" {
				return def
			}
			return s
		}
		network, addr := "tcp", net.JoinHostPort(orDef(c.Host, "localhost"), orDef(c.Port, "5432"))
		if strings.HasPrefix(c.Host, "/") {
			network, addr = "unix", c.Host+"/.s.PGSQL."+orDef(c.Port, "5432")
		}
		if s.network != network || s.addr != addr {
			t.Fatalf("%+v: %q: connected to %s %q, expected %s %q", *c, what, s.network, s.addr, network, addr)
		}
		if ssl := c.SSLMode != "disable" && network == "tcp"; s.ssl != ssl {
			t.Fatalf("%+v: %q: SSL was requested: %t, expected %t", *c, what, s.ssl, ssl)
		}
		if !s.ssl {
			if s.params["user"] != orDef(c.Username, me.Username) || s.params["database"] != c.DBName {
				t.Fatalf("%+v: %q: the user %q, the database %q", *c, what, s.params["user"], s.params["database"])
			}
			if s.password == nil || *s.password != c.Password {
				t.Fatalf("%+v: %q: the password %v", *c, what, s.password)
			}
			for k := range s.params {
				switch k {
				case "user", "database", "client_encoding", "datestyle", "extra_float_digits":
				default:
					t.Fatalf("%+v: %q: the parameter %q=%q is not configured", *c, what, k, s.params[k])
				}
			}
		}
		ev.Case(t, special, "%+v -> %s", *c, what)
	})
}
