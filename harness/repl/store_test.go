package repl

import (
	"bytes"
	"context"
	"errors"
	"io"
	"sync"
	"sync/atomic"

	"github.com/solarisdb/solaris/golibs/sss"
)

var errFault = errors.New("injected fault")

// store is a remote storage with faults
type store struct {
	mu   sync.Mutex
	data map[string][]byte
	// put, get, del are the faults of the next calls; at is the position of the fault in the data (percents)
	put, get, del string
	at            int
	fired         string
	tooBig        bool
	puts          map[string]int
	// hooks are called before the operations
	onPut func(key string) error
	// unread is the number of the objects, which are not closed
	unread atomic.Int32
}

// object is an object being read
type object struct {
	io.Reader
	st   *store
	once sync.Once
}

func (o *object) Close() error {
	o.once.Do(func() { o.st.unread.Add(-1) })
	return nil
}

func (s *store) reader(r io.Reader) io.ReadCloser {
	s.unread.Add(1)
	return &object{Reader: r, st: s}
}

var _ sss.Storage = (*store)(nil)

func newStore() *store { return &store{data: map[string][]byte{}, puts: map[string]int{}} }

func (s *store) disarm() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.put, s.get, s.del = "", "", ""
	f := s.fired
	s.fired = ""
	return f
}

func (s *store) object(key string) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.data[key]
}

func (s *store) Put(_ context.Context, key string, r io.Reader) error {
	if s.onPut != nil {
		if err := s.onPut(key); err != nil {
			return err
		}
	}
	s.mu.Lock()
	f := s.put
	s.put = ""
	if f != "" {
		s.fired = "put " + f
	}
	s.mu.Unlock()
	if f == "before" {
		return errFault
	}
	if f == "half" {
		_, _ = io.CopyN(io.Discard, r, 100)
		return errFault
	}
	buf, err := io.ReadAll(io.LimitReader(r, 32<<20))
	if err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(buf) == 32<<20 {
		s.tooBig = true
		return errFault
	}
	s.puts[key]++
	s.data[key] = buf
	if f == "after" {
		return errFault
	}
	return nil
}

type failingReader struct {
	io.Reader
	err error
}

func (r *failingReader) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	if err == io.EOF {
		err = r.err
	}
	return n, err
}

func (s *store) Get(_ context.Context, key string) (io.ReadCloser, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.get
	s.get = ""
	if f != "" {
		s.fired = "get " + f
	}
	if f == "error" {
		return nil, errFault
	}
	buf, ok := s.data[key]
	if !ok {
		return nil, osErrNotExist
	}
	pos := len(buf) * s.at / 100
	switch f {
	case "midway":
		return s.reader(&failingReader{bytes.NewReader(buf[:pos]), errFault}), nil
	case "short":
		return s.reader(bytes.NewReader(buf[:pos])), nil
	case "flip":
		buf = bytes.Clone(buf)
		buf[pos] ^= 1 << (s.at % 8)
	}
	return s.reader(bytes.NewReader(buf)), nil
}

func (s *store) List(context.Context, string) ([]string, error) { return nil, errors.New("not used") }

func (s *store) Delete(_ context.Context, key string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.del
	s.del = ""
	if f != "" {
		s.fired = "del " + f
	}
	if f == "before" {
		return errFault
	}
	delete(s.data, key)
	if f == "after" {
		return errFault
	}
	return nil
}
