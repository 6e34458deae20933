// Package stack assembles the storage of solaris (local log over chunk files, with the buntdb catalogue, optionally cached)
// in a scratch folder, so that it can be closed and opened again
package stack

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"pgregory.net/rapid"
)

const (
	Block   = 4096
	HdrSize = 32
	RecMeta = 24
)

type (
	Cfg struct {
		New, Max, Grow      int64
		MaxOpened, MaxLocks int
		MaxRecs, MaxBunch   int
		Cached              bool
	}

	// LocalLog is what logfs.NewLocalLog() returns
	LocalLog interface {
		storage.Log
		Shutdown()
	}

	Stack struct {
		Dir    string
		Cfg    Cfg
		DB     *buntdb.Storage
		Meta   cache.LogsChunksMetaStorage
		CA     *chunkfs.ChunkAccessor
		Prov   *chunkfs.Provider
		Repl   *chunkfs.Replicator
		Remote sss.Storage
		Log    LocalLog
	}

	// Opts allows to replace some parts of the stack
	Opts struct {
		Remote sss.Storage
		// LM wraps the metadata storage of the local log
		LM func(logfs.LogsMetaStorage) logfs.LogsMetaStorage
	}
)

func (c Cfg) String() string {
	return fmt.Sprintf("{new=%d max=%d grow=%d opened=%d locks=%d recs=%d bunch=%d cached=%t}", c.New, c.Max, c.Grow, c.MaxOpened, c.MaxLocks, c.MaxRecs, c.MaxBunch, c.Cached)
}

// Capacity is the maximum payload size of a record
func (c Cfg) Capacity() int { return int(c.Max) - HdrSize - RecMeta }

func (c Cfg) Chunk() chunkfs.Config {
	return chunkfs.Config{NewSize: c.New, MaxChunkSize: c.Max, MaxGrowIncreaseSize: c.Grow}
}

// GenCfg generates a configuration with small chunks
func GenCfg(t *rapid.T) Cfg {
	var c Cfg
	c.New = Block * int64(rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "newBlocks"))
	c.Max = c.New + Block*int64(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5}).Draw(t, "extraBlocks"))
	c.Grow = Block * int64(rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "growBlocks"))
	if rapid.IntRange(0, 29).Draw(t, "bigChunks") == 29 {
		// the records may be bigger than 64KB, the chunks are as they are by default
		c.New, c.Grow = Block*16, Block*256
		c.Max = Block * int64(rapid.SampledFrom([]int{16, 50, 150, 400}).Draw(t, "maxBlocks"))
	}
	c.MaxOpened = rapid.IntRange(1, 4).Draw(t, "maxOpened")
	c.MaxLocks = rapid.IntRange(1, 4).Draw(t, "maxLocks")
	c.MaxRecs = rapid.SampledFrom([]int{1, 2, 3, 7, 50, 10000}).Draw(t, "maxRecs")
	c.MaxBunch = rapid.SampledFrom([]int{1, 100, 1000, 5000, 1 << 20, 1 << 20}).Draw(t, "maxBunch")
	c.Cached = rapid.Bool().Draw(t, "cached")
	return c
}

// Open opens (creates) the storage in the folder
func Open(dir string, cfg Cfg, opts Opts) (*Stack, error) {
	s := &Stack{Dir: dir, Cfg: cfg}
	chunks := filepath.Join(dir, "chunks")
	if err := os.MkdirAll(chunks, 0755); err != nil {
		return nil, err
	}
	s.DB = buntdb.NewStorage(buntdb.Config{DBFilePath: filepath.Join(dir, "meta.db")})
	if err := s.DB.Init(context.Background()); err != nil {
		return nil, err
	}
	s.Meta = s.DB
	if cfg.Cached {
		s.Meta = cache.NewCachedStorage(s.DB)
	}
	s.Remote = opts.Remote
	if s.Remote == nil {
		s.Remote = inmem.NewStorage()
	}
	s.CA = chunkfs.NewChunkAccessor()
	s.Prov = chunkfs.NewProvider(chunks, cfg.MaxOpened, cfg.Chunk())
	s.Repl = chunkfs.NewReplicator(s.Prov.GetFileNameByID)
	s.Repl.CA = s.CA
	s.Repl.Storage = s.Remote
	s.Prov.CA = s.CA
	s.Prov.Replicator = s.Repl
	ll := logfs.NewLocalLog(logfs.Config{MaxRecordsLimit: cfg.MaxRecs, MaxBunchSize: cfg.MaxBunch, MaxLocks: cfg.MaxLocks})
	ll.LMStorage = s.Meta
	if opts.LM != nil {
		ll.LMStorage = opts.LM(s.Meta)
	}
	ll.ChnkProvider = s.Prov
	s.Log = ll
	return s, nil
}

// Close closes the storage in the order of the server
func (s *Stack) Close() {
	s.Log.Shutdown()
	_ = s.Prov.Close()
	s.CA.Shutdown()
	s.DB.Shutdown()
}

// ChunkFiles returns the sizes of all the files in the chunks folder by their names
func (s *Stack) ChunkFiles() map[string]int64 {
	res := map[string]int64{}
	_ = filepath.Walk(filepath.Join(s.Dir, "chunks"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			res[p] = fi.Size()
		}
		return nil
	})
	return res
}
