package p38

import (
	"bytes"
	"math/big"
	"sort"
	"sync"
	"testing"
	"time"

	"solverif/ev"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { ev.Main(m) }

func genID(t *rapid.T) ulid.ULID {
	var id ulid.ULID
	for i := range id {
		// runs of 00 and ff make carries and borrows
		switch rapid.IntRange(0, 3).Draw(t, "k") {
		case 0:
			id[i] = 0
		case 1:
			id[i] = 0xff
		default:
			id[i] = rapid.Byte().Draw(t, "b")
		}
	}
	if n := rapid.IntRange(0, 16).Draw(t, "tail"); n > 0 {
		b := rapid.SampledFrom([]byte{0, 0xff, 0x7f, 0x80, 1, 0xfe}).Draw(t, "tb")
		for i := 16 - n; i < 16; i++ {
			id[i] = b
		}
	}
	return id
}

func TestNeighbours(t *testing.T) {
	one := big.NewInt(1)
	ev.Check(t, "the increment or the decrement carries over at least one byte", func(t *rapid.T) {
		id := genID(t)
		n := new(big.Int).SetBytes(id[:])
		check := func(what string, got string, want *big.Int) {
			if want.Sign() < 0 || want.BitLen() > 128 {
				return // there is no such ID
			}
			g, err := ulid.ParseStrict(got)
			if err != nil {
				t.Fatalf("%s of %s is %q: %v", what, id, got, err)
			}
			if new(big.Int).SetBytes(g[:]).Cmp(want) != 0 {
				t.Fatalf("%s of %s is %s (%x)", what, id, got, g[:])
			}
		}
		next := new(big.Int).Add(n, one)
		prev := new(big.Int).Sub(n, one)
		check("the next", ulidutils.NextID(id.String()), next)
		check("the previous", ulidutils.PrevID(id.String()), prev)
		if next.BitLen() <= 128 {
			if s := ulidutils.PrevID(ulidutils.NextID(id.String())); s != id.String() {
				t.Fatalf("previous of the next of %s is %s", id, s)
			}
		}
		ev.Case(t, id[15] == 0 || id[15] == 0xff, "%s", id)
		s := rapid.StringN(0, 40, 40).Draw(t, "text")
		if len(s) != ulid.EncodedSize {
			for _, f := range []func(string) string{ulidutils.NextID, ulidutils.PrevID} {
				func() {
					defer func() {
						if recover() == nil {
							t.Fatalf("the text %q is accepted", s)
						}
					}()
					f(s)
				}()
			}
		}
	})
}

// TestGenerate generates IDs from several go-routines: all of them are different, every ID is greater than the ones known
// before its generation was started, and has the current time
func TestGenerate(t *testing.T) {
	var start ulid.ULID
	ev.Check(t, "IDs are generated by at least two go-routines", func(t *rapid.T) {
		g := rapid.IntRange(1, 8).Draw(t, "goroutines")
		n := rapid.IntRange(1, 300).Draw(t, "ids")
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		var lock sync.Mutex
		all := make([]ulid.ULID, 0, g*n)
		var wg sync.WaitGroup
		var bad []string
		run := make(chan struct{})
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-run
				for j := 0; j < n; j++ {
					lock.Lock()
					last := start
					lock.Unlock()
					t0 := time.Now().UnixMilli()
					var id ulid.ULID
					switch kind {
					case 0:
						id = ulidutils.New()
					case 1:
						id = ulid.ULID(ulidutils.NewUUID())
					case 2:
						s := ulidutils.NewID()
						id = ulid.MustParseStrict(s)
					}
					t1 := time.Now().UnixMilli()
					lock.Lock()
					if id.Compare(last) <= 0 {
						bad = append(bad, "the ID "+id.String()+" is not greater than "+last.String()+", which was generated before")
					}
					if id.Compare(start) > 0 {
						start = id
					}
					if ms := int64(id.Time()); t1 >= t0 && (ms < t0 || ms > t1) && !(ms > t1 && ms == int64(last.Time())) {
						bad = append(bad, "the ID "+id.String()+" does not have the current time")
					}
					all = append(all, id)
					lock.Unlock()
				}
			}()
		}
		close(run)
		wg.Wait()
		if len(bad) > 0 {
			t.Fatalf("%d problems, the first: %s", len(bad), bad[0])
		}
		sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i][:], all[j][:]) < 0 })
		for i := 1; i < len(all); i++ {
			if all[i] == all[i-1] {
				t.Fatalf("the ID %s is not unique", all[i])
			}
		}
		ev.Case(t, g > 1, "%d go-routines, %d IDs each, kind %d, the last %s", g, n, kind, start)
	})
}
