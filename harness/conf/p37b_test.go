package conf

import (
	"fmt"
	"strings"
	"testing"

	"solverif/ev"

	"github.com/solarisdb/solaris/golibs/transport"
	"pgregory.net/rapid"
)

// TestTransport: P37, the address of a transport: layers, its text and back
func TestTransport(t *testing.T) {
	ev.Check(t, "two layers set a field, the address has a colon", func(t *rapid.T) {
		addr := rapid.OneOf(rapid.SampledFrom([]string{"", "localhost", "10.0.0.1", "::1", "[::1]", "fe80::1%eth0", "host:1", ":", "::"}), rapid.String())
		cfg := func() transport.Config {
			var c transport.Config
			c.Network = rapid.SampledFrom([]string{"", "", "tcp", "unix", "tcp6"}).Draw(t, "network")
			if rapid.Bool().Draw(t, "hasAddr") {
				c.Address = addr.Draw(t, "address")
			}
			c.Port = rapid.OneOf(rapid.Just(0), rapid.Just(0), rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 80, 65535})).Draw(t, "port")
			return c
		}
		c := cfg()
		if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
			c = *transport.GetDefaultGRPCConfig()
		}
		want, sets := c, 0
		trace := []string{fmt.Sprintf("%+v", c)}
		for i := rapid.IntRange(0, 4).Draw(t, "layers"); i > 0; i-- {
			if rapid.IntRange(0, 9).Draw(t, "nil") == 0 {
				c.Apply(nil)
				continue
			}
			o := cfg()
			before := o
			if o.Network != "" {
				want.Network = o.Network
			}
			if o.Address != "" {
				want.Address = o.Address
			}
			if o.Port > 0 {
				want.Port = o.Port
				sets++
			}
			c.Apply(&o)
			trace = append(trace, fmt.Sprintf("apply %+v", before))
			if c != want || o != before {
				t.Fatalf("the result is %+v, must be %+v; the layer is %+v:\n\t%s", c, want, o, strings.Join(trace, "\n\t"))
			}
		}
		text := c.Addr()
		res, err := transport.ScanAddr(text)
		if exp := (transport.Config{Address: want.Address, Port: want.Port}); err != nil || res != exp {
			t.Fatalf("%+v is printed as %q, and it is read as %+v, %v", c, text, res, err)
		}
		host := strings.ReplaceAll(addr.Draw(t, "host"), ":", "")
		if res, err := transport.ScanAddr(host); err != nil || res != (transport.Config{Address: host}) {
			t.Fatalf("%q is read as %+v, %v", host, res, err)
		}
		bad := host + ":" + rapid.SampledFrom([]string{"", "a", "1a", " 1", "1 ", "99999999999", "0x10", "1.5", "١"}).Draw(t, "bad")
		if res, err := transport.ScanAddr(bad); err == nil {
			t.Fatalf("%q is read as %+v", bad, res)
		}
		ev.Case(t, sets > 1 && strings.Contains(want.Address, ":"), "%v -> %q, %q", trace, text, bad)
	})
}
