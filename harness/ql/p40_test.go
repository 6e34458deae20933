package ql

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"solverif/ev"

	"github.com/solarisdb/solaris/pkg/intervals"
	sut "github.com/solarisdb/solaris/pkg/ql"
	"pgregory.net/rapid"
)

// the supported formats: Go layout and its properties
var layouts = []string{
	"Jan 2, 2006 3:04:05 PM",
	"Mon Jan _2 15:04:05 2006",
	"Mon Jan _2 15:04:05 MST 2006",
	"Mon Jan 02 15:04:05 -0700 2006",
	"Monday, 06-Jan-02 15:04:05 MST",
	"Mon, 02 Jan 2006 15:04:05 MST",
	"Mon, 02 Jan 2006 15:04:05 -0700",
	"Mon, 2 Jan 2006 15:04:05 -0700",
	"02 Jan 2006, 15:04",
	"2006-Jan-02",
	"02 January 2006",
	"02/01/2006 15:04:05.999999999",
	"02/01/2006 15:04:05",
	"2/01/2006 15:04:05",
	"02/1/2006 15:04:05",
	"2/1/2006 15:04:05",
	"2/1/2006 03:04:05 PM",
	"02/01/2006 15:04",
	"2/1/2006 15:04",
	"2/1/06 15:04",
	"2/1/2006 03:04 PM",
	"2/1/2006 3:04 PM",
	"02/Jan/2006:15:04:05 -0700",
	"02/01/2006",
	"2/01/2006",
	"02/01/06",
	"2/1/06",
	"2006/01/02 15:04:05.999999999",
	"2006/01/02 15:04:05",
	"2006/01/2 15:04:05",
	"2006/1/02 15:04:05",
	"2006/01/02 15:04",
	"2006/1/2 15:04",
	"2006/01/02",
	"2006/1/02",
	"2006-01-02T15:04:05.999999999-07:00",
	"2006-01-02T15:04:05.999999999-0700",
	"2006-01-02T15:04:05.999999999Z",
	"2006-01-02T15:04:05-07:00",
	"2006-01-02T15:04:05-0700",
	"2006-01-02T15:04:05Z",
	"2006-01-02T15:04:05",
	"2006-01-02 15:04:05.999999999 -0700 MST",
	"2006-01-02 15:04:05.999999999 -0700",
	"2006-01-02 15:04:05 -07:00",
	"2006-01-02 15:04:05-07:00",
	"2006-01-02 15:04:05 -0700 MST",
	"2006-01-02 15:04:05 -0700",
	"2006-01-02 15:04:05 MST",
	"2006-01-02 03:04:05 PM",
	"2006-01-02 15:04:05",
	"2006-01-02  15:04:05",
	"2006-01-02 15:04",
	"2006-01-02",
	"01.02.2006",
	"01.02.06",
	"Mon Jan _2 15:04:05.999999999",
	"Mon Jan 02 15:04:05.999999999",
	"Jan 02 15:04:05",
	"Jan _2 15:04:05",
	"15:04:05.999999999 -0700",
	"15:04:05 -0700",
	"15:04 -0700",
	"15:04:05.999999999 MST",
	"15:04:05 MST",
	"15:04 MST",
	"15:04:05.999999999",
	"15:04:05",
	"15:04",
}

var badList = func() (res []string) {
	for k := range badTimes {
		if !strings.Contains(k, "'") {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}()

// evalConst returns the moment the time constant denotes
func evalConst(t *rapid.T, s string) (time.Time, error) {
	pe, err := sut.Parse("ctime = '" + s + "'")
	if err != nil {
		t.Fatalf("the condition with the constant %q is rejected: %v", s, err)
	}
	b := intervals.NewBasis(time.Date(1000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC), time.Time.Compare)
	ib := sut.NewParamIntervalBuilder(b, sut.RecordsCondValueDialect, "ctime", sut.OpsAll)
	ii, err := ib.Build(pe)
	if err != nil {
		if !invalid(err) {
			t.Fatalf("the error for the constant %q is not invalid: %v", s, err)
		}
		return time.Time{}, err
	}
	if len(ii) != 1 || !ii[0].L.Equal(ii[0].R) {
		t.Fatalf("wrong intervals %v for ctime = %q", ii, s)
	}
	return ii[0].L, nil
}

func TestAbsolute(t *testing.T) {
	ev.Check(t, "every case: the text of a random moment in one of the formats", func(t *rapid.T) {
		l := rapid.SampledFrom(layouts).Draw(t, "layout")
		sec := rapid.Int64Range(0, 3155759999).Draw(t, "sec") // till 2069-12-31
		if rapid.IntRange(0, 9).Draw(t, "midnight") == 0 {
			sec -= sec % 86400
		}
		ns := rapid.SampledFrom([]int64{0, 1, 123000000, 999999999, 5, 120000, 1000000}).Draw(t, "ns")
		if ns == 0 && strings.Contains(l, ".999") {
			ns = 1000000 // the fraction must be there
		}
		off := 0
		if strings.Contains(l, "-07") && !strings.Contains(l, "MST") {
			off = rapid.IntRange(-12*4, 14*4).Draw(t, "zone") * 900
		}
		tm := time.Unix(sec, ns).In(time.FixedZone("", off))
		if off == 0 {
			tm = tm.UTC()
		}
		s := tm.Format(l)
		// the layouts are parsed by the standard library to cut what is not there
		want, err := time.Parse(l, s)
		if err != nil {
			t.Fatalf("harness: %q for %q: %v", s, l, err)
		}
		if rapid.IntRange(0, 9).Draw(t, "spaces") == 0 {
			s = " " + s + "  "
		}
		noYear, noDate := !strings.Contains(l, "06"), !strings.Contains(l, "2") || strings.HasPrefix(l, "15:04")
		for attempt := 0; ; attempt++ {
			now := time.Now()
			got, err := evalConst(t, s)
			if err != nil {
				t.Fatalf("the time %q (%s) is rejected: %v", s, l, err)
			}
			w := want
			if noDate {
				y, m, d := now.Date()
				w = time.Date(y, m, d, want.Hour(), want.Minute(), want.Second(), want.Nanosecond(), want.Location())
			} else if noYear {
				if want.Month() == 2 && want.Day() == 29 {
					return // there is no such date every year
				}
				y := now.Year()
				if want.Month() > now.Month() {
					y--
				}
				w = time.Date(y, want.Month(), want.Day(), want.Hour(), want.Minute(), want.Second(), want.Nanosecond(), want.Location())
			}
			if got.Equal(w) {
				break
			}
			if (noDate || noYear) && attempt == 0 {
				continue // it could be midnight now
			}
			t.Fatalf("the constant %q (%s) is %s, expected %s", s, l, got, w)
		}
		ev.Label(t, l)
		ev.Case(t, true, "%q is %s", s, want.Format(time.RFC3339Nano))
	})
}

func TestRelative(t *testing.T) {
	ev.Check(t, "the text is a relative time, a named moment or a number", func(t *rapid.T) {
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		switch kind {
		case 0:
			u := rapid.IntRange(0, 2).Draw(t, "unit")
			unit := []time.Duration{time.Minute, time.Hour, 24 * time.Hour}[u]
			n := rapid.IntRange(0, 200).Draw(t, "n")
			d := time.Duration(n) * unit
			s := fmt.Sprintf("-%d", n)
			if f := rapid.IntRange(0, 9).Draw(t, "fraction"); f > 0 {
				s += fmt.Sprintf(".%d", f)
				d += unit / 10 * time.Duration(f)
			}
			s += rapid.SampledFrom([]string{"mhd", "MHD"}).Draw(t, "case")[u : u+1]
			before := time.Now()
			got, err := evalConst(t, s)
			after := time.Now()
			if err != nil {
				t.Fatalf("the time %q is rejected: %v", s, err)
			}
			eps := time.Microsecond * 10 // floating point calculations
			if got.Before(before.Add(-d-eps)) || got.After(after.Add(-d+eps)) {
				t.Fatalf("the time %q is %s, which is not %s before now (%s)", s, got, d, after)
			}
			ev.Case(t, true, "%q", s)
		case 1:
			s := rapid.SampledFrom([]string{"minute", "hour", "day", "week"}).Draw(t, "word")
			txt := s
			if rapid.Bool().Draw(t, "upper") {
				txt = " " + strings.ToUpper(s) + " "
			}
			for attempt := 0; ; attempt++ {
				now := time.Now()
				got, err := evalConst(t, txt)
				after := time.Now()
				if err != nil {
					t.Fatalf("the time %q is rejected: %v", txt, err)
				}
				ok := false
				if s == "minute" { // from a minute ago to the beginning of the minute
					ok = !got.Before(now.Add(-time.Minute)) && !got.After(after)
				} else {
					y, m, d := now.Date()
					w := time.Date(y, m, d, now.Hour(), 0, 0, 0, now.Location())
					if s != "hour" {
						w = time.Date(y, m, d, 0, 0, 0, 0, now.Location())
					}
					if s == "week" {
						w = w.AddDate(0, 0, -int(now.Weekday()))
					}
					ok = got.Equal(w)
				}
				if ok {
					break
				}
				if attempt > 0 { // the first one could be just at the border
					t.Fatalf("the constant %q is %s, it is %s now", txt, got, after)
				}
			}
			ev.Case(t, true, "%q", txt)
		case 2:
			v := rapid.Int64Range(-1e18, 9e18).Draw(t, "ns")
			s := fmt.Sprint(v)
			got, err := evalConst(t, s)
			if err != nil || !got.Equal(time.Unix(0, v)) {
				t.Fatalf("the constant %q is %s, error=%v", s, got, err)
			}
			ev.Case(t, true, "%q", s)
		case 3: // wrong ones
			var s string
			good := time.Unix(rapid.Int64Range(0, 3155759999).Draw(t, "sec"), 0).UTC().Format(rapid.SampledFrom(layouts).Draw(t, "layout"))
			switch rapid.IntRange(0, 4).Draw(t, "wrong") {
			case 0:
				s = good + rapid.SampledFrom([]string{" x", " 1", "x", "!", ",", " garbage", "-"}).Draw(t, "tail")
			case 1:
				s = rapid.SampledFrom([]string{"x ", "on ", "!", ",", "x"}).Draw(t, "head") + good
			case 2:
				s = rapid.SampledFrom(badList).Draw(t, "bad")
			case 3:
				s = rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "word")
				if s == "minute" || s == "hour" || s == "day" || s == "week" {
					return
				}
			case 4:
				s = "-" + rapid.StringMatching(`[0-9.]{0,3}[a-z.]`).Draw(t, "rel")
				if strings.ContainsAny(s[len(s)-1:], "mhd") {
					return
				}
			}
			if got, err := evalConst(t, s); err == nil {
				t.Fatalf("the wrong constant %q is accepted as %s", s, got)
			}
			ev.Case(t, true, "wrong %q", s)
		}
	})
}
