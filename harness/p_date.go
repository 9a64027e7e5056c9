package main

import (
	"strconv"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P25: dates, against an independently written calendar.
// ---------------------------------------------------------------------------

func refDays(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%400 == 0 || (y%4 == 0 && y%100 != 0) {
			return 29
		}
		return 28
	}
	return 31
}

func refValid(y, m, d int) bool {
	if y == 0 {
		return m == 0 && d == 0
	}
	if m == 0 {
		return d == 0
	}
	return m <= 12 && d <= refDays(y, m)
}

var refMonths = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}

// refDateText is the documented text of a valid date: "DAY MonthName YEAR",
// without the parts that are missing.
func refDateText(b []byte, y, m, d int) []byte {
	if y == 0 {
		return append(b, "(Unknown Date)"...)
	}
	if d != 0 {
		b = append(strconv.AppendInt(b, int64(d), 10), ' ')
	}
	if m != 0 {
		b = append(append(b, refMonths[m]...), ' ')
	}
	for k := 1000; k > y; k /= 10 {
		b = append(b, '0')
	}
	return strconv.AppendInt(b, int64(y), 10)
}

func init() {
	texts := 0 // one case at a time in each process
	check := func(c *Ctx, y, m, d int, str bool) {
		date := ggfnt.Date{Year: uint16(y), Month: uint8(m), Day: uint8(d)}
		if got, want := date.IsValid(), refValid(y, m, d); got != want {
			c.Failf("%d-%d-%d: valid %v, expected %v", y, m, d, got, want)
		}
		if str {
			text := date.String()
			name := date.MonthName()
			if m >= 1 && m <= 12 && name != refMonths[m] {
				c.Failf("%d-%d-%d: month %q", y, m, d, name)
			}
			if refValid(y, m, d) {
				var buf [40]byte
				if want := refDateText(buf[:0], y, m, d); string(want) != text {
					c.Failf("%d-%d-%d is printed as %q, expected %q", y, m, d, text, want)
				}
				texts++
			}
			if date.HasDay() != (d != 0) || date.HasMonth() != (m != 0) || date.HasYear() != (y != 0) || date.IsComplete() != (d != 0 && m != 0 && y != 0) {
				c.Failf("%d-%d-%d: day %v, month %v, year %v, complete %v", y, m, d, date.HasDay(), date.HasMonth(), date.HasYear(), date.IsComplete())
			}
		}
		if date.Year != uint16(y) || date.Month != uint8(m) || date.Day != uint8(d) {
			c.Failf("%d-%d-%d was changed by a query", y, m, d)
		}
	}
	register(&Property{ID: "P25", Level: "exploration",
		Rule:    "One evaluation is one slice of the field space: all days and months of some years. Non-trivial if it contains valid and invalid dates. Every combination of the three fields is visited for validity; printing on all days that can be valid and on a sample of the others.",
		Require: []string{"dates", "dates_printed", "dates_texts_compared"},
		Workloads: []Workload{
			{Name: "years", Fixed: true, Quick: 64, Thorough: 64, Run: func(c *Ctx) {
				p, stack := Try(func() {
					printed := 0
					for y := c.Case; y < 65536; y += 64 {
						for m := 0; m < 256; m++ {
							for d := 0; d < 256; d++ {
								str := m < 14 && d < 33 || d == m
								check(c, y, m, d, str)
								if str {
									printed++
								}
							}
						}
						c.Count("dates", 65536)
						c.Count("dates_printed", printed)
						c.Count("dates_texts_compared", texts)
						printed, texts = 0, 0
						c.Eval(uint64(y), true)
						c.Sample("all months and days of year %d", y)
					}
				})
				if p != nil {
					c.Fail("panic", "a date query panicked: %v\n%s", p, trimStack(stack))
				}
			}},
			{Name: "random", Quick: 200, Thorough: 2000, Run: func(c *Ctx) {
				for i := 0; i < 200; i++ {
					y, m, d := c.Intn(65536), c.Intn(256), c.Intn(256)
					p, stack := Try(func() { check(c, y, m, d, true) })
					if p != nil {
						c.Fail("panic", "a query of %d-%d-%d panicked: %v\n%s", y, m, d, p, trimStack(stack))
					}
					c.counters["dates"]++
					c.counters["dates_printed"]++
				}
				now := ggfnt.CurrentDate()
				if !now.IsValid() || !now.IsComplete() {
					c.Failf("the current date %v isn't a complete valid date", now)
				}
				c.Eval(c.U64(), true)
			}},
		},
	})
}
