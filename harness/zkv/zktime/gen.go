// Package zktime is package time with a clock the harness controls.
package zktime

import "time"

const ANSIC = time.ANSIC
const April = time.April
const August = time.August

func Date(a0 int, a1 time.Month, a2 int, a3 int, a4 int, a5 int, a6 int, a7 *time.Location) time.Time {
	return time.Date(a0, a1, a2, a3, a4, a5, a6, a7)
}

const DateOnly = time.DateOnly
const DateTime = time.DateTime
const December = time.December

type Duration = time.Duration

const February = time.February

func FixedZone(a0 string, a1 int) *time.Location { return time.FixedZone(a0, a1) }

const Friday = time.Friday
const Hour = time.Hour
const January = time.January
const July = time.July
const June = time.June
const Kitchen = time.Kitchen
const Layout = time.Layout

func LoadLocation(a0 string) (*time.Location, error) { return time.LoadLocation(a0) }
func LoadLocationFromTZData(a0 string, a1 []byte) (*time.Location, error) {
	return time.LoadLocationFromTZData(a0, a1)
}

var Local = time.Local

type Location = time.Location

const March = time.March
const May = time.May
const Microsecond = time.Microsecond
const Millisecond = time.Millisecond
const Minute = time.Minute
const Monday = time.Monday

type Month = time.Month

const Nanosecond = time.Nanosecond
const November = time.November
const October = time.October

func Parse(a0 string, a1 string) (time.Time, error)  { return time.Parse(a0, a1) }
func ParseDuration(a0 string) (time.Duration, error) { return time.ParseDuration(a0) }

type ParseError = time.ParseError

func ParseInLocation(a0 string, a1 string, a2 *time.Location) (time.Time, error) {
	return time.ParseInLocation(a0, a1, a2)
}

const RFC1123 = time.RFC1123
const RFC1123Z = time.RFC1123Z
const RFC3339 = time.RFC3339
const RFC3339Nano = time.RFC3339Nano
const RFC822 = time.RFC822
const RFC822Z = time.RFC822Z
const RFC850 = time.RFC850
const RubyDate = time.RubyDate
const Saturday = time.Saturday
const Second = time.Second
const September = time.September
const Stamp = time.Stamp
const StampMicro = time.StampMicro
const StampMilli = time.StampMilli
const StampNano = time.StampNano
const Sunday = time.Sunday
const Thursday = time.Thursday

type Time = time.Time

const TimeOnly = time.TimeOnly
const Tuesday = time.Tuesday

var UTC = time.UTC

func Unix(a0 int64, a1 int64) time.Time { return time.Unix(a0, a1) }

const UnixDate = time.UnixDate

func UnixMicro(a0 int64) time.Time { return time.UnixMicro(a0) }
func UnixMilli(a0 int64) time.Time { return time.UnixMilli(a0) }

const Wednesday = time.Wednesday

type Weekday = time.Weekday
