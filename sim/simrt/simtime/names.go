package simtime

import "time"

const (
	RFC822Z   = time.RFC822Z
	RFC850    = time.RFC850
	RFC1123Z  = time.RFC1123Z
	RubyDate  = time.RubyDate
	UnixDate  = time.UnixDate
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
