package time

import (
	"time"
	"vsim/vsim"
)

type Timer = vsim.Timer
type Ticker = vsim.Ticker

func Now() time.Time {
	vsim.Y()
	return vsim.WallNow()
}
func Sleep(d time.Duration)                           { vsim.Sleep(d) }
func Since(t time.Time) time.Duration                 { return vsim.WallNow().Sub(t) }
func Until(t time.Time) time.Duration                 { return t.Sub(vsim.WallNow()) }
func After(d time.Duration) <-chan time.Time          { return vsim.After(d) }
func AfterFunc(d time.Duration, f func()) *vsim.Timer { return vsim.AfterFunc(d, f) }
func NewTimer(d time.Duration) *vsim.Timer            { return vsim.NewTimer(d) }
func NewTicker(d time.Duration) *vsim.Ticker          { return vsim.NewTicker(d) }
func Tick(d time.Duration) <-chan time.Time           { return vsim.Tick(d) }
