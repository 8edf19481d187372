// Package fastime, simulated: the same API, reading the simulated clock on
// every call instead of a value refreshed by a background goroutine.
package fastime

import (
	"context"
	"time"
)

type Fastime interface {
	IsDaemonRunning() bool
	GetFormat() string
	SetFormat(format string) Fastime
	GetLocation() *time.Location
	SetLocation(location *time.Location) Fastime
	Now() time.Time
	Stop()
	UnixNow() int64
	UnixUNow() uint32
	UnixNanoNow() int64
	UnixUNanoNow() uint32
	FormattedNow() []byte
	StartTimerD(ctx context.Context, dur time.Duration) Fastime
}

type fastime struct{}

var format = time.RFC3339

func New() Fastime                                             { return fastime{} }
func (f fastime) IsDaemonRunning() bool                        { return true }
func (f fastime) GetFormat() string                            { return format }
func (f fastime) SetFormat(s string) Fastime                   { format = s; return f }
func (f fastime) GetLocation() *time.Location                  { return time.UTC }
func (f fastime) SetLocation(location *time.Location) Fastime  { return f }
func (f fastime) Now() time.Time                               { return Now() }
func (f fastime) Stop()                                        {}
func (f fastime) UnixNow() int64                               { return time.Now().Unix() }
func (f fastime) UnixUNow() uint32                             { return uint32(time.Now().Unix()) }
func (f fastime) UnixNanoNow() int64                           { return time.Now().UnixNano() }
func (f fastime) UnixUNanoNow() uint32                         { return uint32(time.Now().UnixNano()) }
func (f fastime) FormattedNow() []byte                         { return []byte(time.Now().Format(format)) }
func (f fastime) StartTimerD(context.Context, time.Duration) Fastime { return f }

var instance = New()

func IsDaemonRunning() bool                                  { return true }
func GetLocation() *time.Location                            { return time.UTC }
func GetFormat() string                                      { return format }
func SetFormat(s string) Fastime                             { return instance.SetFormat(s) }
func SetLocation(location *time.Location) Fastime            { return instance }
func Now() time.Time                                         { return time.Now().Round(0) } // no monotonic reading, as the real one
func Stop()                                                  {}
func UnixNow() int64                                         { return time.Now().Unix() }
func UnixUNow() uint32                                       { return uint32(time.Now().Unix()) }
func UnixNanoNow() int64                                     { return time.Now().UnixNano() }
func UnixUNanoNow() uint32                                   { return uint32(time.Now().UnixNano()) }
func FormattedNow() []byte                                   { return instance.FormattedNow() }
func StartTimerD(context.Context, time.Duration) Fastime     { return instance }
