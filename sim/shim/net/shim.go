package net

import (
	"context"
	"errors"
	"net"
	"time"
	"vsim/vsim"
)

func Listen(network, address string) (net.Listener, error) { return vsim.Listen(network, address) }
func ListenTCP(network string, a *net.TCPAddr) (net.Listener, error) {
	return vsim.Listen(network, a.String())
}
func Dial(network, address string) (net.Conn, error) { return vsim.Dial(nil, network, address, 0) }
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, address)
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(nil, network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	dl := vsim.CtxDeadline(ctx)
	min := func(x time.Duration) {
		if x <= 0 {
			x = 1
		}
		if dl == 0 || x < dl {
			dl = x
		}
	}
	if d.Timeout > 0 {
		min(vsim.WallNow().Add(d.Timeout).Sub(vsim.Epoch))
	}
	if !d.Deadline.IsZero() {
		min(d.Deadline.Sub(vsim.Epoch))
	}
	if ctx == nil {
		return vsim.Dial(nil, network, address, dl)
	}
	return vsim.Dial(ctx, network, address, dl)
}

type ListenConfig struct {
	KeepAlive time.Duration
}

func (l *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return vsim.Listen(network, address)
}

func LookupHost(h string) ([]string, error) { return nil, errors.New("no resolver") }
