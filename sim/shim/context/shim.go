package context

import (
	"context"
	"time"
	"vsim/vsim"
)

func Background() context.Context                                        { return vsim.Background() }
func TODO() context.Context                                              { return vsim.Background() }
func WithCancel(p context.Context) (context.Context, context.CancelFunc) { return vsim.WithCancel(p) }
func WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	return vsim.WithCancelCause(p)
}
func WithDeadline(p context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return vsim.WithDeadline(p, d)
}
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return vsim.WithTimeout(p, d)
}
func WithValue(p context.Context, k, v any) context.Context { return vsim.WithValue(p, k, v) }
func AfterFunc(ctx context.Context, f func()) func() bool   { return vsim.CtxAfterFunc(ctx, f) }
func WithoutCancel(p context.Context) context.Context       { return vsim.Background() }
