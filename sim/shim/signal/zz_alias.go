// Code generated by cmd/shimgen. DO NOT EDIT.

package signal

import real "os/signal"

var Ignored = real.Ignored
var NotifyContext = real.NotifyContext
