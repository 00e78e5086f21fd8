// Code generated by cmd/shimgen. DO NOT EDIT.

package rand

import real "crypto/rand"

var Int = real.Int
var Prime = real.Prime
var Text = real.Text
