package rand

import "vsim/vsim"

type reader struct{}

func (reader) Read(b []byte) (int, error) { return vsim.RandRead(b) }

var Reader reader

func Read(b []byte) (int, error) { return vsim.RandRead(b) }
