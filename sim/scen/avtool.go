package scen

import (
	"os"

	"vsim/vsim"

	avtool "github.com/nareix/joy5/cmd/avtool"
)

var avtoolReal = []string{"cmd/avtool (command line, subcommand)", "format/rtmp (client, server, connection, chunk stream, handshake, commands)", "format (URL opener)", "format/flv, format/flv/flvio (tags, AMF)", "utils/bits/pio"}

// startAvtool runs the avtool program with the given arguments as a simulated
// process.
func startAvtool(p *vsim.Proc, args ...string) *vsim.Task {
	return p.Main("avtool", func() {
		// cobra reads os.Args before the first blocking operation
		vsim.NoPreempt()
		os.Args = append([]string{"avtool"}, args...)
		avtool.VerifMain()
	})
}
