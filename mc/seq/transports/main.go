//go:build go1.22

// transports: checks H01..H03 (HTTP/1 handler, agreement of the transports,
// HTTP/1 client) and U01, U02 (authentication).
package main

import (
	"io"

	log "github.com/sirupsen/logrus"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	Main(map[string][]Family{"H01": h01(), "H02": h02(), "H03": h03(), "H04": h04(), "H05": h05(), "U01": u01(), "U02": u02()})
}
