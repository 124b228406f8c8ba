//go:build go1.22

// tools: check T01 (the command-line tools, run as real processes).
package main

import (
	"io"

	log "github.com/sirupsen/logrus"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	Main(map[string][]Family{"T01": t01()})
}
