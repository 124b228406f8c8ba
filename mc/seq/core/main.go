//go:build go1.22

// core: checks C01..C08 on the jlib root package.
package main

import (
	"io"

	log "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib/zzverif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	kit.Main(map[string][]kit.Family{
		"C01": c01(), "C02": c02(), "C03": c03(), "C04": c04(),
		"C05": c05(), "C06": c06(), "C07": c07(), "C08": c08(),
	})
}
