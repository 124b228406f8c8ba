//go:build go1.22

// actors: checks A01..A04 on jlibhttp.Actor.
package main

import (
	"context"
	"io"

	log "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	Main(map[string][]Family{"A01": a01(), "A02": a02(), "A03": a03(), "A04": a04()})
}

func newReq(msg jlib.Message) *jlibhttp.RPCRequest {
	return jlibhttp.NewRPCRequest(context.Background(), msg, jlibhttp.TransportHTTP, nil)
}

// feed runs Actor.Feed and tells a panic from a return.
func feed(x *X, a *jlibhttp.Actor, msg jlib.Message) (res jlib.Message, err error, panicked bool, pv interface{}) {
	x.Op()
	panicked, pv = Try(func() { res, err = a.Feed(newReq(msg)) })
	return
}

// text of a message as JSON, "" for none
func text(m jlib.Message) string {
	if m == nil {
		return ""
	}
	data, err := jlib.MessageBytes(m)
	if err != nil {
		return "<" + err.Error() + ">"
	}
	return CanonOf(data)
}
