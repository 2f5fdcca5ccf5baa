// Package gate lets an explorer hold a program at chosen points.
package gate

import (
	"fmt"
	"hash/fnv"
	"net"
	"os"
)

var sock = os.Getenv("VERIF_GATE")

// At tells the explorer where the program is, and waits for its permission.
func At(point string, data []byte) {
	if sock == "" {
		return
	}
	c, err := net.Dial("unix", sock)
	if err != nil {
		return
	}
	defer c.Close()
	fmt.Fprintf(c, "%s %x\n", point, ID(data))
	c.Read(make([]byte, 1))
}

// ID identifies data.
func ID(data []byte) uint64 {
	h := fnv.New64a()
	h.Write(data)
	return h.Sum64()
}
