package main

import (
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// zkStrike picks a file operation that fails or is the last one.
func zkStrike(n int) (crash bool, at int) {
	zkv.Quiesce()
	zkos.CrashBlocks = true
	crash = zkv.Bool("crash")
	at = zkv.Choose("at", n)
	if crash {
		zkos.Arm(at, -1)
	} else {
		zkos.Arm(-1, at)
	}
	return
}
