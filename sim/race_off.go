//go:build !race

package main

import "unsafe"

const raceBuild = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceReports() []raceReport    { return nil }
func dropRaceLog()                 {}
