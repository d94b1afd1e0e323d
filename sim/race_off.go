//go:build !race

package main

import "unsafe"

const raceBuild = false

func raceOff() {}
func raceOn()  {}

func raceEnd()  {}
func raceJoin() {}

func raceRead(p unsafe.Pointer, n int)  {}
func raceWrite(p unsafe.Pointer, n int) {}
