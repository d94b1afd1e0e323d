//go:build !amd64

package main

func getg() uintptr { return 0 }
