package main

// getg identifies the running goroutine.
func getg() uintptr
