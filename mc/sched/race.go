//go:build race && go1.23

package sched

import "runtime"

// Race tells whether the race detector watches.
const Race = true

func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Races returns the number of races seen so far.
func Races() int { return runtime.RaceErrors() }
