//go:build !race && go1.23

package sched

// Race tells whether the race detector watches.
const Race = false

func hide()   {}
func unhide() {}

// Races returns the number of races seen so far.
func Races() int { return 0 }
