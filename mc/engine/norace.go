//go:build !race && go1.23

package engine

// RaceEnabled tells whether the race detector is built in.
const RaceEnabled = false
