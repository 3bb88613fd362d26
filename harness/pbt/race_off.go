//go:build !race

package pbt

// RaceEnabled tells whether the race detector is on
const RaceEnabled = false
