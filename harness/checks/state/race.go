//go:build race

package state

const raceEnabled = true
