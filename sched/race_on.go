//go:build race
// +build race

package verifsched

import "runtime"

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }
