//go:build !race
// +build !race

package verifsched

func raceOff() {}

func raceOn() {}
