//go:build !race

package main

const raceBuild = false

func raceDisable()    {}
func raceEnable()     {}
func raceErrors() int { return 0 }
