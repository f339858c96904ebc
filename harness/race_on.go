//go:build race

package main

import "runtime"

const raceBuild = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }
