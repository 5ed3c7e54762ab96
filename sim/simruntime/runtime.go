// Package simruntime stands in for package runtime.
package simruntime

import "simverif/simrt"

func Gosched()          { simrt.Gosched() }
func NumGoroutine() int { return len(simrt.LiveTasks()) }
