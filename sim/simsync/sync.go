// Package simsync stands in for package sync.
package simsync

import "simverif/simrt"

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	WaitGroup = simrt.WaitGroup
	Once      = simrt.Once
	Cond      = simrt.Cond
	Pool      = simrt.Pool
	Map       = simrt.Map
	Locker    = simrt.Locker
)

func NewCond(l Locker) *Cond                             { return simrt.NewCond(l) }
func OnceFunc(f func()) func()                           { return simrt.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return simrt.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return simrt.OnceValues(f) }
