// Package simos stands in for the console of package os; everything else of it is passed through.
package simos

import "simverif/simrt"

// Console is standard output or standard error.
type Console struct{ fd int }

var (
	Stdout = &Console{1}
	Stderr = &Console{2}
)

func (c *Console) Write(b []byte) (int, error) {
	simrt.Print(c.fd, b)
	return len(b), nil
}

func (c *Console) WriteString(s string) (int, error) { return c.Write([]byte(s)) }

func (c *Console) Fd() uintptr { return uintptr(c.fd) }

func (c *Console) Sync() error { return nil }
