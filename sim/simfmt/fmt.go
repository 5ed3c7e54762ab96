// Package simfmt stands in for the functions of package fmt that write to standard output.
package simfmt

import (
	"fmt"

	"simverif/simos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(simos.Stdout, format, a...) }
