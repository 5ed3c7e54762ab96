package simrt

// OnPrint sets who receives what the code under test writes to standard output (1) and standard error (2) in this run.
func OnPrint(f func(fd int, b []byte)) {
	if s != nil {
		s.print = f
	}
}

// Print writes to the console.
func Print(fd int, b []byte) {
	if Active() && s.print != nil {
		s.print(fd, b)
	}
}
