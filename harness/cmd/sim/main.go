// Command sim checks daemons on a simulated network in virtual time.
package main

import (
	"os"

	"flucheck/core"
)

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // the client reports its progress there
	}
	core.Main()
}
