// Command lib checks the properties that are decided on library calls alone.
package main

import "flucheck/core"

func main() { core.Main() }
