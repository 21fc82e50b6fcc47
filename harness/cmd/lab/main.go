// Command lab checks real daemons and the real command-line tool on local networks of their own.
package main

import "flucheck/core"

func main() { core.Main() }
