module flucheck

go 1.26

require (
	github.com/flu-network/client v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

require github.com/anishathalye/porcupine v1.3.1

replace github.com/flu-network/client => /repo
