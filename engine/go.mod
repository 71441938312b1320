module symgo

go 1.26

require golang.org/x/tools v0.49.0

require (
	golang.org/x/mod v0.39.0 // indirect
	golang.org/x/sync v0.22.0 // indirect
)
