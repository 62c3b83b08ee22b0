module verif

go 1.23

require (
	github.com/benbjohnson/clock v1.3.0
	github.com/bobg/errors v0.10.0
	github.com/bobg/fab v0.0.0-00010101000000-000000000000
	github.com/bobg/tsdecls v0.1.0
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/bobg/go-generics v1.5.0 // indirect
	github.com/bobg/go-generics/v2 v2.1.2 // indirect
	github.com/fatih/camelcase v1.0.0 // indirect
	github.com/gibson042/canonicaljson-go v1.0.3 // indirect
	github.com/mattn/go-sqlite3 v1.14.15 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/exp v0.0.0-20230213192124-5e25df0256eb // indirect
	golang.org/x/mod v0.18.0 // indirect
	golang.org/x/sync v0.7.0 // indirect
	golang.org/x/sys v0.21.0 // indirect
	golang.org/x/tools v0.22.0 // indirect
)

replace github.com/bobg/fab => /repo
