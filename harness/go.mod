module verif.local/harness
go 1.27
require github.com/hexbee-net/etxe v0.0.0
replace github.com/hexbee-net/etxe => /repo
require (
	github.com/alecthomas/participle v0.7.1
	github.com/alecthomas/participle/v2 v2.0.0-alpha8
	github.com/alecthomas/repr v0.0.0-20181024024818-d37bc2a10ba1
	github.com/google/go-cmp v0.5.8
	github.com/stretchr/testify v1.7.0
	github.com/urfave/cli/v2 v2.5.1
)
require (
	github.com/cpuguy83/go-md2man/v2 v2.0.1 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	gopkg.in/yaml.v3 v3.0.0-20200313102051-9f266ea9e77c // indirect
)
