module veltyharness
go 1.17
require github.com/viant/velty v0.0.0
replace github.com/viant/velty => /repo
require (
	github.com/stretchr/testify v1.8.1
	github.com/viant/assertly v0.9.1-0.20220620174148-bab013f93a60
	github.com/viant/parsly v0.0.0-20220309230857-3a8c3e9c4030
	github.com/viant/toolbox v0.34.6-0.20221112031702-3e7cdde7f888
	github.com/viant/xreflect v0.0.0-20230303201326-f50afb0feb0d
	github.com/viant/xunsafe v0.9.1-0.20230927172001-c46ad2c48d68
)

require (
	cloud.google.com/go v0.65.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-errors/errors v1.4.2 // indirect
	github.com/kr/pretty v0.1.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	gopkg.in/check.v1 v1.0.0-20180628173108-788fd7840127 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
