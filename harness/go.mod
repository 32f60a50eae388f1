module verif

go 1.23

require (
	github.com/bazelbuild/buildtools v0.0.0
	github.com/golang/protobuf v1.5.0
	go.starlark.net v0.0.0-20210223155950-e043a3d3c984
	google.golang.org/protobuf v1.33.0
	pgregory.net/rapid v1.3.0
)

replace github.com/bazelbuild/buildtools => /repo
