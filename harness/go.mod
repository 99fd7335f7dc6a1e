module verifharness

go 1.23.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/apache/thrift v0.22.0
	github.com/chai2010/webp v1.4.0
	github.com/donnie4w/gofer v0.0.0
	github.com/donnie4w/gothrift v0.0.3
	github.com/golang/snappy v1.0.0
	github.com/klauspost/compress v1.18.0
	golang.org/x/crypto v0.40.0
	golang.org/x/image v0.30.0
	golang.org/x/net v0.42.0
	google.golang.org/protobuf v1.36.7
)

require (
	github.com/disintegration/imaging v1.6.2 // indirect
	github.com/donnie4w/ico v0.0.1 // indirect
	github.com/google/btree v1.1.3 // indirect
)

replace github.com/donnie4w/gofer => /repo

replace github.com/donnie4w/ico => ./stubs/ico
