module pgvc

go 1.23

require google.golang.org/protobuf v1.26.0
