module verif

require (
	filippo.io/sunlight v0.5.2
	filippo.io/torchwood v0.5.1-0.20250713221105-b067ac9d4cf6
	github.com/bluele/gcache v0.0.0-20190518031135-bc40bd653833
	github.com/go-redis/redis v6.15.9+incompatible
	github.com/golang/glog v1.2.4
	github.com/google/certificate-transparency-go v1.3.2
	github.com/google/renameio v1.0.1
	github.com/hashicorp/go-metrics v0.5.3
	github.com/zmap/zcrypto v0.0.0-20260109180747-df961ee46a6c
	gopkg.in/ini.v1 v1.67.0
)

require (
	github.com/fsnotify/fsnotify v1.7.0 // indirect
	github.com/hashicorp/go-immutable-radix v1.3.1 // indirect
	github.com/hashicorp/go-uuid v1.0.3 // indirect
	github.com/hashicorp/golang-lru v0.6.0 // indirect
	github.com/onsi/ginkgo v1.16.5 // indirect
	github.com/onsi/gomega v1.35.1 // indirect
	github.com/weppos/publicsuffix-go v0.50.3-0.20260108123922-15eaa75052c0 // indirect
	golang.org/x/crypto v0.46.0 // indirect
	golang.org/x/net v0.48.0 // indirect
	golang.org/x/sync v0.19.0 // indirect
	golang.org/x/text v0.32.0 // indirect
	google.golang.org/protobuf v1.36.6 // indirect
)

go 1.24.4

toolchain go1.24.5

require (
	github.com/mozilla/crlite/go v0.0.0
	golang.org/x/mod v0.30.0
)

replace github.com/mozilla/crlite/go => /repo/go
