module verif/harness

go 1.25.0

require (
	github.com/cenkalti/backoff/v4 v4.3.0
	github.com/coder/websocket v1.8.15
	github.com/dave/jennifer v1.7.1
	github.com/go-kit/log v0.2.1
	github.com/google/uuid v1.6.0
	github.com/onsi/ginkgo v1.16.5
	github.com/onsi/ginkgo/v2 v2.32.0
	github.com/onsi/gomega v1.42.1
	github.com/quic-go/webtransport-go v0.12.0
	github.com/stretchr/testify v1.11.1
	github.com/teivah/onecontext v1.3.0
	github.com/vmihailenco/msgpack/v5 v5.4.1
)

require (
	github.com/Masterminds/semver/v3 v3.5.0 // indirect
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/dunglas/httpsfv v1.1.0 // indirect
	github.com/fsnotify/fsnotify v1.10.1 // indirect
	github.com/go-logfmt/logfmt v0.6.1 // indirect
	github.com/go-logr/logr v1.4.4 // indirect
	github.com/go-task/slim-sprig/v3 v3.0.0 // indirect
	github.com/google/go-cmp v0.7.0 // indirect
	github.com/google/pprof v0.0.0-20260802141513-ef3492d7dac3 // indirect
	github.com/nxadm/tail v1.4.11 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/quic-go/qpack v0.6.0 // indirect
	github.com/quic-go/quic-go v0.61.0 // indirect
	github.com/vmihailenco/tagparser/v2 v2.0.0 // indirect
	go.uber.org/atomic v1.11.0 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
	golang.org/x/crypto v0.54.0 // indirect
	golang.org/x/mod v0.38.0 // indirect
	golang.org/x/net v0.57.0 // indirect
	golang.org/x/sync v0.22.0 // indirect
	golang.org/x/sys v0.47.0 // indirect
	golang.org/x/text v0.40.0 // indirect
	golang.org/x/tools v0.48.0 // indirect
	gopkg.in/tomb.v1 v1.0.0-20141024135613-dd632973f1e7 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require (
	github.com/philippseith/signalr v0.11.0
	github.com/go-chi/chi/v5 v5.3.1
	github.com/gorilla/mux v1.8.1
	github.com/julienschmidt/httprouter v1.3.0
	github.com/philippseith/signalr/ext v0.0.0-00010101000000-000000000000
	github.com/philippseith/signalr/router v0.0.0-00010101000000-000000000000
	github.com/redis/go-redis/v9 v9.22.0
)

replace github.com/philippseith/signalr => /repo

replace github.com/philippseith/signalr/ext => /repo/ext

replace github.com/philippseith/signalr/router => /repo/router
