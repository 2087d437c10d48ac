module verif/harness

go 1.23.0

toolchain go1.23.6

require (
	github.com/Songmu/prompter v0.5.1
	github.com/alexedwards/argon2id v1.0.0
	github.com/amoghe/go-crypt v0.0.0-20220222110647-20eada5f5964
	github.com/armon/go-radix v1.0.0
	github.com/bombsimon/logrusr/v3 v3.1.0
	github.com/coreos/go-systemd/v22 v22.5.0
	github.com/go-asn1-ber/asn1-ber v1.5.8-0.20250403174932-29230038a667
	github.com/go-ldap/ldap/v3 v3.4.11
	github.com/go-ldap/ldif v0.0.0-20200320164324-fd88d9b715b3
	github.com/go-logr/logr v1.4.2
	github.com/go-logr/stdr v1.2.2
	github.com/longsleep/rndm v1.2.0
	github.com/orcaman/concurrent-map v1.0.0
	github.com/prometheus/client_golang v1.22.0
	github.com/sethvargo/go-password v0.3.1
	github.com/sirupsen/logrus v1.9.3
	github.com/spacewander/go-suffix-tree v0.0.0-20191010040751-0865e368c784
	github.com/spf13/cobra v1.9.1
	github.com/trustelem/zxcvbn v1.0.1
	go.etcd.io/bbolt v1.4.0
	golang.org/x/text v0.24.0
)

require (
	github.com/Azure/go-ntlmssp v0.0.0-20221128193559-754e69321358 // indirect
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/dlclark/regexp2 v1.4.0 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/mattn/go-isatty v0.0.14 // indirect
	github.com/munnerz/goautoneg v0.0.0-20191010083416-a7dc8b61c822 // indirect
	github.com/prometheus/client_model v0.6.1 // indirect
	github.com/prometheus/common v0.62.0 // indirect
	github.com/prometheus/procfs v0.15.1 // indirect
	github.com/spf13/pflag v1.0.6 // indirect
	github.com/test-go/testify v1.1.4 // indirect
	golang.org/x/crypto v0.36.0 // indirect
	golang.org/x/sys v0.31.0 // indirect
	golang.org/x/term v0.30.0 // indirect
	google.golang.org/protobuf v1.36.5 // indirect
)

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/libregraph/idm v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/libregraph/idm => /repo
