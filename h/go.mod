module verif

go 1.24

require github.com/abema/go-mp4 v0.0.0

require (
	github.com/google/uuid v1.1.2 // indirect
	gopkg.in/yaml.v2 v2.2.8
	github.com/sunfish-shogi/bufseekio v0.0.0-20210207115823-a4185644b365
)

replace github.com/abema/go-mp4 => /repo
