module verif/mc

go 1.23

require (
	github.com/mashmb/1pass/1pass-core v1.3.1
	github.com/mashmb/1pass/1pass-parse v1.3.1
	gopkg.in/yaml.v2 v2.4.0
)

require golang.org/x/crypto v0.0.0-20210421170649-83a5a9bb288b // indirect

replace (
	github.com/mashmb/1pass/1pass-core => /repo/1pass-core
	github.com/mashmb/1pass/1pass-parse => /repo/1pass-parse
)
