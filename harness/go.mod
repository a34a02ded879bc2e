module verif

go 1.24.4

require github.com/pandatix/go-abnf v0.0.0

require github.com/hashicorp/go-uuid v1.0.3 // indirect

replace github.com/pandatix/go-abnf => /repo
