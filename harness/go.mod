module vh

go 1.18

require github.com/leodido/go-urn v0.0.0

replace github.com/leodido/go-urn => /repo
