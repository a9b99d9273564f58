module verif/harness

go 1.23

require (
	github.com/flawedmatrix/gocryptsftp v0.0.0
	github.com/jacobsa/crypto v0.0.0-20190317225127-9f44e2d11115
	github.com/pkg/sftp v1.10.0
	github.com/rfjakob/eme v0.0.0-20171028163933-2222dbd4ba46
	golang.org/x/crypto v0.0.0-20190820162420-60c769a6c586
	pgregory.net/rapid v1.3.0
)

require (
	github.com/dchest/siphash v1.2.1 // indirect
	github.com/go-playground/locales v0.12.1 // indirect
	github.com/go-playground/universal-translator v0.16.0 // indirect
	github.com/kr/fs v0.1.0 // indirect
	github.com/leodido/go-urn v1.1.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/sys v0.0.0-20190626221950-04f50cda93cb // indirect
	gopkg.in/go-playground/validator.v9 v9.29.1 // indirect
)

replace github.com/flawedmatrix/gocryptsftp => /repo
