module replay

go 1.23

require (
	github.com/libsv/libsv v0.0.0
	github.com/bitcoinsv/bsvd v0.0.0-20190609155523-4c29707f7173
	github.com/bitcoinsv/bsvutil v0.0.0-20181216182056-1d77cf353ea9
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9
)

replace github.com/libsv/libsv => /repo
