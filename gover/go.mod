module gover

go 1.26

require golang.org/x/tools v0.49.0

require (
	golang.org/x/mod v0.39.0 // indirect
	golang.org/x/sync v0.22.0 // indirect
)

replace (
	golang.org/x/mod => /root/go/pkg/mod/golang.org/x/mod@v0.39.0
	golang.org/x/sync => /root/go/pkg/mod/golang.org/x/sync@v0.22.0
	golang.org/x/tools => /root/go/pkg/mod/golang.org/x/tools@v0.49.0
)
