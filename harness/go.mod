module vh

go 1.26

require (
	github.com/rjeczalik/notify v0.0.0
	golang.org/x/sys v0.0.0-20180926160741-c2ed4eda69e7
)

replace github.com/rjeczalik/notify => /repo
