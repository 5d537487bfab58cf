module rodbverif

go 1.23

require (
	github.com/antchfx/xmlquery v1.3.6
	github.com/antchfx/xpath v1.1.11
	github.com/mattn/go-sqlite3 v1.14.8
	github.com/rodb-io/rodb v0.0.0
	github.com/sirupsen/logrus v1.7.0
	golang.org/x/text v0.3.8
	gopkg.in/yaml.v2 v2.4.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/fsnotify/fsnotify v1.4.9 // indirect
	github.com/golang/groupcache v0.0.0-20200121045136-8c9f03a8e57e // indirect
	golang.org/x/net v0.0.0-20220722155237-a158d28d115b // indirect
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f // indirect
)

replace github.com/rodb-io/rodb => /repo
