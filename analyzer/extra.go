package main

import _ "embed"

//go:embed extra.sum
var extraSum string
