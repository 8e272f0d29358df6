package main

import (
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func main() { vk.Main(checks.All) }
