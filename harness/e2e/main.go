package main

import (
	"context"

	"github.com/vivint/rothko/internal/zzverif/hk"
)

var ctx = context.Background()

func main() {
	hk.Main(map[string]func(*hk.Run){"C18": c18, "C31": c31, "C33": c33, "disk": keepDisk})
}
