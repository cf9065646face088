package main

import (
	"context"

	"github.com/vivint/rothko/internal/zzverif/hk"
)

var ctx = context.Background()

func main() {
	hk.Main(map[string]func(*hk.Run){
		"C27": c27, "C28": c28, "C29": c29, "C30": c30, "run-child": runChild, "signal-child": signalChild,
	})
}
