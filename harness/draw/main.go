package main

import "github.com/vivint/rothko/internal/zzverif/hk"

func main() {
	hk.Main(map[string]func(*hk.Run){"C26": c26})
}
