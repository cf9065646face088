package main

import "github.com/vivint/rothko/internal/zzverif/hk"

func main() {
	hk.Main(map[string]func(*hk.Run){"C19": c19, "C20": c20, "C21": c21})
}
