package main

import "github.com/vivint/rothko/internal/zzverif/hk"

func main() {
	hk.Main(map[string]func(*hk.Run){
		"C22": c22, "C23": c23, "C23r": c23race, "C24": c24, "C25": c25, "C32": c32,
	})
}
