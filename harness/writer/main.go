package main

import "github.com/vivint/rothko/internal/zzverif/hk"

func main() {
	hk.Main(map[string]func(*hk.Run){
		"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C32": c32,
	})
}
