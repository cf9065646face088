package main

import "github.com/vivint/rothko/internal/zzverif/hk"

func main() {
	hk.Main(map[string]func(*hk.Run){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04,
		"C05": c05, "C06": c06, "C09": c09, "C29": c29, "C08": c08, "C10": c10, "C11": c11, "C07": c07, "C34": c34, "kill-child": killChild, "full-child": fullChild, "many-child": manyChild,
	})
}
