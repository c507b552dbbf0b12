package main

import "os"

func mkdir(p string) error { return os.MkdirAll(p, 0o755) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}
