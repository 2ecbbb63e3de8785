//go:build ignore

// unquote prints the byte and the string given as Go literals.
package main

import (
	"os"
	"strconv"
)

func main() {
	c, err := strconv.Unquote(os.Args[1])
	if err != nil {
		panic(err)
	}
	s, err := strconv.Unquote(os.Args[2])
	if err != nil {
		panic(err)
	}
	r := []rune(c)
	os.Stdout.Write(append([]byte{byte(r[0])}, s...))
}
