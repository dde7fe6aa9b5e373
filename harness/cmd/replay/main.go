// Command replay runs one harness natively with recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"

	"verif/harness/h"
	"verif/harness/vp"
)

func main() {
	log.SetOutput(io.Discard)
	f := h.All[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", os.Args[1])
		os.Exit(3)
	}
	if err := vp.Load(os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	e := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if vp.IsAssume(r) {
					e = "assume"
					return
				}
				if vp.IsEnd(r) {
					return
				}
				panic(r)
			}
		}()
		f()
	}()
	b, _ := json.Marshal(map[string]interface{}{"failed": vp.Failed, "obs": vp.Obs, "covers": vp.Covers, "err": e})
	fmt.Println("RESULT " + string(b))
	os.Exit(0)
}
