// Command of the server that tells what configuration is in force after its start: built in place of cmd/j8a/main.go.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"time"

	"github.com/simonmittag/j8a"
)

func main() {
	c := flag.String("c", "", "")
	flag.Parse()
	j8a.ConfigFile = *c
	j8a.Boot.Add(1)
	go j8a.BootStrap()
	j8a.Boot.Wait()
	b, err := json.Marshal(j8a.Runner.Config)
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	port := j8a.Runner.Config.Connection.Downstream.Port
	os.WriteFile(os.Getenv("VV_DUMP"), b, 0644)
	for i := 0; i < 1000; i++ {
		k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			k.Close()
			os.Exit(7)
		}
		time.Sleep(3 * time.Millisecond)
	}
	os.Exit(8)
}
