// Command of the server for runs in virtual time: built in place of cmd/j8a/main.go with the faketime tag of the Go runtime, which lets
// time jump to the next timer as soon as every goroutine waits. Plays a plan of memory sizes by means of a stand-in for /proc, then exits.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/simonmittag/j8a"
)

type step struct {
	At    int64 // seconds
	Pages int64 // resident memory, -1: the end
}

func main() {
	var plan []step
	if err := json.Unmarshal([]byte(os.Getenv("VV_PLAN")), &plan); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	dir := os.Getenv("VV_PROC")
	set := func(pages int64) {}
	if dir != "" {
		pid := fmt.Sprint(os.Getpid())
		os.MkdirAll(filepath.Join(dir, pid), 0755)
		for _, f := range []string{"stat", "meminfo", pid + "/stat", pid + "/status", pid + "/statm"} {
			b, _ := os.ReadFile("/proc/" + f)
			os.WriteFile(filepath.Join(dir, f), b, 0644)
		}
		set = func(pages int64) {
			f := filepath.Join(dir, pid, "statm")
			os.WriteFile(f+".new", []byte(fmt.Sprintf("%d %d 10 10 0 10 0\n", pages*2, pages)), 0644)
			os.Rename(f+".new", f)
		}
		set(plan[0].Pages)
		os.Setenv("HOST_PROC", dir)
	}
	start := time.Now()
	go func() {
		for _, s := range plan {
			time.Sleep(time.Duration(s.At)*time.Second - time.Since(start))
			if s.Pages < 0 {
				os.Exit(0)
			}
			set(s.Pages)
		}
	}()
	j8a.Boot.Add(1)
	j8a.BootStrap()
}
