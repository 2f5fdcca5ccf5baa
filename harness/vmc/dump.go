package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

// dumps are computations that are also run in processes of their own; the
// process prints what they return.
var dumps = map[string]func() []byte{}

// runDump is called first in main.
func runDump() {
	name := os.Getenv("VERIF_DUMP")
	if name == "" {
		return
	}
	f := dumps[name]
	if f == nil {
		os.Exit(4)
	}
	fmt.Println("DUMP " + hex.EncodeToString(f()))
	os.Exit(0)
}

// inProcess runs a dump in a new process whose initialisation reads from the
// given tape.
func inProcess(name string, tape0 int, env ...string) ([]byte, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_SHARD=") && !strings.HasPrefix(e, "VERIF_CASE=") && !strings.HasPrefix(e, "VERIF_JOURNAL=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_DUMP="+name, fmt.Sprint("VERIF_TAPE0=", tape0))
	cmd.Env = append(cmd.Env, env...)
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("process %s: %v", name, err)
	}
	i := bytes.LastIndex(out, []byte("DUMP "))
	if i < 0 {
		return nil, fmt.Errorf("process %s printed nothing", name)
	}
	return hex.DecodeString(strings.TrimSpace(string(out[i+5:])))
}
