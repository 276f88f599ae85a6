package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
)

func shortHash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:6])
}

// childCommands are run in a fresh process of this binary: JSON in, JSON out.
var childCommands = map[string]func(stdin []byte) interface{}{}

func init() {
	childMain = func(args []string) {
		in, err := io.ReadAll(os.Stdin)
		must(err)
		out := childCommands[args[0]](in)
		data, err := json.Marshal(out)
		must(err)
		_, _ = os.Stdout.Write(data)
	}
}

func runChild(c *Ctx, name string, in interface{}, out interface{}) {
	self, err := os.Executable()
	must(err)
	data, err := json.Marshal(in)
	must(err)
	cmd := exec.Command(self, "child", name)
	cmd.Env = append(os.Environ(), "TMPDIR="+c.Scratch)
	cmd.Stdin = bytes.NewReader(data)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	res, err := cmd.Output()
	if err != nil {
		panic(&harnessError{fmt.Errorf("child %s: %v: %s", name, err, clip(stderr.String(), 2000))})
	}
	must(json.Unmarshal(res, out))
}
