package vfs

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
)

const childRoot = "ZZ_CHILD_ROOT"

type exited struct{ code int }

//verif:stub vfs os.Exit
func exit(code int) { panic(exited{code}) }

// Exit runs f as the body of a process and returns the exit status; 0 when f returns. Natively f runs in a process of
// its own, which repeats the harness up to here in the same directory.
func Exit(f func()) int {
	if sym.Symbolic() {
		return exitSymbolic(f)
	}
	if os.Getenv(childRoot) != "" {
		exitInChild(f)
	}
	return exitChild()
}

func exitSymbolic(f func()) (code int) {
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(exited)
			if !ok {
				panic(p)
			}
			code = e.code
		}
	}()
	f()
	return 0
}

func exitInChild(f func()) {
	defer func() {
		if p := recover(); p != nil {
			os.Stderr.WriteString(fmt.Sprintf("%v\n", p))
			os.Exit(2)
		}
	}()
	f()
	os.Exit(0)
}

func exitChild() int {
	self, err := os.Executable()
	must(err)
	r, err := json.Marshal(map[string]interface{}{
		"harness": sym.Cur.Harness, "prop": sym.Cur.Prop, "values": sym.Cur.Values, "params": sym.Cur.Params, "stress": sym.Cur.Stress,
	})
	must(err)
	must(os.Chdir(sym.Scratch()))
	c := exec.Command(self)
	c.Stdin = bytes.NewReader(r)
	c.Env = []string{"HOME=" + sym.Scratch(), "PATH=/usr/bin:/bin", "ZZ_SCRATCH=" + sym.Scratch(), "TMPDIR=" + sym.Scratch(), childRoot + "=" + root}
	err = c.Run()
	must(os.Chdir(cwd))
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return ee.ExitCode()
	}
	must(err)
	return 0
}
