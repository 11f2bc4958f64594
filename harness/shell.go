//go:build go1.27

package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"verif.local/sim/kernel"
	"verif.local/sim/rt"
)

// Scripts that the programs generate are executed by the real shell of this
// machine: as an unprivileged user, with files of its own below a scratch
// directory. Such an execution is a function of the script and the files, so
// runs stay repeatable.

var scratchDir string

// scratch is a directory of the real file system for this worker.
func scratch() string {
	if scratchDir == "" {
		root := os.Getenv("VERIF_SHROOT")
		if root == "" || !strings.HasPrefix(root, "/tmp/burlsh.") {
			panic("no scratch directory")
		}
		wk := os.Getenv("VERIF_WK")
		if _, err := strconv.Atoi(wk); err != nil || len(wk) != 2 {
			wk = "99"
		}
		scratchDir = root + "/" + wk
		rt.Hide = scratchDir
	}
	return scratchDir
}

// cleanScratch empties the scratch directory.
func cleanScratch() {
	d := scratch()
	if !strings.HasPrefix(d, "/tmp/burlsh.") || strings.Contains(d, "..") {
		panic("bad scratch directory")
	}
	if err := os.RemoveAll(d); err != nil {
		panic(err)
	}
	old := syscall.Umask(022)
	err := os.MkdirAll(d+"/cwd", 0755)
	syscall.Umask(old)
	if err != nil {
		panic(err)
	}
	if os.Getuid() == 0 {
		if err := os.Chown(d+"/cwd", 65534, 65534); err != nil {
			os.Chmod(d+"/cwd", 0777)
		}
	}
}

// realFile creates a file below the scratch directory.
func realFile(path, content string, mode os.FileMode) {
	if !strings.HasPrefix(path, scratch()+"/") || strings.Contains(path, "/../") {
		panic("file outside of the scratch directory: " + path)
	}
	old := syscall.Umask(022)
	defer syscall.Umask(old)
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(content), 0600); err != nil {
		panic(err)
	}
	if err := os.Chmod(path, mode); err != nil {
		panic(err)
	}
}

// stub is a program that prints its arguments, each ended by NUL.
const stubText = "#!/bin/sh\nprintf '%s\\0' \"$0\" \"$@\"\n"

type realRes struct {
	out, err string
	code     int // -1 if it did not run to an end
}

// runReal executes a program for real, as an unprivileged user.
func runReal(cwd string, argv ...string) realRes {
	d := scratch()
	of, e1 := os.OpenFile(d+"/.out", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	ef, e2 := os.OpenFile(d+"/.err", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	in, e3 := os.Open("/dev/null")
	if e1 != nil || e2 != nil || e3 != nil {
		panic(fmt.Sprint("scratch files: ", e1, e2, e3))
	}
	defer of.Close()
	defer ef.Close()
	defer in.Close()
	attr := &os.ProcAttr{Dir: cwd, Env: []string{"PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8"}, Files: []*os.File{in, of, ef}, Sys: &syscall.SysProcAttr{}}
	if os.Getuid() == 0 {
		attr.Sys.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	argv = append([]string{"/usr/bin/timeout", "-s", "KILL", "20"}, argv...)
	p, err := os.StartProcess(argv[0], argv, attr)
	if err != nil && attr.Sys.Credential != nil {
		attr.Sys.Credential = nil
		p, err = os.StartProcess(argv[0], argv, attr)
	}
	if err != nil {
		panic(err)
	}
	st, err := p.Wait()
	if err != nil {
		panic(err)
	}
	rt.Count("real:process", 1)
	ob, _ := os.ReadFile(d + "/.out")
	eb, _ := os.ReadFile(d + "/.err")
	return realRes{string(ob), string(eb), st.ExitCode()}
}

// realProgram lets a simulated process execute a program of this machine
// that only computes something from its arguments.
func realProgram(path string) func(p *kernel.Proc) int {
	return func(p *kernel.Proc) int {
		if scratchDir == "" || !exists(scratchDir) {
			cleanScratch()
		}
		r := runReal("/", append([]string{path}, p.Args[1:]...)...)
		p.Out(1, []byte(r.out))
		p.Out(2, []byte(r.err))
		return r.code
	}
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}
