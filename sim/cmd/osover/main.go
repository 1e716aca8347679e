// Command osover writes patched copies of a few files of the standard package os, in which every file
// operation and process exit first asks a handler, and a build overlay for them.
//
//	osover OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "osover:", err)
	os.Exit(1)
}

var renames = map[string][][2]string{
	"file_posix.go": {
		{"func (f *File) Close() error {", "func (f *File) simRealClose() error {"},
		{"func (f *File) read(b []byte)", "func (f *File) simRealRead(b []byte)"},
		{"func (f *File) pread(b []byte, off int64)", "func (f *File) simRealPread(b []byte, off int64)"},
		{"func (f *File) write(b []byte)", "func (f *File) simRealWrite(b []byte)"},
		{"func (f *File) pwrite(b []byte, off int64)", "func (f *File) simRealPwrite(b []byte, off int64)"},
		{"func (f *File) Truncate(size int64)", "func (f *File) simRealTruncate(size int64)"},
		{"func (f *File) Sync() error {", "func (f *File) simRealSync() error {"},
	},
	"file_unix.go": {
		{"func openFileNolog(name string", "func simRealOpen(name string"},
		{"func rename(oldname, newname string)", "func simRealRename(oldname, newname string)"},
		{"func Remove(name string)", "func simRealRemove(name string)"},
		{"func Truncate(name string, size int64)", "func simRealTruncateName(name string, size int64)"},
	},
	"file.go":            {{"func Mkdir(name string", "func simRealMkdir(name string"}},
	"proc.go":            {{"func Exit(code int) {", "func simRealExit(code int) {"}},
	"stat_unix.go":       {{"func statNolog(name string)", "func simRealStat(name string)"}},
	"zero_copy_linux.go": {{"func (f *File) readFrom(", "func (f *File) simRealReadFrom("}, {"func (f *File) writeTo(", "func (f *File) simRealWriteTo("}},
}

const extra = `package os

import "io"

// SimHandler decides what happens to file operations and exits of the simulated process.
type SimHandler interface {
	Open(name string, flag int) error
	Opened(f *File, name string, flag int)
	Read(f *File, n int) (allow int, err error)
	Write(f *File, n int) (allow int, err error)
	Do(op string, f *File, a, b string) error
	Did(op string, f *File, a, b string)
	Exit(code int)
}

// Sim is the handler; nil: the operating system is used directly.
var Sim SimHandler

func openFileNolog(name string, flag int, perm FileMode) (*File, error) {
	s := Sim
	if s != nil {
		if err := s.Open(name, flag); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
	f, err := simRealOpen(name, flag, perm)
	if s != nil && err == nil {
		s.Opened(f, name, flag)
	}
	return f, err
}

func (f *File) simIO(n int, write bool, do func(n int) (int, error)) (int, error) {
	s := Sim
	if s == nil {
		return do(n)
	}
	var allow int
	var err error
	if write {
		allow, err = s.Write(f, n)
	} else {
		allow, err = s.Read(f, n)
	}
	if err != nil && allow == 0 {
		return 0, err
	}
	m, e := do(allow)
	op := "read"
	if write {
		op = "write"
	}
	s.Did(op, f, "", "")
	if err != nil {
		return m, err
	}
	return m, e
}

func (f *File) read(b []byte) (int, error) {
	return f.simIO(len(b), false, func(n int) (int, error) { return f.simRealRead(b[:n]) })
}
func (f *File) pread(b []byte, off int64) (int, error) {
	return f.simIO(len(b), false, func(n int) (int, error) { return f.simRealPread(b[:n], off) })
}
func (f *File) write(b []byte) (int, error) {
	return f.simIO(len(b), true, func(n int) (int, error) { return f.simRealWrite(b[:n]) })
}
func (f *File) pwrite(b []byte, off int64) (int, error) {
	return f.simIO(len(b), true, func(n int) (int, error) { return f.simRealPwrite(b[:n], off) })
}
func (f *File) readFrom(r io.Reader) (int64, bool, error) {
	if Sim != nil {
		return 0, false, nil
	}
	return f.simRealReadFrom(r)
}
func (f *File) writeTo(w io.Writer) (int64, bool, error) {
	if Sim != nil {
		return 0, false, nil
	}
	return f.simRealWriteTo(w)
}

func simDo(op string, f *File, a, b string, real func() error) error {
	s := Sim
	if s == nil {
		return real()
	}
	if err := s.Do(op, f, a, b); err != nil {
		if op == "close" {
			real()
		}
		return &PathError{Op: op, Path: a, Err: err}
	}
	err := real()
	if err == nil {
		s.Did(op, f, a, b)
	}
	return err
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	return simDo("close", f, f.name, "", f.simRealClose)
}
func (f *File) Sync() error {
	if err := f.checkValid("sync"); err != nil {
		return err
	}
	return simDo("sync", f, f.name, "", f.simRealSync)
}
func (f *File) Truncate(size int64) error {
	if err := f.checkValid("truncate"); err != nil {
		return err
	}
	return simDo("truncate", f, f.name, "", func() error { return f.simRealTruncate(size) })
}
func Truncate(name string, size int64) error {
	return simDo("truncate", nil, name, "", func() error { return simRealTruncateName(name, size) })
}
func rename(a, b string) error {
	return simDo("rename", nil, a, b, func() error { return simRealRename(a, b) })
}
func Remove(name string) error {
	return simDo("remove", nil, name, "", func() error { return simRealRemove(name) })
}
func Mkdir(name string, perm FileMode) error {
	return simDo("mkdir", nil, name, "", func() error { return simRealMkdir(name, perm) })
}
func statNolog(name string) (fi FileInfo, err error) {
	err = simDo("stat", nil, name, "", func() error { var e error; fi, e = simRealStat(name); return e })
	return
}

// Exit ends the process, or the simulated one.
func Exit(code int) {
	if s := Sim; s != nil {
		s.Exit(code)
	}
	simRealExit(code)
}
`

func main() {
	out := os.Args[1]
	gobin := os.Getenv("VERIF_GO")
	if gobin == "" {
		gobin = "/usr/local/bin/go1.23"
	}
	b, err := exec.Command(gobin, "env", "GOROOT").Output()
	if err != nil {
		die(err)
	}
	dir := filepath.Join(strings.TrimSpace(string(b)), "src", "os")
	over := map[string]string{}
	for f, rs := range renames {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			die(err)
		}
		s := string(src)
		for _, r := range rs {
			if strings.Count(s, r[0]) != 1 {
				die(fmt.Errorf("%s: %q not found once", f, r[0]))
			}
			s = strings.Replace(s, r[0], r[1], 1)
		}
		dst := filepath.Join(out, "os_"+f)
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			die(err)
		}
		over[filepath.Join(dir, f)] = dst
	}
	dst := filepath.Join(out, "os_zz_sim.go")
	if err := os.WriteFile(dst, []byte(extra), 0o644); err != nil {
		die(err)
	}
	over[filepath.Join(dir, "zz_sim.go")] = dst
	j, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die(err)
	}
}
