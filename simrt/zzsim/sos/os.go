// Package sos replaces package os for command-line programs in the
// instrumented build: the standard streams, arguments and exit are simulated.
package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"os/signal"

	sim "github.com/adamcolton/parlex/zzsim"
)

// File is a simulated standard stream.
type File struct {
	R    func(p []byte) (int, error)
	W    func(p []byte) (int, error)
	name string
	fd   uintptr
}

func (f *File) Read(p []byte) (int, error) {
	sim.Sync()
	if f.R == nil {
		return 0, io.EOF
	}
	return f.R(p)
}
func (f *File) Write(p []byte) (int, error) {
	sim.Sync()
	if f.W == nil {
		return len(p), nil
	}
	return f.W(p)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error                      { return nil }
func (f *File) Sync() error                       { return nil }
func (f *File) Name() string                      { return f.name }
func (f *File) Fd() uintptr                       { return f.fd }

// ExitCode is the panic value that stands for os.Exit.
type ExitCode int

type (
	FileMode  = os.FileMode
	FileInfo  = os.FileInfo
	PathError = os.PathError
	Signal    = os.Signal
)

var (
	Stdin  = &File{name: "/dev/stdin", fd: 0}
	Stdout = &File{name: "/dev/stdout", fd: 1}
	Stderr = &File{name: "/dev/stderr", fd: 2}
	Args   = []string{"scalc"}

	ErrNotExist         = os.ErrNotExist
	ErrExist            = os.ErrExist
	ErrClosed           = os.ErrClosed
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	Interrupt           = os.Interrupt
	Kill                = os.Kill
	_                   = signal.Notify
	_                   fs.FileMode
)

func Exit(code int)                   { panic(ExitCode(code)) }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func IsNotExist(err error) bool       { return os.IsNotExist(err) }
func Getpid() int                     { return 1 }
func Open(name string) (*File, error) {
	return nil, errors.New("open " + name + ": no such file or directory")
}
func ReadFile(name string) ([]byte, error) { return nil, os.ErrNotExist }
func Executable() (string, error)          { return "scalc", nil }
