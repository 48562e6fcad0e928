// Package sfmt replaces package fmt for command-line programs in the
// instrumented build: printing goes to the simulated standard output.
package sfmt

import (
	"fmt"
	"io"

	"github.com/adamcolton/parlex/zzsim/sos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	Scanner    = fmt.Scanner
	ScanState  = fmt.ScanState
)

func Print(a ...any) (int, error)            { return fmt.Fprint(sos.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(sos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(sos.Stdout, f, a...) }

func Fprint(w io.Writer, a ...any) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Sprintln(a ...any) string                             { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...any) string                    { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...any) error                      { return fmt.Errorf(f, a...) }
func Append(b []byte, a ...any) []byte                     { return fmt.Append(b, a...) }
func Appendln(b []byte, a ...any) []byte                   { return fmt.Appendln(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return fmt.Appendf(b, f, a...) }

func Scan(a ...any) (int, error)                          { return fmt.Fscan(sos.Stdin, a...) }
func Scanln(a ...any) (int, error)                        { return fmt.Fscanln(sos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)               { return fmt.Fscanf(sos.Stdin, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
func Sscanf(s string, f string, a ...any) (int, error)    { return fmt.Sscanf(s, f, a...) }
