//go:build go1.21

package zzsim

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/pkg/profile"
)

// OS is the simulated environment of the process: settings, files, execution tracer and profiler.
type OS struct {
	Env    map[string]string
	Fail   func(op, path string) error // decides which operations fail
	Event  func(op, path string, err error)
	Files  []*File
	Tracer io.Writer
	Prof   *Prof
	Exited string // the message the process ended with
}

// Sys is the environment of the run; nil outside runs that use one.
var Sys *OS

// ExitPanic unwinds a task whose process has ended.
type ExitPanic struct{ Msg string }

func (s *OS) call(op, path string) error {
	Y()
	var err error
	if s.Fail != nil {
		err = s.Fail(op, path)
	}
	if s.Event != nil {
		s.Event(op, path, err)
	}
	return err
}

func sys() *OS {
	if Sys == nil {
		Sys = &OS{Env: map[string]string{}}
	}
	return Sys
}

// File is an open simulated file.
type File struct {
	Path   string
	Data   []byte
	Closed bool
	Lost   int // bytes that did not reach the file
}

// Name is os.File's.
func (f *File) Name() string { return f.Path }

// Write is os.File's.
func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.Closed {
		f.Lost += len(p)
		sys().call("write after close", f.Path)
		return 0, &os.PathError{Op: "write", Path: f.Path, Err: os.ErrClosed}
	}
	if err := sys().call("write", f.Path); err != nil {
		f.Data = append(f.Data, p[:len(p)/2]...) // a short write
		return len(p) / 2, &os.PathError{Op: "write", Path: f.Path, Err: err}
	}
	f.Data = append(f.Data, p...)
	return len(p), nil
}

// WriteString is os.File's.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync is os.File's.
func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	return sys().call("sync", f.Path)
}

// Close is os.File's.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.Closed {
		return &os.PathError{Op: "close", Path: f.Path, Err: os.ErrClosed}
	}
	f.Closed = true
	return sys().call("close", f.Path)
}

// OSCreate is os.Create.
func OSCreate(path string) (*File, error) {
	return OSOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// OSOpenFile is os.OpenFile.
func OSOpenFile(path string, flag int, perm os.FileMode) (*File, error) {
	if err := sys().call("open", path); err != nil {
		return nil, &os.PathError{Op: "open", Path: path, Err: err}
	}
	f := &File{Path: path}
	sys().Files = append(sys().Files, f)
	return f, nil
}

// OSMkdir is os.Mkdir and os.MkdirAll.
func OSMkdir(path string, perm os.FileMode) error {
	if err := sys().call("mkdir", path); err != nil {
		return &os.PathError{Op: "mkdir", Path: path, Err: err}
	}
	return nil
}

// OSRemove is os.Remove and os.RemoveAll.
func OSRemove(path string) error { return sys().call("remove", path) }

// OSGetenv is os.Getenv.
func OSGetenv(key string) string {
	v, _ := OSLookupEnv(key)
	return v
}

// OSLookupEnv is os.LookupEnv.
func OSLookupEnv(key string) (string, bool) {
	Y()
	if Sys == nil {
		return os.LookupEnv(key)
	}
	v, ok := Sys.Env[key]
	return v, ok
}

// OSSetenv is os.Setenv.
func OSSetenv(key, value string) error {
	Y()
	sys().Env[key] = value
	return nil
}

// OSUnsetenv is os.Unsetenv.
func OSUnsetenv(key string) error {
	Y()
	delete(sys().Env, key)
	return nil
}

// OSEnviron is os.Environ.
func OSEnviron() []string {
	Y()
	var out []string
	for k, v := range sys().Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

// OSExpandEnv is os.ExpandEnv.
func OSExpandEnv(s string) string { return os.Expand(s, OSGetenv) }

// OSExit is os.Exit.
func OSExit(code int) { exit(fmt.Sprintf("exit %d", code)) }

func exit(msg string) {
	sys().Exited = msg
	panic(ExitPanic{msg})
}

// TraceStart is trace.Start.
func TraceStart(w io.Writer) error {
	s := sys()
	if err := s.call("trace start", ""); err != nil {
		return err
	}
	if s.Tracer != nil {
		return errors.New("tracing is already enabled")
	}
	s.Tracer = w
	w.Write([]byte("header "))
	return nil
}

// TraceStop is trace.Stop.
func TraceStop() {
	s := sys()
	s.call("trace stop", "")
	if s.Tracer == nil {
		return
	}
	w := s.Tracer
	s.Tracer = nil
	w.Write([]byte("end"))
}

// TraceIsEnabled is trace.IsEnabled.
func TraceIsEnabled() bool { return sys().Tracer != nil }

// Prof is a started profile.
type Prof struct {
	Path    string
	Stopped bool
}

// ProfileStart is profile.Start.
func ProfileStart(options ...func(*profile.Profile)) interface{ Stop() } {
	s := sys()
	var p profile.Profile
	for _, o := range options {
		o(&p)
	}
	path := ""
	if f := reflect.ValueOf(&p).Elem().FieldByName("path"); f.IsValid() && f.Kind() == reflect.String {
		path = f.String()
	}
	if s.Prof != nil {
		exit("profile: Start() already called")
	}
	if err := s.call("profile start", path); err != nil {
		exit("profile: could not create initial output directory: " + err.Error())
	}
	s.Prof = &Prof{Path: path}
	return s.Prof
}

// Stop is profile.Profile's.
func (p *Prof) Stop() {
	if p.Stopped {
		return
	}
	p.Stopped = true
	sys().call("profile stop", p.Path)
	if sys().Prof == p {
		sys().Prof = nil
	}
}

// LogFatal is log.Fatal and its variants.
func LogFatal(v ...any) { exit(strings.TrimSpace(fmt.Sprint(v...))) }

// LogFatalf is log.Fatalf.
func LogFatalf(format string, v ...any) { exit(fmt.Sprintf(format, v...)) }
