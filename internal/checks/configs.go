package checks

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"notifysa/internal/load"
)

// platform is a supported build configuration and what is documented of it.
type platform struct {
	load.Config
	c       bool // has C parts, which are replaced by stand-ins
	backend string
	natives map[string]uint32 // documented values of the platform's events
	alias   []string          // natives that are the portable events themselves
}

func events(s string, vals ...uint32) map[string]uint32 {
	m := map[string]uint32{}
	for i, n := range strings.Fields(s) {
		m[n] = vals[i]
	}
	return m
}

var (
	inotifyEvents = events("InAccess InModify InAttrib InCloseWrite InCloseNowrite InOpen InMovedFrom InMovedTo InCreate InDelete InDeleteSelf InMoveSelf",
		1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800)
	kqueueEvents   = events("NoteDelete NoteWrite NoteExtend NoteAttrib NoteLink NoteRename NoteRevoke", 1, 2, 4, 8, 0x10, 0x20, 0x40)
	fseventsEvents = events("FSEventsMustScanSubDirs FSEventsUserDropped FSEventsKernelDropped FSEventsEventIdsWrapped FSEventsHistoryDone FSEventsRootChanged FSEventsMount FSEventsUnmount FSEventsCreated FSEventsRemoved FSEventsInodeMetaMod FSEventsRenamed FSEventsModified FSEventsFinderInfoMod FSEventsChangeOwner FSEventsXattrMod FSEventsIsFile FSEventsIsDir FSEventsIsSymlink",
		1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000)
	fenEvents = events("FileAccess FileModified FileAttrib FileDelete FileRenameTo FileRenameFrom FileTrunc FileNoFollow Unmounted MountedOver",
		1, 2, 4, 0x10, 0x20, 0x40, 0x100000, 0x10000000, 0x20000000, 0x40000000)
	windowsEvents = events("FileNotifyChangeFileName FileNotifyChangeDirName FileNotifyChangeAttributes FileNotifyChangeSize FileNotifyChangeLastWrite FileNotifyChangeLastAccess FileNotifyChangeCreation FileNotifyChangeSecurity",
		1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100)
)

// platforms lists the supported configurations.
var platforms = []platform{
	{Config: Linux, backend: "inotify", natives: inotifyEvents},
	{Config: load.Config{Name: "linux arm", GOOS: "linux", Arch: "arm"}, backend: "inotify", natives: inotifyEvents},
	{Config: load.Config{Name: "linux arm64", GOOS: "linux", Arch: "arm64"}, backend: "inotify", natives: inotifyEvents},
	{Config: load.Config{Name: "linux 386", GOOS: "linux", Arch: "386"}, backend: "inotify", natives: inotifyEvents},
	{Config: load.Config{Name: "linux debug", GOOS: "linux", Tags: "debug"}, backend: "inotify", natives: inotifyEvents},
	{Config: load.Config{Name: "darwin without cgo", GOOS: "darwin"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "darwin kqueue", GOOS: "darwin", Tags: "kqueue"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "freebsd", GOOS: "freebsd"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "netbsd", GOOS: "netbsd"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "openbsd", GOOS: "openbsd"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "dragonfly", GOOS: "dragonfly"}, backend: "kqueue", natives: kqueueEvents},
	{Config: load.Config{Name: "windows", GOOS: "windows"}, backend: "readdcw", natives: windowsEvents},
	{Config: load.Config{Name: "windows 386", GOOS: "windows", Arch: "386"}, backend: "readdcw", natives: windowsEvents},
	{Config: load.Config{Name: "plan9", GOOS: "plan9"}, backend: "stub"},
	{Config: load.Config{Name: "darwin fsevents", GOOS: "darwin", Tags: "cgo"}, c: true, backend: "fsevents", natives: fseventsEvents,
		alias: []string{"FSEventsCreated", "FSEventsRemoved", "FSEventsModified", "FSEventsRenamed"}},
	{Config: load.Config{Name: "solaris", GOOS: "solaris", Tags: "cgo"}, c: true, backend: "fen", natives: fenEvents},
	{Config: load.Config{Name: "illumos", GOOS: "illumos", Tags: "cgo"}, c: true, backend: "fen", natives: fenEvents},
}

// stubs stand for the C parts, which no compiler here can read.
var stubs = map[string]string{
	"darwin": `package notify

import "unsafe"

type (
	_C_FSEventStreamRef             uintptr
	_C_CFTimeInterval               float64
	_C_FSEventStreamCreateFlags     uint32
	_C_dispatch_queue_t             uintptr
	_C_dispatch_queue_attr_t        uintptr
	_C_size_t                       uint64
	_C_char                         int8
	_C_FSEventStreamEventFlags      uint32
	_C_FSEventStreamEventId         uint64
	_C_FSEventStreamContext         struct{ info unsafe.Pointer }
	_C_uintptr_t                    uint64
	_C_Boolean                      uint8
	_C_CFStringRef                  uintptr
	_C_CFArrayRef                   uintptr
)

const (
	_C_kFSEventStreamCreateFlagFileEvents = 0x10
	_C_kFSEventStreamCreateFlagNoDefer    = 0x2
	_C_DISPATCH_QUEUE_SERIAL              = 0
	_C_kCFAllocatorDefault                = 0
	_C_kCFStringEncodingUTF8              = 0x08000100
)

func _C_FSEventsGetCurrentEventId() uint64
func _C_dispatch_queue_create(*_C_char, _C_dispatch_queue_attr_t) _C_dispatch_queue_t
func _C_CString(string) *_C_char
func _C_GoString(*_C_char) string
func _C_CFStringCreateWithCStringNoCopy(int, *_C_char, int, int) _C_CFStringRef
func _C_CFArrayCreate(int, *unsafe.Pointer, int, unsafe.Pointer) _C_CFArrayRef
func _C_EventStreamCreate(*_C_FSEventStreamContext, _C_uintptr_t, _C_CFArrayRef, _C_FSEventStreamEventId, _C_CFTimeInterval, _C_FSEventStreamCreateFlags) _C_FSEventStreamRef
func _C_FSEventStreamSetDispatchQueue(_C_FSEventStreamRef, _C_dispatch_queue_t)
func _C_FSEventStreamStart(_C_FSEventStreamRef) _C_Boolean
func _C_FSEventStreamInvalidate(_C_FSEventStreamRef)
func _C_FSEventStreamStop(_C_FSEventStreamRef)
func _C_FSEventStreamRelease(_C_FSEventStreamRef)
func _C_free(unsafe.Pointer)
`,
	"solaris": `package notify

import "unsafe"

type (
	_C_time_t       int64
	_C_long         int64
	_C_int          int32
	_C_uint         uint32
	_C_char         int8
	_C_uintptr_t    uint64
	_C_timestruc_t  struct {
		tv_sec  _C_time_t
		tv_nsec _C_long
	}
	_C_struct_file_obj struct {
		fo_atime, fo_mtime, fo_ctime _C_timestruc_t
		fo_pad                       [3]_C_uintptr_t
		fo_name                      *_C_char
	}
	_C_port_event_t struct {
		portev_events _C_int
		portev_source uint16
		portev_pad    uint16
		portev_object _C_uintptr_t
		portev_user   unsafe.Pointer
	}
)

const (
	_C_FILE_ACCESS       = 0x00000001
	_C_FILE_MODIFIED     = 0x00000002
	_C_FILE_ATTRIB       = 0x00000004
	_C_FILE_DELETE       = 0x00000010
	_C_FILE_RENAME_TO    = 0x00000020
	_C_FILE_RENAME_FROM  = 0x00000040
	_C_FILE_TRUNC        = 0x00100000
	_C_FILE_NOFOLLOW     = 0x10000000
	_C_UNMOUNTED         = 0x20000000
	_C_MOUNTEDOVER       = 0x40000000
	_C_PORT_SOURCE_ALERT = 5
	_C_PORT_SOURCE_FILE  = 7
	_C_PORT_ALERT_SET    = 1
)

func _C_newFo() *_C_struct_file_obj
func _C_newPe() *_C_port_event_t
func _C_conv(*_C_struct_file_obj) _C_uintptr_t
func _C_dconv(_C_uintptr_t) *_C_struct_file_obj
func _C_CString(string) *_C_char
func _C_GoString(*_C_char) string
func _C_free(unsafe.Pointer)
func _C_port_create() (_C_int, error)
func _C_port_associate(_C_int, int, _C_uintptr_t, _C_int, unsafe.Pointer) (_C_int, error)
func _C_port_dissociate(_C_int, int, _C_uintptr_t) (_C_int, error)
func _C_port_get(_C_int, *_C_port_event_t, unsafe.Pointer) (_C_int, error)
func _C_port_alert(_C_int, int, _C_int, unsafe.Pointer) (_C_int, error)
`,
}

// withoutC rewrites the files that use C for a configuration.
func withoutC(repo, goos string) (map[string][]byte, error) {
	out := map[string][]byte{}
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			continue // reported by the type checker
		}
		type edit struct{ from, to int }
		var edits []edit
		uses := false
		for _, d := range af.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, sp := range g.Specs {
				if is := sp.(*ast.ImportSpec); is.Path.Value == `"C"` {
					uses = true
					from, to := is.Pos(), is.End()
					if !g.Lparen.IsValid() {
						from, to = g.Pos(), g.End()
					}
					edits = append(edits, edit{fset.Position(from).Offset, fset.Position(to).Offset})
				}
			}
		}
		if !uses {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "C" {
					edits = append(edits, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset})
				}
			}
			return true
		})
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		b := append([]byte(nil), src...)
		for _, e := range edits {
			old := string(b[e.from:e.to])
			n := ""
			if strings.HasPrefix(old, "C.") {
				n = "_C_" + old[2:]
			}
			b = append(b[:e.from:e.from], append([]byte(n), b[e.to:]...)...)
		}
		out[f] = b
	}
	s := stubs[goos]
	if goos == "illumos" {
		s = stubs["solaris"]
	}
	out[filepath.Join(repo, "zz_c_standins_"+goos+".go")] = []byte(s)
	return out, nil
}

// Platform loads a supported configuration.
func (c *Ctx) Platform(pl platform) *load.Program {
	cfg := pl.Config
	if pl.c {
		o, err := withoutC(c.Repo, cfg.GOOS)
		if err != nil {
			c.Fail("undecided", cfg.Name, "", "%v", err)
			return nil
		}
		cfg.Overlay = o
	}
	return c.Load(cfg)
}
