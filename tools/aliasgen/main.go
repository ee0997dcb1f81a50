// Command aliasgen writes alias.go into each shim package of sim/: every exported name of the standard package that the
// shim does not define itself is re-exported, except those that would reach the real system.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var shims = map[string]string{"sos": "os", "sfilepath": "path/filepath", "snet": "net", "shttp": "net/http", "szip": "archive/zip",
	"ssyscall": "syscall", "sruntime": "runtime", "scrand": "crypto/rand", "suser": "os/user", "stls": "crypto/tls"}

// never re-exported: they act on the real system
var forbidden = map[string]string{
	"os":          "OpenRoot OpenInRoot Root CopyFS DirFS",
	"net":         "ListenConfig ListenTCP ListenUDP ListenUnix ListenUnixgram ListenIP ListenMulticastUDP ListenPacket DialTCP DialUDP DialUnix DialIP FileConn FileListener FilePacketConn Interfaces InterfaceAddrs InterfaceByName InterfaceByIndex LookupAddr LookupCNAME LookupMX LookupNS LookupPort LookupSRV LookupTXT DefaultResolver",
	"net/http":    "ListenAndServe ListenAndServeTLS Serve ServeTLS ServeFile ServeFileFS NewFileTransport NewFileTransportFS",
	"syscall":     "Open Openat Creat Exec ForkExec StartProcess Mkdirat Unlinkat Symlink Link Linkat Rename Renameat Chmod Chown Lchown Truncate Ftruncate Mount Unmount Chroot Reboot Sethostname Setdomainname Settimeofday PtraceAttach Socket Bind Connect Listen Accept Write Read Pwrite Pread Close Dup Dup2 Dup3 Syscall Syscall6 RawSyscall RawSyscall6 Stat Lstat Fstat Access Utime Utimes UtimesNano Pipe Pipe2 Setenv Unsetenv Clearenv Environ Getcwd Chdir Fchdir Fchmod Fchmodat Fchown Fchownat Mknod Mknodat Setuid Setgid Wait4",
	"os/user":     "Lookup LookupId LookupGroup LookupGroupId",
	"archive/zip": "",
	"crypto/tls":  "Dial DialWithDialer Listen NewListener Dialer",
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for shim, std := range shims {
		pkg, err := imp.Import(std)
		if err != nil {
			panic(err)
		}
		have := map[string]bool{}
		files, _ := filepath.Glob(filepath.Join(root, shim, "*.go"))
		for _, f := range files {
			if filepath.Base(f) == "alias.go" {
				continue
			}
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range a.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		for _, n := range strings.Fields(forbidden[std]) {
			have[n] = true
		}
		base := filepath.Base(std)
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.25\n\n// Code generated by tools/aliasgen. DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", shim, std)
		names := pkg.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			if !token.IsExported(n) || have[n] {
				continue
			}
			switch o := pkg.Scope().Lookup(n).(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = %s.%s\n", n, base, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
			case *types.TypeName:
				if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = %s.%s\n", n, base, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
			}
		}
		out, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(root, shim, "alias.go"), out, 0644); err != nil {
			panic(err)
		}
	}
}
