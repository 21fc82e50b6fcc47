package main

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"flucheck/catmodel"
	"flucheck/core"
	"flucheck/simnet"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"pgregory.net/rapid"
)

// fileSpec is a file in a catalogue: shared, or a download of which some chunks are held.
type fileSpec struct {
	Size  int
	Chunk int   // 0: shared as a user would
	Held  []int // of a download
	Seed  uint64
	Name  string `json:",omitempty"`
}

func (f fileSpec) bytes() []byte {
	b := make([]byte, f.Size)
	catmodel.Fill(b, f.Seed)
	return b
}

const shareChunk = 4 << 20

func (f fileSpec) chunkSize() int {
	if f.Chunk == 0 {
		return shareChunk
	}
	return f.Chunk
}

func (f fileSpec) chunks() int { return (f.Size + f.chunkSize() - 1) / f.chunkSize() }

func (f fileSpec) name(i int) string {
	if f.Name != "" {
		return f.Name
	}
	return fmt.Sprintf("file%d.bin", i)
}

func chunkOf(data []byte, size, c int) []byte {
	a, b := c*size, (c+1)*size
	if a > len(data) {
		a = len(data)
	}
	if b > len(data) {
		b = len(data)
	}
	return data[a:b]
}

func hashOf(b []byte) *common.Sha1Hash { return &common.Sha1Hash{Data: sha1.Sum(b)} }

// place puts the file into the daemon's catalogue.
func place(d *simnet.Daemon, f fileSpec, i int, userDir string) error {
	data := f.bytes()
	if f.Chunk == 0 {
		p := filepath.Join(userDir, f.name(i))
		os.MkdirAll(userDir, 0755)
		if err := os.WriteFile(p, data, 0644); err != nil {
			panic(core.Harness("%v", err))
		}
		err, bad := d.Call("share", time.Minute, func() error { return d.M.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) })
		if bad != nil {
			return bad
		}
		if err != nil {
			return core.Fail("setup", "sharing %q failed: %v", p, err)
		}
		return nil
	}
	err, bad := d.Call("register", time.Minute, func() error {
		if _, err := d.Cat.RegisterDownload(uint64(f.Size), uint32(f.chunks()), uint32(f.Chunk), hashOf(data), f.name(i)); err != nil {
			return err
		}
		for _, c := range f.Held {
			if err := d.Cat.SaveChunk(hashOf(data), uint16(c), append([]byte(nil), chunkOf(data, f.Chunk, c)...)); err != nil {
				return err
			}
		}
		return nil
	})
	if bad != nil {
		return bad
	}
	if err != nil {
		return core.Fail("setup", "preparing a download of %d bytes in chunks of %d failed: %v", f.Size, f.Chunk, err)
	}
	return nil
}

// openFiles lists the files under dir this process has open.
func openFiles(dir string) []string {
	var v []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			v = append(v, strings.TrimPrefix(t, dir+"/"))
		}
	}
	return v
}

// leaks is what a daemon may not have once everything has ended.
func leaks(d *simnet.Daemon, dir string) error {
	if p := d.Ports(); len(p) != 1 {
		return core.Fail("leak-sockets", "sockets on ports %v are still open, only %d should be", p, simnet.Port)
	}
	if k := simnet.ClientTasks(); k > 0 {
		return core.Fail("leak-tasks", "%d tasks of the daemon are still there:\n%s", k, simnet.ClientStacks())
	}
	if v := openFiles(dir); len(v) > 0 {
		return core.Fail("leak-files", "files are still open: %q", v)
	}
	return nil
}

// tagged is a violation of a property other than the one the scenario was made for.
type tagged struct {
	prop string
	v    error
}

// as keeps the violations of one property.
func as(prop string, found []tagged) error {
	for _, t := range found {
		var h *core.HarnessError
		if t.prop == prop || errors.As(t.v, &h) {
			return t.v
		}
	}
	return nil
}

func pick[T any](t *rapid.T, name string, v ...T) T { return rapid.SampledFrom(v).Draw(t, name) }

func chance(t *rapid.T, name string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, name) == n-1 }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func listOf(d *simnet.Daemon) (cli.ListResponse, error, error) {
	var r cli.ListResponse
	err, bad := d.Call("list", time.Minute, func() error { return d.M.List(&cli.ListRequest{}, &r) })
	return r, err, bad
}

// distinct makes the contents differ.
func distinct(files []fileSpec) {
	seen := map[string]bool{}
	for i := range files {
		for seen[string(files[i].bytes())] {
			files[i].Seed++
			if files[i].Size == 0 {
				files[i].Size = 1
			}
		}
		seen[string(files[i].bytes())] = true
	}
}

// sorted describes a listing, whose order does not matter.
func sorted(l cli.ListResponse) string {
	var v []string
	for _, it := range l.Items {
		v = append(v, fmt.Sprintf("%+v", it))
	}
	sort.Strings(v)
	return strings.Join(v, "\n")
}
