package verifdrv

import (
	"os"
	"syscall"
)

func inode(i os.FileInfo) any {
	if s, ok := i.Sys().(*syscall.Stat_t); ok {
		return s.Ino
	}
	return nil
}
