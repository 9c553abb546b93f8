// vserver runs the server of the code under test with a configuration given
// by flags, the way cmd/server does with its fixed one.
//
//go:debug default=go1.20
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/network"
)

func main() {
	port := flag.Int("port", 0, "")
	database := flag.String("db", "", "")
	replica := flag.Int("replica", 0, "replication port, 0 for none")
	serve := flag.Bool("serve-replicas", false, "replicas are served, on a port of the server's choice if -replica names none")
	master := flag.String("master", "", "address of the master")
	logFile := flag.String("log", "", "log file, none if empty")
	nofile := flag.Uint64("nofile", 0, "limit of open files, 0 for the usual one")
	level := flag.String("level", "DEBUG", "")
	flag.Parse()
	if *nofile > 0 {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: *nofile, Max: *nofile}); err != nil {
			fmt.Fprintln(os.Stderr, "vserver:", err)
			os.Exit(4)
		}
	}

	c := common.Config{
		LogPath: *logFile, LogLevel: *level, Port: *port, DatabaseFile: *database,
		EnableReplica: *serve || *replica > 0, ReplicaPort: *replica, MasterAddress: *master,
	}
	if *logFile != "" {
		common.InitLog(c, false)
	}
	s := network.NewServer()
	if !s.Init(c) {
		fmt.Fprintln(os.Stderr, "vserver: init failed")
		os.Exit(3)
	}
	stop := make(chan os.Signal, 4)
	signal.Notify(stop, syscall.SIGUSR1)
	go func() {
		for range stop {
			go s.Stop()
		}
	}()
	s.Serve()
	fmt.Fprintln(os.Stderr, "vserver: clean exit")
}
