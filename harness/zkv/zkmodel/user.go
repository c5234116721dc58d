package zkmodel

import (
	"flag"
	"os/user"
)

func UserCurrent() (*user.User, error) {
	return &user.User{Uid: "1", Gid: "1", Username: "zkv", Name: "zkv", HomeDir: "/home/zkv"}, nil
}

// FlagParse is flag.Parse of a program that was started without arguments.
func FlagParse() { flag.CommandLine.Parse(nil) }
