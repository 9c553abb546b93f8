// Package inproc runs commands of the code under test in this process through
// its public API, and classifies failures the way its engine documents them.
package inproc

import (
	"errors"

	"github.com/lxdlam/vertex/pkg/command"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"

	"vertexverif/model"
	"vertexverif/resp"
)

// ErrText maps an error of the code under test to the documented reply.
func ErrText(err error) string {
	switch {
	case errors.Is(err, command.ErrCommandNotExist):
		return model.ENoCmd
	case errors.Is(err, command.ErrArgumentInvalid):
		return model.EArg
	case errors.Is(err, container.ErrNotAInt):
		return model.EInt
	case errors.Is(err, command.ErrNoSuchKey):
		return model.ENoKey
	case errors.Is(err, container.ErrOutOfRange):
		return model.ERange
	}
	return "ERR " + err.Error()
}

// Exec runs one command on d. A broken encoding of the reply is reported as err.
func Exec(d db.DB, args []string) (resp.Value, error) {
	objs := make([]protocol.RedisObject, 0, len(args))
	for _, a := range args[1:] {
		objs = append(objs, protocol.NewBulkRedisString(a))
	}
	return ExecObjs(d, args[0], objs)
}

// ExecObjs runs one command with arguments of any kind.
func ExecObjs(d db.DB, name string, objs []protocol.RedisObject) (resp.Value, error) {
	c, err := command.NewCommand(name, 1, objs)
	if err != nil || c == nil {
		if err == nil {
			return resp.Value{}, errors.New("NewCommand gave neither a command nor an error")
		}
		return resp.Error(ErrText(err)), nil
	}
	d.ExecuteCommand(c)
	r, err := c.Result()
	if err != nil {
		return resp.Error(ErrText(err)), nil
	}
	if r == nil {
		return resp.Value{}, errors.New("the command gave neither a result nor an error")
	}
	v, err := resp.ParseAll(r.Byte())
	if err != nil {
		return resp.Value{}, errors.New("the reply is not well-formed RESP: " + err.Error() + ": " + string(r.Byte()))
	}
	return v, nil
}
