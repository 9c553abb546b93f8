package sys

import "runtime"

func lockThread() { runtime.LockOSThread() }
