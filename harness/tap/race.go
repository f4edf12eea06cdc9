//go:build race

// Package tap is not there under the race detector, as it would order what is not ordered.
package tap

func Listen(func([]byte)) bool { return false }
