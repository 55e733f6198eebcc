//go:build !ambient

package main

func watchLookups() {}

func endLookups() []string { return nil }
