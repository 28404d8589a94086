//go:build race

package main

const race = true
