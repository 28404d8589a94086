//go:build !race

package main

const race = false
